// H02: stored tensors keep values within their precision
#include "util/tensor_utils.hpp"
#include "types/tensor_impls/tensor_from_function.hpp"
#include "types/tensor_impls/uniform_tensor.hpp"
#include "types/tensor_impls/identity_tensor.hpp"
#include "types/tensor_impls/tensor_from_xavier.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "types/tensor_views/scalar_multiply_tensor_view.hpp"
#include "pbt.hpp"
#include "dense.hpp"

using namespace happyml;
using pbt::Gen;

static float gen_scale(Gen &g) { return g.pick({10.f, 1.f, 100.f, 0.05f, 1000.f, 30000.f, 1e6f}); }

static void shape(Gen &g, size_t &r, size_t &c, size_t &ch) {
    r = g.size(1, 7);
    c = g.size(1, 7);
    ch = g.size(1, 4);
    if (g.chance(1, 12)) c = g.size(1, 60);
    if (r != c || ch > 1) g.nontrivial();
    g.label(ch > 1 ? "several channels" : "one channel");
    if (r == 1 || c == 1) g.label("single row or column");
}

static float trunc16(float f) {
    uint32_t b;
    memcpy(&b, &f, 4);
    b &= 0xffff0000u;
    memcpy(&f, &b, 4);
    return f;
}

// reference for 8 bits: nearest code, ties and the last eighth of a binade as documented (see H01)
static float ref_quarter(float f, int bias) {
    double a = std::fabs((double) f);
    if (a == 0) return 0;
    double big = ldexp(1.875, 14 - bias);
    if (a >= big) return (float) (f < 0 ? -big : big);
    int e;
    frexp(a, &e);
    e--;
    if (e < -bias) return NAN; // special zone: caller checks magnitude only
    double m = floor(a / ldexp(1.0, e) * 8 - 8);
    double rest = a / ldexp(1.0, e) * 8 - 8 - m;
    if (rest >= 0.5 && m < 7) m++;
    if (e == -bias && m == 0) return NAN;
    double v = ldexp(1 + m / 8, e);
    return (float) (f < 0 ? -v : v);
}

static shared_ptr<BaseTensor> lazy(const Dense &d) {
    return make_shared<TensorFromFunction>([d](size_t i, size_t j, size_t k) { return (float) d.get(i, j, k); }, d.r, d.c, d.ch);
}

static shared_ptr<BaseTensor> source(Gen &g, const Dense &d) {
    if (g.flip()) return lazy(d);
    return make_shared<FullTensor>(nested(d));
}

template<typename T>
static void each(const Dense &d, const shared_ptr<T> &t, const char *what, const function<void(float want, float got, const string &where)> &f) {
    if (t->rowCount() != d.r || t->columnCount() != d.c || t->channelCount() != d.ch)
        pbt::fail("shape", pbt::str(what, " shape ", t->rowCount(), "x", t->columnCount(), "x", t->channelCount(), " instead of ", d.r, "x", d.c, "x", d.ch));
    for (size_t k = 0; k < d.ch; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++)
        f((float) d.get(i, j, k), t->getValue(i, j, k), pbt::str(what, " at row ", i, " column ", j, " channel ", k));
}

PBT_PROP(materialize, 40000, 600000, "a tensor of any shape and scale stored at 8, 16, 32 bits, with a chosen 8-bit bias, and as pixels; non-trivial: not square or several channels") {
    size_t r, c, ch;
    shape(g, r, c, ch);
    Dense d = gen_dense(g, r, c, ch, gen_scale(g));
    g.note("tensor ", d.text());
    auto t = source(g, d);
    auto exact = [&](float w, float got, const string &where) { pbt::check(w == got, "32 bits", pbt::str(where, ": ", got, " instead of ", w)); };
    auto half = [&](float w, float got, const string &where) { pbt::check(trunc16(w) == got, "16 bits", pbt::str(where, ": ", got, " instead of ", trunc16(w))); };
    each(d, materializeTensor(t, 32), "32 bit copy", exact);
    each(d, materializeTensor(t), "copy", exact);
    pbt::check(materializeTensor(t, 32)->isMaterialized() && materializeTensor(t, 16)->isMaterialized() && materializeTensor(t, 8)->isMaterialized(), "copies are materialised");
    each(d, materializeTensor(t, 16), "16 bit copy", half);
    each(d, make_shared<HalfTensor>(t), "half tensor", half);
    each(d, make_shared<FullTensor>(t), "full tensor", exact);
    int bias = 4;
    double big = d.maxabs();
    for (int b = 15; b >= 4; b--) if (big < ldexp(1.875, 14 - b)) { bias = b; break; }
    g.label(bias == 15 ? "8 bit bias 15" : bias == 4 ? "8 bit bias 4" : "8 bit bias 5..14");
    int chosen = bias;
    auto quarter = [&](float w, float got, const string &where) {
        float want = ref_quarter(w, chosen);
        if (std::isnan(want)) pbt::check(std::fabs(got) <= ldexp(1.125, -chosen) && (got == 0 || (got < 0) == (w < 0)), "8 bits near zero", pbt::str(where, ": ", got, " for ", w));
        else pbt::check(want == got, "8 bits", pbt::str(where, ": ", got, " instead of ", want, " (from ", w, ", bias ", chosen, ")"));
    };
    each(d, materializeTensor(t, 8), "8 bit copy", quarter);
    chosen = (int) g.range(1, 15);
    auto q = make_shared<QuarterTensor>(t, chosen);
    pbt::check(q->get_bias() == chosen, "bias of an 8 bit tensor");
    each(d, q, "8 bit tensor", quarter);
}

PBT_PROP(pixels, 15000, 300000, "pixel tensors of any shape from values in and around 0..1 and from whole pixel steps; non-trivial: not square or several channels") {
    size_t r, c, ch;
    shape(g, r, c, ch);
    Dense d(r, c, ch);
    bool steps = g.flip();
    for (auto &x: d.v) x = steps ? (float) g.range(0, 255) / 255.f : (float) (g.unit() * 1.4 - 0.2);
    g.note("tensor ", d.text());
    auto check = [&](float w, float got, const string &where) {
        float cl = std::max(0.f, std::min(1.f, w));
        pbt::check(std::fabs(got - cl) <= 1.0 / 255 + 1e-6, "pixel step", pbt::str(where, ": ", got, " for ", w));
        double k = got * 255.0;
        pbt::check(std::fabs(k - std::round(k)) < 1e-4, "pixel grid", pbt::str(where, ": ", got));
        if (steps) pbt::check(got == w, "pixel identity", pbt::str(where, ": ", got, " for whole step ", w));
    };
    auto p1 = make_shared<PixelTensor>(source(g, d));
    each(d, p1, "pixel copy", check);
    each(d, pixelTensor(nested(d)), "pixel tensor from lists", check);
    if (d.r == 1 && d.ch == 1) {
        vector<float> f(d.v.begin(), d.v.end());
        each(d, make_shared<PixelTensor>(f), "pixel tensor from a list", check);
    }
    string file = pbt::case_dir() + "/p.tensor";
    pbt::check(p1->save(file), "save");
    auto p2 = make_shared<PixelTensor>(file);
    Dense saved = d;
    for (size_t k = 0; k < ch; k++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) saved.set(i, j, k, p1->getValue(i, j, k));
    each(saved, p2, "reloaded pixel tensor", [&](float w, float got, const string &where) { pbt::check(w == got, "pixel reload", pbt::str(where, ": ", got, " instead of ", w)); });
}

PBT_PROP(save_load, 12000, 250000, "one to four tensors of different shapes and storage kinds written to one file, with or without shape headers, and read back; non-trivial: several tensors or several channels") {
    size_t n = g.range(1, 4);
    bool header = !g.chance(1, 3);
    g.label(header ? "with header" : "without header");
    if (n > 1) g.nontrivial();
    vector<Dense> ds;
    vector<shared_ptr<BaseTensor>> ts;
    vector<int> kinds;
    string file = pbt::case_dir() + "/t.tensor";
    {
        ofstream out(file, ios::binary | ios::trunc);
        for (size_t i = 0; i < n; i++) {
            size_t r, c, ch;
            shape(g, r, c, ch);
            Dense d = gen_dense(g, r, c, ch, gen_scale(g));
            int kind = (int) g.draw(3);
            auto src = source(g, d);
            shared_ptr<BaseTensor> t;
            if (kind == 0) t = make_shared<FullTensor>(src);
            else if (kind == 1) t = make_shared<HalfTensor>(src);
            else t = make_shared<QuarterTensor>(src, 6);
            for (size_t k = 0; k < ch; k++) for (size_t a = 0; a < r; a++) for (size_t b = 0; b < c; b++) d.set(a, b, k, t->getValue(a, b, k));
            if (kind == 1 && !header) kind = 0; // 16 bit storage has no header-less reader
            g.note("kind ", kind, " ", d.text());
            kinds.push_back(kind);
            ds.push_back(d);
            t->save(out, header);
        }
    }
    uint64_t want_size = 0;
    for (auto &d: ds) want_size += d.v.size() * 4 + (header ? 24 : 0);
    pbt::check(filesystem::file_size(file) == want_size, "file size", pbt::str(filesystem::file_size(file), " bytes instead of ", want_size));
    ifstream in(file, ios::binary);
    for (size_t i = 0; i < n; i++) {
        auto &d = ds[i];
        auto same = [&](float w, float got, const string &where) { pbt::check(w == got, pbt::str("reload kind ", kinds[i]), pbt::str(where, " tensor ", i, ": ", got, " instead of ", w)); };
        if (header) {
            if (kinds[i] == 0) each(d, make_shared<FullTensor>(in), "reloaded", same);
            else if (kinds[i] == 1) each(d, make_shared<HalfTensor>(in), "reloaded", same);
            else each(d, make_shared<QuarterTensor>(in, 6), "reloaded", same);
        } else {
            if (kinds[i] == 0) each(d, make_shared<FullTensor>(in, d.r, d.c, d.ch), "reloaded", same);
            else each(d, make_shared<QuarterTensor>(in, 6, d.r, d.c, d.ch), "reloaded", same);
        }
    }
    if (n == 1 && header) {
        auto &d = ds[0];
        auto same = [&](float w, float got, const string &where) { pbt::check(w == got, "load by name", pbt::str(where, ": ", got, " instead of ", w)); };
        each(d, loadTensor(file, 32), "loaded at 32 bits", same);
        each(d, loadTensor(file, 16), "loaded at 16 bits", [&](float w, float got, const string &where) { pbt::check(trunc16(w) == got, "load by name at 16 bits", pbt::str(where, ": ", got, " instead of ", trunc16(w))); });
        auto q = loadTensor(file, 8);
        each(d, q, "loaded at 8 bits", [&](float w, float got, const string &where) {
            double big = d.maxabs();
            if (big >= 1900) return; // saturates at the smallest bias
            // fitted again: within one step of the value, or near zero within the smallest step of the fitted bias
            double step = std::fabs(w) / 8, tiny = ldexp(big + 1e-30, -13);
            pbt::check(std::fabs(got - w) <= std::max(step, std::max(tiny, ldexp(1.125, -15))), "load by name at 8 bits", pbt::str(where, ": ", got, " for ", w));
        });
    }
}

PBT_PROP(constructors, 20000, 300000, "tensors from nested lists, a list, a function, a constant, identity and the reproducible random fills; non-trivial: not square or several channels") {
    size_t r, c, ch;
    shape(g, r, c, ch);
    Dense d = gen_dense(g, r, c, ch, gen_scale(g));
    g.note("tensor ", d.text());
    auto exact = [&](float w, float got, const string &where) { pbt::check(w == got, "placed", pbt::str(where, ": ", got, " instead of ", w)); };
    shared_ptr<BaseTensor> t = happyml::tensor(nested(d));
    each(d, t, "from lists", exact);
    each(d, lazy(d), "from function", exact);
    pbt::check(t->size() == r * c * ch && t->elementsPerChannel() == r * c && t->getShape() == vector<size_t>({r, c, ch}), "size and shape");
    for (size_t i = 0; i < r * c * ch; i++) pbt::check(t->getValue(i) == (float) d.v[i], "linear index", pbt::str("offset ", i, ": ", t->getValue(i), " instead of ", d.v[i]));
    size_t row = g.range(0, r - 1), k = g.range(0, ch - 1);
    auto rv = t->getRowValues(row, k);
    pbt::check(rv.size() == c, "row values size");
    for (size_t j = 0; j < c; j++) pbt::check(rv[j] == (float) d.get(row, j, k), "row values", pbt::str("row ", row, " channel ", k, " column ", j, ": ", rv[j], " instead of ", d.get(row, j, k)));
    vector<float> one;
    for (size_t j = 0; j < c; j++) one.push_back((float) d.get(0, j, 0));
    Dense d1(1, c, 1);
    for (size_t j = 0; j < c; j++) d1.set(0, j, 0, one[j]);
    each(d1, columnVector(one), "from a list", exact);
    each(d1, make_shared<HalfTensor>(one), "16 bit from a list", [&](float w, float got, const string &where) { pbt::check(trunc16(w) == got, "placed 16", pbt::str(where, ": ", got)); });
    float u = g.value(100);
    Dense du(r, c, ch);
    for (auto &x: du.v) x = u;
    each(du, make_shared<UniformTensor>(r, c, ch, u), "constant", exact);
    each(du, make_shared<UniformTensor>(vector<size_t>{r, c, ch}, u), "constant by shape", exact);
    Dense di(r, c, ch);
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) for (size_t q = 0; q < ch; q++) di.set(i, j, q, i == j);
    each(di, make_shared<IdentityTensor>(r, c, ch), "identity", exact);
    pbt::check(scalar(t) == (float) d.v[0], "scalar");
    // random fills: in range and the same every time
    float lo = g.value(50), hi = lo + std::fabs(g.value(50)) + 0.25f;
    uint32_t seed = (uint32_t) g.draw(1u << 31);
    auto r1 = make_shared<TensorFromRandom>(r, c, ch, lo, hi, seed);
    auto r2 = make_shared<TensorFromRandom>(vector<size_t>{r, c, ch}, lo, hi, seed);
    auto x1 = make_shared<TensorFromXavier>(r, c, ch, seed);
    float bound = std::sqrt(2.f / (float) (r + c)) / 2.f;
    for (size_t q = 0; q < ch; q++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) {
        float a = r1->getValue(i, j, q);
        pbt::check(a >= lo - 1e-4f * (1 + std::fabs(lo)) && a <= hi + 1e-4f * (1 + std::fabs(hi)), "random fill in range", pbt::str(a, " outside ", lo, "..", hi));
        pbt::check(a == r1->getValue(i, j, q) && a == r2->getValue(i, j, q), "random fill repeatable");
        float b = x1->getValue(i, j, q);
        pbt::check(std::fabs(b) <= bound * 1.0001f, "xavier fill in range", pbt::str(b, " outside +-", bound));
    }
    pbt::check(r1->rowCount() == r && r1->columnCount() == c && r1->channelCount() == ch && x1->rowCount() == r && x1->columnCount() == c && x1->channelCount() == ch, "random fill shape");
    auto rounded = happyml::round(t);
    for (size_t i = 0; i < r * c * ch; i++) pbt::check(rounded->getValue(i) == std::round((float) d.v[i]), "round", pbt::str(d.v[i], " rounded to ", rounded->getValue(i)));
    bool threw = false;
    try { assertEqual(t, happyml::tensor(nested(d))); } catch (const runtime_error &) { threw = true; }
    pbt::check(!threw, "equal tensors compare equal");
    Dense e = d;
    size_t at = g.draw(e.v.size());
    e.v[at] = (float) (e.v[at] + 1 + std::fabs(e.v[at]));
    threw = false;
    try { assertEqual(t, happyml::tensor(nested(e))); } catch (const runtime_error &) { threw = true; }
    pbt::check(threw, "different tensors compare different", pbt::str("element ", at));
    pbt::check(!hasInvalidValues(t) && !t->hasNaNOrInf(), "valid values");
    e.v[at] = g.flip() ? NAN : INFINITY;
    shared_ptr<BaseTensor> bad = happyml::tensor(nested(e));
    pbt::check(hasInvalidValues(bad) && bad->hasNaNOrInf(), "invalid values are noticed", pbt::str("element ", at));
}

PBT_PROP(set_statistics, 20000, 300000, "one to five tensors: running and whole-set mean, deviation, minimum and maximum, and re-scaling with recorded parameters; non-trivial: at least two tensors") {
    size_t n = g.range(1, 5);
    if (n > 1) g.nontrivial();
    vector<shared_ptr<BaseTensor>> ts;
    vector<double> all;
    float scale = g.pick({10.f, 1.f, 100.f});
    for (size_t i = 0; i < n; i++) {
        size_t r, c, ch;
        shape(g, r, c, ch);
        Dense d = gen_dense(g, r, c, ch, scale);
        g.note(d.text());
        ts.push_back(make_shared<FullTensor>(nested(d)));
        all.insert(all.end(), d.v.begin(), d.v.end());
    }
    double mean = 0, mn = 1e300, mx = -1e300;
    for (double x: all) { mean += x; mn = std::min(mn, x); mx = std::max(mx, x); }
    mean /= all.size();
    double var = 0;
    for (double x: all) var += (x - mean) * (x - mean);
    double sd = std::sqrt(var / all.size());
    auto vals = make_shared<StandardizationAndNormalizationValues>();
    for (auto &t: ts) update_standardization_normalization_values_calculation(vals, t);
    auto near = [](double a, double b, double s) { return std::fabs(a - b) <= 1e-4 * s + 1e-6; };
    double mag = std::max(std::fabs(mn), std::fabs(mx));
    pbt::check(near(vals->mean_result, mean, mag), "running mean", pbt::str(vals->mean_result, " instead of ", mean));
    pbt::check(near(vals->standard_deviation, sd, mag), "running deviation", pbt::str(vals->standard_deviation, " instead of ", sd));
    pbt::check(vals->min_value == mn && vals->max_value == mx, "running range", pbt::str(vals->min_value, "..", vals->max_value, " instead of ", mn, "..", mx));
    float m2, s2, lo, hi;
    calcStandardizationValuesForEntireSet(ts, m2, s2);
    calcNormalizationValuesForEntireSet(ts, lo, hi);
    pbt::check(near(m2, mean, mag) && near(s2, sd, mag), "set mean and deviation", pbt::str(m2, ", ", s2, " instead of ", mean, ", ", sd));
    pbt::check(lo == (float) mn && hi == (float) mx, "set range", pbt::str(lo, "..", hi, " instead of ", mn, "..", mx));
    // re-scaling: undoing the old scaling and applying the new one
    if (sd > 1e-3 && mx > mn) {
        bool wn = g.flip(), wst = g.flip(), rn = g.flip(), rs = g.flip();
        float oldmin = g.value(5), oldmax = oldmin + std::fabs(g.value(5)) + 0.5f, oldmean = g.value(5), oldsd = std::fabs(g.value(3)) + 0.5f;
        float newmin = g.value(5), newmax = newmin + std::fabs(g.value(5)) + 0.5f, newmean = g.value(5), newsd = std::fabs(g.value(3)) + 0.5f;
        auto t = ts[0];
        auto out = renormalizeAndStandardize(t, wn, wst, oldmin, oldmax, oldmean, oldsd, rn, rs, newmin, newmax, newmean, newsd);
        for (size_t i = 0; i < t->size(); i++) {
            double x = t->getValue(i), m = std::fabs(x);
            auto up = [&](double y) { m = std::max(m, std::fabs(y)); return y; };
            if (wn) x = up(x * ((double) oldmax - oldmin) + oldmin);
            if (wst) x = up(x * (double) oldsd + oldmean);
            if (rs) x = up((x - newmean) / newsd);
            if (rn) x = up((x - newmin) / ((double) newmax - newmin));
            m += std::fabs(oldmin) + std::fabs(newmin) + std::fabs(oldmean) + std::fabs(newmean);
            pbt::check(std::fabs(out->getValue(i) - x) <= 2e-5 * m + 1e-5, "re-scaling", pbt::str("element ", i, ": ", out->getValue(i), " instead of ", x, " (undo normal ", wn, " standard ", wst, ", apply normal ", rn, " standard ", rs, ")"));
        }
    }
}
