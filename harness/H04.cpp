// H04: tensor aggregates and statistics match their definitions
#include "util/tensor_utils.hpp"
#include "util/tensor_stats.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "types/tensor_views/standardize_tensor_view.hpp"
#include "types/tensor_views/unstandardize_tensor_view.hpp"
#include "types/tensor_views/normalize_tensor_view.hpp"
#include "types/tensor_views/denormalize_tensor_view.hpp"
#include "pbt.hpp"
#include "dense.hpp"

using namespace happyml;
using pbt::Gen;
using T = shared_ptr<BaseTensor>;

static Dense gen_values(Gen &g, size_t maxdim) {
    size_t r = g.size(1, maxdim), c = g.size(1, maxdim), ch = g.size(1, 3);
    float scale = g.pick({10.f, 1.f, 1000.f, 0.01f, 1e5f});
    Dense d = gen_dense(g, r, c, ch, scale);
    if (g.chance(1, 8)) { // one value everywhere
        float v = g.value(scale);
        for (size_t i = 0; i < d.v.size(); i++) d.m[i] = fabs(d.v[i] = v);
        g.label("constant");
    }
    if (g.chance(1, 6)) { // a common offset
        float o = g.value(scale * 20);
        for (size_t i = 0; i < d.v.size(); i++) d.m[i] = fabs(d.v[i] = (float) (d.v[i] + o));
        g.label("common offset");
    }
    if (d.v.size() > 1) g.nontrivial();
    if (d.ch > 1) g.label("several channels");
    return d;
}

static T make(Gen &g, const Dense &d) {
    if (g.flip()) return make_shared<FullTensor>(nested(d));
    Dense tr(d.c, d.r, d.ch);
    for (size_t k = 0; k < d.ch; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) tr.set(j, i, k, d.get(i, j, k));
    g.label("view");
    return make_shared<TransposeTensorView>(make_shared<FullTensor>(nested(tr)));
}

static void near(const string &key, double got, double want, double tol) {
    if (got != want && !(fabs(got - want) <= tol)) pbt::fail(key, pbt::str(key, " is ", got, " instead of ", want));
}

PBT_PROP(aggregates, 300000, 4000000, "tensor of more than one element") {
    Dense d = gen_values(g, 7);
    T t = make(g, d);
    g.note(d.text());
    double sum = 0, mag = 0, mx = -INFINITY, mn = INFINITY, ma = 0, sq = 0, lg = 0, prod = 1;
    bool pos = true;
    for (double x: d.v) {
        sum += x;
        prod *= x;
        mag += fabs(x);
        mx = max(mx, x);
        mn = min(mn, x);
        ma = max(ma, fabs(x));
        sq += x * x;
        if (x > 0) lg += log(x);
        else pos = false;
    }
    double n = (double) d.v.size(), mean = sum / n, var = 0;
    for (double x: d.v) var += (x - mean) * (x - mean);
    var /= n;
    double sd = sqrt(var);
    pbt::check(t->size() == d.v.size() && t->elementsPerChannel() == d.r * d.c, "size", "the size is wrong");
    pbt::check(t->getShape() == vector<size_t>{d.r, d.c, d.ch}, "shape", "the shape is wrong");
    near("sum", t->sum(), sum, 1e-9 * mag);
    if (!isnan(prod)) near("product", t->product(), prod, 1e-9 * fabs(prod));
    near("maximum", t->max(), mx, 0);
    near("minimum", t->min(), mn, 0);
    near("largest magnitude", t->max_abs(), ma, 0);
    auto range = t->range();
    near("range start", range.first, mn, 0);
    near("range end", range.second, mx, 0);
    near("mean", t->arithmeticMean(), mean, 1e-6 * (mag / n + fabs(mean)));
    near("norm", t->euclidean_norm(), sqrt(sq), 1e-6 * sqrt(sq));
    near("standard deviation", t->standardDeviation(), sd, 2e-6 * sd + 2e-6 * ma);
    near("variance", t->variance(), var, 1e-5 * var + 1e-11 * ma * ma + 1e-6 * ma * sd);
    float p = g.value(5);
    double vp = 0;
    for (double x: d.v) vp += (x - p) * (x - p);
    vp /= n;
    near("variance about a point", t->variance_point(p), vp, 1e-5 * vp + 1e-11 * (ma + fabs(p)) * (ma + fabs(p)));
    if (pos) {
        g.label("all positive");
        near("geometric mean", t->geometricMean(), exp(lg / n), 1e-5 * exp(lg / n));
    } else pbt::check(isnan(t->geometricMean()), "geometric mean", "the geometric mean of values that are not all positive is a number");
    pbt::check(!t->hasNaNOrInf(), "finite", "finite values reported as not finite");
}

PBT_PROP(not_finite, 20000, 200000, "tensor of more than one element") {
    Dense d = gen_values(g, 6);
    auto v = nested(d);
    size_t k = g.draw(d.ch), i = g.draw(d.r), j = g.draw(d.c);
    v[k][i][j] = g.pick({INFINITY, -INFINITY, NAN});
    g.note("not finite at row ", i, " column ", j, " channel ", k, " of ", d.r, "x", d.c, "x", d.ch);
    pbt::check(make_shared<FullTensor>(v)->hasNaNOrInf(), "missed", "a value that is not finite went unnoticed");
}

PBT_PROP(ranking, 300000, 4000000, "more than one column and at least one tie or several channels or rows") {
    Dense d = gen_values(g, 9);
    if (g.chance(1, 3)) for (size_t i = 0; i < d.v.size(); i++) d.v[i] = (double) g.range(-2, 1);
    T t = make(g, d);
    g.note(d.text());
    g.is_nontrivial = d.c > 1 && (d.r > 1 || d.ch > 1);
    size_t k = g.draw(d.ch), row = g.draw(d.r), col = g.draw(d.c);
    vector<double> x;
    for (size_t j = 0; j < d.c; j++) x.push_back(d.get(row, j, k));
    double mx = *max_element(x.begin(), x.end()), mn = *min_element(x.begin(), x.end());
    size_t a = t->maxIndexByRow(k, row), b = t->minIndex(k, row);
    pbt::check(a < d.c && x[a] == mx && a == (size_t) (max_element(x.begin(), x.end()) - x.begin()), "largest", pbt::str("index of the largest in row ", row, " channel ", k, " is ", a));
    pbt::check(b < d.c && x[b] == mn && b == (size_t) (min_element(x.begin(), x.end()) - x.begin()), "smallest", pbt::str("index of the smallest in row ", row, " channel ", k, " is ", b));
    vector<double> y;
    for (size_t i = 0; i < d.r; i++) y.push_back(d.get(i, col, k));
    size_t e = t->maxIndexByCol(k, col);
    pbt::check(e == (size_t) (max_element(y.begin(), y.end()) - y.begin()), "largest_in_column", pbt::str("index of the largest in column ", col, " channel ", k, " is ", e));
    vector<size_t> am, an;
    for (size_t j = 0; j < d.c; j++) {
        if (x[j] == mx) am.push_back(j);
        if (x[j] == mn) an.push_back(j);
    }
    if (am.size() > 1) { g.label("ties"); if (d.c > 1) g.nontrivial(); }
    pbt::check(t->maxIndices(k, row) == am, "all_largest", "the indices of all largest values are wrong");
    pbt::check(t->minIndices(k, row) == an, "all_smallest", "the indices of all smallest values are wrong");
    if (row == 0 && k == 0) pbt::check(maxIndex(t) == a, "maxIndex");
    size_t want = g.size(0, d.c + 3);
    auto top = t->topIndices(want, k, row);
    pbt::check(top.size() == min(want, d.c), "top_count", pbt::str("asked for the top ", want, " of ", d.c, ", got ", top.size()));
    vector<double> s = x;
    sort(s.rbegin(), s.rend());
    set<size_t> seen;
    for (size_t i = 0; i < top.size(); i++) {
        size_t ix = top[i].getIndex();
        pbt::check(ix < d.c && top[i].getValue() == (float) x[ix], "top_value", pbt::str("position ", i, " of the top list names column ", ix, " with a value that is not its own"));
        pbt::check(top[i].getValue() == (float) s[i], "top_order", pbt::str("position ", i, " of the top list holds ", top[i].getValue(), " instead of ", s[i]));
        pbt::check(seen.insert(ix).second, "top_twice", pbt::str("column ", ix, " is listed twice"));
    }
}

PBT_PROP(scaling, 200000, 3000000, "tensor of more than one element") {
    Dense d = gen_values(g, 7);
    T t = make(g, d);
    g.note(d.text());
    double sum = 0, mn = INFINITY, mx = -INFINITY, ma = 0;
    for (double x: d.v) {
        sum += x;
        mn = min(mn, x);
        mx = max(mx, x);
        ma = max(ma, fabs(x));
    }
    double n = (double) d.v.size(), mean = sum / n, var = 0;
    for (double x: d.v) var += (x - mean) * (x - mean);
    double sd = sqrt(var / n);
    auto st = make_shared<StandardizeTensorView>(t);
    double eps = 3e-7 * ma;
    bool flat = mn == mx;
    if (!flat && sd < ma * 1e-3) g.discard(); // differences drowned in the common offset
    near("recorded mean", st->get_mean(), mean, eps);
    if (flat) pbt::check(st->get_std_dev() > 0, "recorded deviation");
    else near("recorded deviation", st->get_std_dev(), sd, 2e-6 * sd + eps);
    double sdr = flat ? 1 : sd;
    float lsd = st->get_std_dev(), lmean = st->get_mean();
    for (size_t k = 0; k < d.ch; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) {
        double x = d.get(i, j, k);
        if (flat) pbt::check(isfinite(st->getValue(i, j, k)) && fabs(st->getValue(i, j, k)) <= 1e-3 * (1 + ma), "standardized_constant", pbt::str("a constant tensor is standardized to ", st->getValue(i, j, k)));
        else near("standardized", st->getValue(i, j, k), (x - mean) / sdr, 1e-5 * fabs(x - mean) / sdr + 2 * eps / sdr + 1e-6);
    }
    float m2 = g.value(20), s2 = fabs(g.value(5)) + 0.01f;
    float lo = g.value(20), hi = lo + fabs(g.value(50)) + 0.01f;
    if (g.chance(1, 12)) s2 = 0;
    if (g.chance(1, 12)) hi = lo;
    auto st2 = make_shared<StandardizeTensorView>(t, m2, s2);
    T b1 = make_shared<UnstandardizeTensorView>(st, lmean, lsd);
    T b2 = make_shared<UnstandardizeTensorView>(st2, m2, s2);
    auto nm = make_shared<NormalizeTensorView>(t);
    auto nm2 = make_shared<NormalizeTensorView>(t, lo, hi);
    T b3 = make_shared<DenormalizeTensorView>(nm, (float) mn, (float) mx);
    T b4 = make_shared<DenormalizeTensorView>(nm2, lo, hi);
    double range = flat ? 1 : mx - mn;
    double e2 = s2 == 0 ? 1 : s2, er = hi == lo ? 1 : (double) (float) (hi - lo); // nothing is divided by zero
    for (size_t k = 0; k < d.ch; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) {
        double x = d.get(i, j, k);
        near("unstandardized", b1->getValue(i, j, k), x, 1e-6 * (ma + fabs(lmean)) + 1e-30);
        near("standardized with given parameters", st2->getValue(i, j, k), (x - m2) / e2, 1e-6 * (fabs(x) + fabs(m2)) / e2);
        near("unstandardized with given parameters", b2->getValue(i, j, k), x, 1e-6 * (fabs(x) + fabs(m2)));
        float q = nm->getValue(i, j, k);
        pbt::check(q >= 0 && q <= 1, "normalized_outside", pbt::str("normalized to ", q, ", outside 0..1"));
        near("normalized", q, (x - mn) / range, 1e-5);
        near("denormalized", b3->getValue(i, j, k), x, 2e-6 * ma);
        near("normalized with given parameters", nm2->getValue(i, j, k), (x - lo) / er, 2e-6 * (fabs(x) + fabs(lo)) / er);
        near("denormalized with given parameters", b4->getValue(i, j, k), x, 2e-6 * (fabs(x) + fabs(lo)));
    }
}

PBT_PROP(encoding, 90000, 1500000, "tensor of ten or more elements that are not all equal") {
    Dense d = gen_values(g, 10);
    double mx = -INFINITY, mn = INFINITY;
    if (g.chance(1, 3)) { // a few far values
        size_t n = g.range(1, 3);
        for (size_t i = 0; i < n; i++) d.v[g.draw(d.v.size())] = (double) g.value(100000);
        g.label("outliers");
    }
    for (double x: d.v) {
        mn = min(mn, x);
        mx = max(mx, x);
    }
    T t = make(g, d);
    g.is_nontrivial = d.v.size() >= 10 && mn != mx;
    int fit = g.pick({FIT_BIAS_FOR_100, FIT_BIAS_FOR_80, FIT_BIAS_FOR_50});
    bool zero = g.flip();
    g.label(fit == FIT_BIAS_FOR_100 ? "fit everything" : fit == FIT_BIAS_FOR_80 ? "fit 80%" : "fit 50%");
    g.note("fit ", fit, zero ? " with zero " : " without zero ", d.text());
    if (max(fabs(mn), fabs(mx)) > 200000) g.discard();
    TensorStats s(*t, fit, zero);
    int bias = s.getRecommendedBias();
    double off = s.getRecommendedOffset();
    double cover = quarterToFloat(QUARTER_MAX, bias);
    // the statistics work on values grouped to 8-bit precision: a value may be up to one group away from its bound
    auto slack = [&](double x) { return 0.14 * fabs(x) + 1e-4 * max(fabs(mn), fabs(mx)); };
    size_t covered = 0, n = d.v.size();
    for (double x: d.v) if (fabs(x - off) <= cover + slack(x)) covered++;
    if (!zero && fit != FIT_BIAS_FOR_100) { // the offset is then the median: the width of the encoding has to be enough
        vector<double> v = d.v;
        sort(v.begin(), v.end());
        covered = 0;
        for (size_t i = 0, j = 0; i < n; i++) {
            while (j < n && v[j] - v[i] <= 2 * cover + slack(v[i]) + slack(v[j])) j++;
            covered = max(covered, j - i);
        }
    }
    g.note("bias ", bias, " offset ", off, " covers +-", cover);
    size_t need = fit == FIT_BIAS_FOR_100 ? n : fit == FIT_BIAS_FOR_80 ? 8 * (n / 10) : 2 * (n / 4);
    if (covered < need) pbt::fail("uncovered", pbt::str("only ", covered, " of ", n, " values lie within ", cover, " of the recommended offset ", off, " (bias ", bias, "), at least ", need, " should"));
    if (zero && fit == FIT_BIAS_FOR_100) pbt::check(fabs(off) <= cover + slack(off), "zero_uncovered", pbt::str("zero is not within ", cover, " of the recommended offset ", off));
    // and it is the finest of the offered encodings that does: one with twice the needed range is not chosen
    if (fit == FIT_BIAS_FOR_100 && zero) {
        double need_range = max(0., mx) - min(0., mn);
        for (int finer: {14, 8, 4, 1}) {
            if (finer <= bias) break;
            double r = 2.0 * quarterToFloat(QUARTER_MAX, finer);
            pbt::check(r < need_range * 1.15 + 1e-6, "too_coarse", pbt::str("bias ", bias, " recommended although bias ", finer, " has a range of ", r, " and ", need_range, " is needed"));
        }
    }
    // the simple estimate used when storing at 8 bits covers the range whenever it can be covered
    int lo = 4, hi = 15, b = estimateBias(lo, hi, (float) mn, (float) mx);
    pbt::check(b >= lo && b <= hi, "estimate_bounds");
    double reach = quarterToFloat(QUARTER_MAX, b), big = max(fabs(mn), fabs(mx));
    if (big < quarterToFloat(QUARTER_MAX, lo)) {
        pbt::check(big < reach, "estimate_uncovered", pbt::str("estimated bias ", b, " reaches ", reach, ", values reach ", big));
        if (b < hi) pbt::check(quarterToFloat(QUARTER_MAX, b + 1) <= big, "estimate_too_coarse", pbt::str("estimated bias ", b, " although ", b + 1, " reaches ", big));
    }
}


// tensors of a hundred million elements are counted in parallel: repeating a small tensor changes no recommendation
class Repeated : public BaseTensor {
public:
    Repeated(vector<float> v, size_t distinct, bool wide, size_t lines, size_t length) : v(move(v)), distinct(distinct), wide(wide), lines(lines), length(length) {}
    size_t rowCount() override { return wide ? lines : length; }
    size_t columnCount() override { return wide ? length : lines; }
    size_t channelCount() override { return 1; }
    // line l repeats the elements l*distinct .. of the small tensor
    float getValue(size_t row, size_t column, size_t) override {
        size_t l = wide ? row : column, i = wide ? column : row;
        return v[l * distinct + (i & (distinct - 1))];
    }
    void printMaterializationPlan() override {}
private:
    vector<float> v;
    size_t distinct;
    bool wide;
    size_t lines, length;
};

PBT_PROP(huge, 2, 24, "every case: a hundred million elements or more, different from line to line") {
    size_t distinct = (size_t) 1 << g.range(2, 5), lines = 10 * g.range(1, 2);
    bool wide = g.flip();
    int sign = (int) g.range(-1, 1);
    vector<float> v;
    for (size_t l = 0; l < lines; l++) {
        float scale = g.pick({0.01f, 0.5f, 3.f, 90.f});
        for (size_t i = 0; i < distinct; i++) {
            float x = (float) (1 + g.unit()) * scale;
            v.push_back(sign ? (float) sign * x : (x < 90.f ? 64.f + x : x) * (g.flip() ? 1.f : -1.f)); // (which of two signs stands for values near zero depends on the order)
        }
    }
    size_t length = ((100000000 / lines) / distinct + 1) * distinct;
    int fit = g.pick({FIT_BIAS_FOR_100, FIT_BIAS_FOR_80, FIT_BIAS_FOR_50});
    bool zero = g.flip();
    g.nontrivial();
    g.label(wide ? "wide" : "tall");
    g.note(lines, wide ? " rows of " : " columns of ", length, ", ", distinct, " distinct each, fit ", fit, zero ? " with zero: " : " without zero: ", pbt::join(v));
    // twenty repetitions, so that no share of the elements is rounded
    Repeated small(v, distinct, wide, lines, 20 * distinct), big(v, distinct, wide, lines, length);
    TensorStats a(small, fit, zero), b(big, fit, zero);
    pbt::check(a.getRecommendedBias() == b.getRecommendedBias() && a.getRecommendedOffset() == b.getRecommendedOffset(), "parallel",
               pbt::str("repeating the elements changes the recommendation from bias ", a.getRecommendedBias(), " offset ", a.getRecommendedOffset(), " to ", b.getRecommendedBias(), " and ", b.getRecommendedOffset()));
}
