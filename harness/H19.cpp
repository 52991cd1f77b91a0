// H19: training steps follow the true gradient
#include "ml/happyml_dsl.hpp"
#include "pbt.hpp"
#include "nets.hpp"

using namespace happyml;
using namespace nets;

static const string repo = "repo19";

static Spec trained_spec(Gen &g, bool clip) {
    Options o;
    o.training = true;
    o.clip = clip;
    o.max_vertices = g.chance(1, 6) ? 8 : 4;
    Spec s = gen_spec(g, o);
    for (auto &x: s.v) x.dropout = 0; // what dropout drops is tested below
    s.optimizer = OptimizerType::sgd;
    s.lr = g.pick({1.f, 0.25f, 0.05f, 0.005f});
    s.blr = g.pick({1.f, 0.5f, 0.05f, 0.001f});
    return s;
}

static Params jitter(Gen &g, const Params &p) {
    Params q = p;
    for (auto &x: q) for (auto &v: x.second.v) v *= 1 + 2e-6 * (g.unit() - 0.5);
    return q;
}

static shared_ptr<NeuralNetworkForTraining> network(const Spec &s, const Params &p) {
    filesystem::remove_all(repo);
    filesystem::create_directories(repo);
    auto n = build(s, "net", repo);
    n->saveKnowledge("mine", true);
    write_params(p, repo + "/net/mine");
    n->loadKnowledge("mine");
    return n;
}

static void apply(const Spec &s, Params &p, const Grads &g) {
    for (auto &[name, d]: g) {
        double rate = name.find("_bias") != string::npos ? s.blr : s.lr;
        auto &x = p.at(name);
        for (size_t i = 0; i < d.size(); i++) x.v[i] -= rate * d[i];
    }
}

// the reference's own gradient is checked against measured slopes
static void measure(Gen &g, const Spec &s, const Params &p, const vector<Record> &rs, const Grads &grads) {
    for (int k = 0; k < 6; k++) {
        auto it = grads.begin();
        advance(it, g.draw(grads.size()));
        size_t q = g.draw(it->second.size());
        Params a = p, b = p;
        double h = 1e-5;
        a.at(it->first).v[q] += h;
        b.at(it->first).v[q] -= h;
        double slope = (total_loss(s, a, rs) - total_loss(s, b, rs)) / (2 * h);
        double scale = 0;
        for (double v: it->second) scale = max(scale, fabs(v));
        if (fabs(slope - it->second[q]) > 1e-4 * (scale + fabs(slope)) + 1e-4) {
            double h2 = 1e-7; // a kink or a strong curvature nearby?
            a = p, b = p;
            a.at(it->first).v[q] += h2;
            b.at(it->first).v[q] -= h2;
            double s2 = (total_loss(s, a, rs) - total_loss(s, b, rs)) / (2 * h2);
            if (fabs(s2 - it->second[q]) <= 1e-3 * (scale + fabs(s2)) + 1e-3) continue;
            pbt::fail("harness:gradient", pbt::str("the reference gradient of ", it->first, "[", q, "] is ", it->second[q], ", the measured slope ", slope));
        }
    }
}

PBT_PROP(step, 20000, 500000, "the slope of the loss is not zero for at least two parameters and the network has a layer before the output") {
    bool clip = g.chance(1, 6);
    Spec s = trained_spec(g, clip);
    labels(g, s);
    g.label(lossTypeToString(s.loss));
    g.note(s.text());
    Params p = gen_params(g, s);
    if (p.empty()) g.discard();
    int count = g.size(1, 4), batch = g.flip() ? count : g.size(1, count);
    auto rs = gen_records(g, s, count);
    for (auto &r: rs) {
        string t = "record";
        for (auto &x: r.given) t += " " + x.text();
        t += " ->";
        for (auto &x: r.expected) t += " " + x.text();
        g.note(t);
        if (uncertain(s, p, r)) g.discard();
    }
    g.note("batch size ", batch);
    auto n = network(s, p);
    if (g.chance(1, 3)) n->predict(tensors(rs[0].given)); // a prediction before leaves no trace
    auto data = data_set(rs);
    n->setExitStrategy(make_shared<DefaultExitStrategy>(100, NINETY_DAYS_MS, 1, 0.f, 0.f, 1, 1e9f));
    try {
        n->train(data, batch, TrainingRetentionPolicy::last);
    } catch (const std::exception &e) { // only where the reference runs away as well
        double top = 0;
        Params q = p;
        for (size_t at = 0; at < rs.size(); at += batch) {
            apply(s, q, batch_gradient(s, q, vector<Record>(rs.begin() + at, rs.begin() + min(rs.size(), at + batch))));
            for (auto &x: q) for (double v: x.second.v) top = std::isfinite(v) ? max(top, fabs(v)) : INFINITY;
        }
        if (top > 100) g.discard();
        pbt::fail("step:exception", pbt::str("training was refused: ", e.what()));
    }
    Params got = current(s, n, repo);

    // the same steps in the reference, in the order in which the records were given out
    vector<Record> order;
    for (auto &x: data->log) {
        Record r;
        for (auto &t: x->getGiven()) r.given.push_back(read(t));
        for (auto &t: x->getExpected()) r.expected.push_back(read(t));
        order.push_back(r);
    }
    if (order.size() != rs.size()) g.discard(); // H22 is about that
    Params want = p, noisy = jitter(g, p);
    map<string, vector<double>> moved; // what rounding can make of the changes
    size_t slopes = 0;
    for (size_t at = 0; at < order.size(); at += batch) {
        vector<Record> b(order.begin() + at, order.begin() + min(order.size(), at + batch));
        if (at) for (auto &r: b) if (uncertain(s, want, r)) g.discard();
        Grads mags, d = batch_gradient(s, want, b, &mags);
        if (at == 0) {
            bool small = count == 1 || batch == count;
            if (!clip && small && g.chance(1, 4)) { measure(g, s, want, b, d); g.label("slope measured"); }
            for (auto &x: d) for (double v: x.second) slopes += fabs(v) > 1e-6;
        }
        for (auto &[name, v]: d) {
            auto &m = moved[name];
            m.resize(v.size());
            double rate = name.find("_bias") != string::npos ? s.blr : s.lr, top = 0;
            for (double x: v) top = max(top, fabs(x));
            for (size_t i = 0; i < v.size(); i++) m[i] += rate * (2e-5 * top + 4e-6 * mags.at(name)[i]);
        }
        apply(s, want, d);
        apply(s, noisy, batch_gradient(s, noisy, b));
    }
    for (auto &x: want) for (double v: x.second.v) if (!(fabs(v) < 1e4)) g.discard();
    g.is_nontrivial = slopes > 1 && s.v.size() > 1;
    if (batch < count) g.label(count % batch ? "partial batch" : "several batches");
    else if (count > 1) g.label("one batch");
    if (clip) g.label("clipping option");
    for (auto &[name, w]: want) for (size_t i = 0; i < w.n(); i++) {
        double a = got.at(name).v[i], b = w.v[i], m = moved.count(name) ? moved[name][i] : 0;
        double tol = m + 3e-7 * (fabs(b) + fabs(p.at(name).v[i])) + 30 * fabs(b - noisy.at(name).v[i]);
        if (!(fabs(a - b) <= tol)) {
            string kind = name.find("_bias") != string::npos ? "bias" : name.find("_full") != string::npos ? "full" : "convolution";
            pbt::fail("step:" + kind, pbt::str("after ", order.size(), " records in batches of ", batch, ", ", name, "[", i, "] went from ", p.at(name).v[i], " to ", a, " instead of ", b));
        }
    }
    // the step goes down: the slope of the loss in the direction of the change is negative
    if (!clip && batch == count) {
        Params dir = got;
        double len = 0;
        for (auto &[name, x]: dir) for (size_t i = 0; i < x.n(); i++) { x.v[i] -= p.at(name).v[i]; len = max(len, fabs(x.v[i])); }
        if (len > 1e-3) {
            double h = 1e-6 / len;
            Params a = p, b = p;
            for (auto &[name, x]: dir) for (size_t i = 0; i < x.n(); i++) { a.at(name).v[i] += h * x.v[i]; b.at(name).v[i] -= h * x.v[i]; }
            double slope = (total_loss(s, a, rs) - total_loss(s, b, rs)) / (2 * h);
            pbt::check(slope <= 1e-4 * (1 + len), "step:uphill", pbt::str("the change of the parameters goes up the loss: slope ", slope));
        }
    }
}

// dropout: in training every value is either dropped or scaled by 1/(1-rate), the error is treated alike, and the
// share of dropped values is the rate
PBT_PROP(dropped, 8000, 200000, "at least two values and a rate other than zero and one") {
    size_t r = g.size(1, 4), c = g.size(1, 12), ch = g.size(1, 3);
    int tenths = g.range(0, 10);
    float rate = (float) tenths / 10.f;
    DropoutLayer layer("d", {r, c, ch}, rate);
    int rounds = g.size(1, 6);
    g.note("shape ", r, "x", c, "x", ch, " rate ", rate, " rounds ", rounds);
    g.is_nontrivial = r * c * ch > 1 && tenths > 0 && tenths < 10;
    double scale = tenths < 10 ? 1 / (1 - (double) rate) : 0;
    for (int k = 0; k < rounds; k++) {
        Dense x = gen_dense(g, r, c, ch), e = gen_dense(g, r, c, ch);
        for (auto &v: x.v) if (v == 0) v = 1;
        T in = make_shared<FullTensor>(nested(x)), err = make_shared<FullTensor>(nested(e));
        if (g.chance(1, 3)) {
            T out = layer.forward({in}, false);
            expect_equal(out, x, "dropped:prediction", "prediction");
        }
        T out = layer.forward({in}, true), back = layer.backward(err)[0];
        size_t dropped = 0;
        for (size_t q = 0; q < ch; q++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) {
            double v = x.get(i, j, q), y = out->getValue(i, j, q), d = back->getValue(i, j, q), w = e.get(i, j, q);
            bool gone = y == 0;
            dropped += gone;
            if (!gone) pbt::check(fabs(y - v * scale) <= 1e-5 * fabs(v * scale), "dropped:scale", pbt::str("a kept value ", v, " became ", y, " at rate ", rate));
            double we = gone ? 0 : w * scale;
            pbt::check(fabs(d - we) <= 1e-5 * fabs(we) + 1e-7, "dropped:error", pbt::str("the error ", w, " of a ", gone ? "dropped" : "kept", " value became ", d, " at rate ", rate));
        }
        if (tenths == 0) pbt::check(dropped == 0, "dropped:none", "values were dropped at rate 0");
        if (tenths == 10) pbt::check(dropped == r * c * ch, "dropped:all", "values were kept at rate 1");
    }
}

PBT_PROP(share, 400, 4000, "a rate other than zero and one") {
    int tenths = g.range(0, 10);
    float rate = (float) tenths / 10.f;
    size_t n = 4000;
    DropoutLayer layer("d", {1, n, 1}, rate);
    int skip = g.range(0, 5);
    Dense x(1, n, 1);
    for (auto &v: x.v) v = 1;
    T in = make_shared<FullTensor>(nested(x));
    for (int k = 0; k < skip; k++) layer.forward({in}, true);
    T out = layer.forward({in}, true);
    double kept = 0;
    for (size_t i = 0; i < n; i++) kept += out->getValue(i) != 0;
    g.note("rate ", rate, " after ", skip, " rounds kept ", kept, " of ", n);
    g.is_nontrivial = tenths > 0 && tenths < 10;
    // six standard deviations
    double dev = sqrt((double) n * rate * (1 - rate));
    pbt::check(fabs(kept - (1 - rate) * (double) n) <= 6 * dev + 1, "share", pbt::str(kept, " of ", n, " values were kept at rate ", rate));
}
