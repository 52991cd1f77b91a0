// H20: optimizers follow their published update rules
#include "ml/happyml_dsl.hpp"
#include "pbt.hpp"
#include "nets.hpp"

using namespace happyml;
using namespace nets;

static const string repo = "repo20";

// one tensor's state in the reference
struct State { vector<double> p, m, v, moved, g2, slack; }; // slack: the stabilising constant may be added more than once

struct RefOptimizer {
    OptimizerType type;
    double lr, blr;
    double eps = 1e-8;
    bool adam() const { return type == OptimizerType::adam || type == OptimizerType::adam_with_decaying_momentum; }
    bool momentum() const { return type == OptimizerType::sgdm || type == OptimizerType::sgdm_with_decaying_momentum; }
    void update(State &s, const vector<double> &g, bool bias) const {
        double rate = bias ? blr : lr;
        size_t n = s.p.size();
        s.m.resize(n); s.v.resize(n); s.moved.resize(n); s.g2.resize(n); s.slack.resize(n);
        for (size_t i = 0; i < n; i++) {
            double d;
            if (adam()) {
                s.m[i] = 0.9 * s.m[i] + 0.1 * g[i];
                s.v[i] = 0.999 * s.v[i] + 0.001 * g[i] * g[i];
                d = rate * s.m[i] / (sqrt(s.v[i]) + eps);
                s.slack[i] += fabs(d - rate * s.m[i] / (sqrt(s.v[i]) + 3e-8));
            } else if (momentum()) d = s.m[i] = 0.9 * s.m[i] + rate * g[i];
            else d = rate * g[i];
            s.p[i] -= d;
            s.g2[i] = 0.9 * s.g2[i] + 0.1 * fabs(g[i]); // magnitude of what the moment is made of
            s.moved[i] += fabs(d) + (adam() ? 1e-3 * rate * s.g2[i] / (sqrt(s.v[i]) + 1e-8) : momentum() ? 1e-3 * rate * s.g2[i] * 10 : 0);
        }
    }
};

static const vector<OptimizerType> kinds{OptimizerType::sgd, OptimizerType::sgdm, OptimizerType::adam, OptimizerType::sgdm_with_decaying_momentum, OptimizerType::adam_with_decaying_momentum};

static double mean(const vector<double> &v) { double s = 0; for (double x: v) s += x; return s / (double) v.size(); }

struct Param { bool bias; Shape shape; int id; State ref; T value; bool used = false; vector<double> start; };
struct Op { int what; int param; vector<double> g; }; // what: 0 update, 1 epoch, 2 look

static vector<double> gen_gradient(Gen &g, size_t n, int mode) {
    vector<double> r(n);
    for (auto &v: r) switch (mode) {
        case 0: v = (float) ((g.unit() - 0.5) * 2); break;
        case 1: v = (float) (g.unit() + 0.1); break;              // one direction
        case 2: v = (float) ((g.unit() - 0.5) * 200); break;      // large
        case 3: v = (float) ((g.unit() - 0.5) * 1e-3); break;     // small
        default: v = g.chance(1, 3) ? (float) (g.unit() - 0.5) : 0; // sparse
    }
    return r;
}

PBT_PROP(recurrence, 60000, 1500000, "at least two updates of one tensor and two different tensors updated") {
    OptimizerType type = g.pick(kinds);
    bool decay = type == OptimizerType::sgdm_with_decaying_momentum || type == OptimizerType::adam_with_decaying_momentum;
    float lr = g.pick({0.001f, 0.005f, 0.1f, 1.f}), blr = g.pick({0.001f, 0.02f, 0.5f});
    g.label(optimizerTypeToString(type));
    auto o = createOptimizer(type, lr, blr), again = createOptimizer(type, lr, blr);
    pbt::check(o->getLearningRate() == lr && o->getBiasLearningRate() == blr, "recurrence:rates", "a new optimizer does not have the learning rates it was given");
    int count = g.size(1, 5);
    vector<Param> ps;
    for (int i = 0; i < count; i++) {
        Param p;
        p.bias = g.flip();
        p.shape = {(size_t) g.size(1, 3), (size_t) g.size(1, 4), (size_t) (g.chance(1, 4) ? g.size(1, 3) : 1)};
        p.id = p.bias ? o->registerForBiasChanges() : o->registerForWeightChanges();
        int id = p.bias ? again->registerForBiasChanges() : again->registerForWeightChanges();
        pbt::check(id == p.id, "recurrence:fresh", "a fresh optimizer registers the same tensors under other ids");
        Val v(p.shape);
        for (auto &x: v.v) x = (float) ((g.unit() - 0.5) * 2);
        p.ref.p = p.start = v.v;
        p.value = tensor(v);
        ps.push_back(p);
        g.note(p.bias ? "bias" : "weights", " ", i, ": ", v.text());
    }
    g.note(optimizerTypeToString(type), " rates ", lr, " ", blr);
    bool started = g.flip();
    if (started) { o->update_time_step(); g.note("first epoch"); }
    int steps = g.size(2, g.chance(1, 8) ? 40 : 12);
    vector<Op> ops;
    map<int, int> updates;
    vector<int> mode((size_t) count);
    for (auto &m: mode) m = (int) g.draw(5);
    for (int k = 0; k < steps; k++) {
        if (g.chance(1, 5)) { ops.push_back({1, 0, {}}); g.note("next epoch"); continue; }
        int i = (int) g.draw(count);
        auto gr = gen_gradient(g, ps[i].ref.p.size(), mode[i]);
        ops.push_back({0, i, gr});
        updates[i]++;
        Val v(ps[i].shape);
        v.v = gr;
        g.note("update ", i, " gradient ", v.text());
    }
    bool twice = false;
    for (auto &u: updates) twice |= u.second > 1;
    g.is_nontrivial = twice && updates.size() > 1;
    RefOptimizer ref{type, lr, blr};
    auto step = [&](const shared_ptr<BaseOptimizer> &opt, const Param &p, const T &value, const vector<double> &gr) {
        Val v(p.shape);
        v.v = gr;
        T gt = tensor(v);
        T r = p.bias ? opt->calculateBiasChange(p.id, value, gt) : opt->calculateWeightsChange(p.id, value, gt);
        return materializeTensor(r);
    };
    vector<vector<vector<double>>> trace((size_t) count);
    int time = started, last_weights = 1, last_bias = 1;
    if (find_if(ops.begin(), ops.end(), [](const Op &x) { return x.what == 1; }) != ops.end()) g.label("several epochs");
    auto decayed = [&](bool bias) { // documented: recomputed once per epoch from the averages of the moments
        double m = 0, v = 0, k = 0, scale = 0, size = 0;
        for (auto &p: ps) if (p.bias == bias && p.used) {
            m += mean(p.ref.m);
            v += mean(p.ref.v);
            for (double x: p.ref.m) size = max(size, fabs(x));
            for (double x: p.ref.g2) scale += fabs(x) / (double) p.ref.g2.size();
            k++;
        }
        m /= k;
        v /= k;
        double c1 = min(0.1, max(1e-5, 1 / (1 - pow(0.9, time)))), c2 = 1 / (1 - pow(0.999, time));
        bool adam = ref.adam();
        double demon = m * c1 / (sqrt((adam ? v : m * m) * c2) + 1e-8);
        double want = min(0.1, max(1e-5, demon));
        double got = bias ? o->getBiasLearningRate() : o->getLearningRate();
        bool unclear = !adam && fabs(m) < 1e-5 * scale * (bias ? ref.blr : ref.lr) + 1e-5 * size + 1e-10; // the mean of the moments is mostly rounding
        if (!unclear) pbt::check(fabs(got - want) <= 2e-3 * want + 2e-7, "recurrence:decay", pbt::str("the ", bias ? "bias " : "", "learning rate of epoch ", time, " became ", got, " instead of ", want));
        else pbt::check(got >= 1e-5f && got <= 0.1f, "recurrence:decay", pbt::str("the learning rate became ", got));
        (bias ? ref.blr : ref.lr) = got;
    };
    for (auto &op: ops) {
        if (op.what == 1) { o->update_time_step(); time++; continue; }
        Param &p = ps[op.param];
        bool due = decay && time > (p.bias ? last_bias : last_weights);
        T next = step(o, p, p.value, op.g);
        if (!p.used) { p.used = true; p.ref.m.resize(p.ref.p.size()); p.ref.v.resize(p.ref.p.size()); p.ref.g2.resize(p.ref.p.size()); }
        if (due) (p.bias ? last_bias : last_weights) = time;
        if (due && ref.adam()) decayed(p.bias);         // before the update
        ref.update(p.ref, op.g, p.bias);
        if (due && ref.momentum()) decayed(p.bias);     // after it
        if (!decay) pbt::check(o->getLearningRate() == lr && o->getBiasLearningRate() == blr, "recurrence:rates", "the learning rates changed");
        Val got = read(next);
        pbt::check(got.r == p.shape[0] && got.c == p.shape[1] && got.ch == p.shape[2], "recurrence:shape", "an updated tensor has another shape");
        for (size_t i = 0; i < got.n(); i++) {
            double tol = 3e-4 * p.ref.moved[i] + p.ref.slack[i] + 2e-7 * (double) (1 + updates[op.param]) * (1 + fabs(p.ref.p[i]));
            pbt::check(fabs(got.v[i] - p.ref.p[i]) <= tol, string("recurrence:") + (p.bias ? "bias" : "weights"),
                       pbt::str("element ", i, " of tensor ", op.param, " became ", got.v[i], " instead of ", p.ref.p[i]));
        }
        p.value = next;
        trace[op.param].push_back(got.v);
    }
    // a fresh optimizer repeats it exactly, and, where no rate is shared, each tensor alone has the same history
    for (int only = -1; only < count; only++) {
        if (only >= 0 && (decay || (count == 1))) continue;
        auto fresh = createOptimizer(type, lr, blr);
        for (auto &p: ps) p.bias ? fresh->registerForBiasChanges() : fresh->registerForWeightChanges();
        if (started) fresh->update_time_step();
        vector<T> v((size_t) count);
        vector<size_t> at((size_t) count, 0);
        for (int i = 0; i < count; i++) { Val x(ps[i].shape); x.v = ps[i].start; v[i] = tensor(x); }
        for (auto &op: ops) {
            if (op.what == 1) { fresh->update_time_step(); continue; }
            if (only >= 0 && op.param != only) continue;
            v[op.param] = step(fresh, ps[op.param], v[op.param], op.g);
            pbt::check(read(v[op.param]).v == trace[op.param][at[op.param]++], only < 0 ? "recurrence:fresh" : "recurrence:isolated",
                       only < 0 ? "a fresh optimizer gave other updates" : pbt::str("the updates of tensor ", op.param, " depend on those of others"));
        }
    }
}

// in a network every layer's and filter's parameters follow the rule on their own
PBT_PROP(network, 8000, 200000, "several updates of at least two parameter tensors") {
    Options opt;
    opt.training = true;
    opt.kinks = false;
    opt.norms = false;
    opt.max_vertices = 4;
    Spec s = gen_spec(g, opt);
    for (auto &x: s.v) x.dropout = 0;
    s.loss = mse;
    for (auto &x: s.v) if (x.output) x.act = g.pick({linear, tanhDefault, sigmoid});
    s.optimizer = g.pick({OptimizerType::sgd, OptimizerType::sgdm, OptimizerType::adam});
    // a saturated slope is mostly rounding, and Adam would make a whole step of it
    if (s.optimizer == OptimizerType::adam) for (auto &x: s.v) x.act = linear;
    s.lr = g.pick({0.1f, 0.02f, 0.005f});
    s.blr = g.pick({0.1f, 0.03f, 0.001f});
    g.label(optimizerTypeToString(s.optimizer));
    g.note(s.text());
    labels(g, s);
    Params p = gen_params(g, s);
    if (p.empty()) g.discard();
    filesystem::remove_all(repo);
    filesystem::create_directories(repo);
    auto n = build(s, "net", repo);
    n->saveKnowledge("mine", true);
    write_params(p, repo + "/net/mine");
    n->loadKnowledge("mine");
    int count = g.size(1, 3), batch = g.size(1, count), epochs = g.size(1, 3);
    auto rs = gen_records(g, s, count);
    g.note(count, " records in batches of ", batch, ", ", epochs, " epochs");
    auto data = data_set(rs);
    n->setExitStrategy(make_shared<DefaultExitStrategy>(100, NINETY_DAYS_MS, epochs, 0.f, 0.f, 1, 1e9f));
    try { n->train(data, batch, TrainingRetentionPolicy::last); } catch (const std::exception &) { g.discard(); }
    if (data->log.size() != rs.size() * epochs) g.discard(); // H22 is about that
    Params got = current(s, n, repo);
    RefOptimizer ref{s.optimizer, s.lr, s.blr};
    map<string, State> st;
    for (auto &[name, x]: p) st[name].p = x.v;
    Params now = p;
    size_t updates = 0;
    // the same with what rounding may do to the gradients, to see how far it can spread
    vector<Params> shaky(3, p);
    vector<map<string, State>> shaky_st(3, st);
    for (int e = 0; e < epochs; e++) for (size_t at = 0; at < rs.size(); at += batch) {
        vector<Record> b;
        for (size_t i = at; i < min(rs.size(), at + batch); i++) {
            auto &x = data->log[e * rs.size() + i];
            Record r;
            for (auto &t: x->getGiven()) r.given.push_back(read(t));
            for (auto &t: x->getExpected()) r.expected.push_back(read(t));
            b.push_back(r);
            if (uncertain(s, now, r)) g.discard();
        }
        Grads mags, d = batch_gradient(s, now, b, &mags);
        updates++;
        for (auto &[name, v]: d) {
            bool bias = name.find("_bias") != string::npos;
            // a moment that is mostly rounding has no known direction
            if (ref.adam()) for (size_t i = 0; i < v.size(); i++) if (mags.at(name)[i] > 0 && fabs(v[i]) < max(1e-4, 1e-3 * mags.at(name)[i])) g.discard();
            ref.update(st[name], v, bias);
            now.at(name).v = st[name].p;
        }
        for (size_t k = 0; k < shaky.size(); k++) {
            Grads m2, d2 = batch_gradient(s, shaky[k], b, &m2);
            for (auto &[name, v]: d2) {
                for (size_t i = 0; i < v.size(); i++) v[i] += 1e-5 * (g.unit() - 0.5) * (fabs(v[i]) + m2.at(name)[i]);
                RefOptimizer other = ref;
                other.eps = 1e-8 * (double) (k + 1);
                other.update(shaky_st[k][name], v, name.find("_bias") != string::npos);
                shaky[k].at(name).v = shaky_st[k][name].p;
            }
        }
    }
    for (auto &x: now) for (double v: x.second.v) if (!(fabs(v) < 100)) g.discard();
    g.is_nontrivial = updates > 1 && p.size() > 1;
    for (auto &[name, w]: now) for (size_t i = 0; i < w.n(); i++) {
        double m = st[name].moved.empty() ? 0 : st[name].moved[i];
        // a float moment that nearly cancels turns rounding into a step of another length: `recurrence` is exact about those
        double tol = (double) updates * (ref.adam() && updates > 1 ? 4e-2 : 2e-3) * m + (st[name].slack.empty() ? 0 : 2 * st[name].slack[i]) + 1e-6 * (1 + fabs(w.v[i])) * (double) updates;
        for (auto &q: shaky) tol += 5 * fabs(q.at(name).v[i] - w.v[i]);
        pbt::check(fabs(got.at(name).v[i] - w.v[i]) <= tol, string("network:") + (name.find("_bias") != string::npos ? "bias" : name.find("_full") != string::npos ? "full" : "convolution"),
                   pbt::str("after ", updates, " updates ", name, "[", i, "] is ", got.at(name).v[i], " instead of ", w.v[i], " from ", p.at(name).v[i]));
    }
}
