// H18: a network's prediction equals the reference computation
#include "ml/happyml_dsl.hpp"
#include "pbt.hpp"
#include "nets.hpp"

using namespace happyml;
using namespace nets;

static const string repo = "repo18";

static void reset() {
    filesystem::remove_all(repo);
    filesystem::create_directories(repo);
}

static bool same(const vector<T> &a, const vector<T> &b) {
    if (a.size() != b.size()) return false;
    for (size_t o = 0; o < a.size(); o++) {
        if (a[o]->size() != b[o]->size()) return false;
        for (size_t i = 0; i < a[o]->size(); i++) if (a[o]->getValue(i) != b[o]->getValue(i)) return false;
    }
    return true;
}

// a network with its own parameters, and what they are
static shared_ptr<NeuralNetworkForTraining> make_network(Gen &g, const Spec &s, Params &p) {
    reset();
    auto n = build(s, "net", repo);
    if (g.chance(1, 4)) {
        g.label("initial parameters");
        p = current(s, n, repo);
    } else {
        p = gen_params(g, s);
        n->saveKnowledge("mine", true);
        write_params(p, repo + "/net/mine");
        n->loadKnowledge("mine");
    }
    return n;
}

PBT_PROP(prediction, 24000, 600000, "the network has at least two layers, one of them with weights, and some output value was comparable") {
    Options o;
    o.bits = true;
    o.dead_ends = true;
    o.max_vertices = g.chance(1, 6) ? 10 : 5;
    Spec s = gen_spec(g, o);
    labels(g, s);
    g.note(s.text());
    Params p;
    auto n = make_network(g, s, p);
    // several different inputs, in a history with repetitions, refused requests and changed temporaries
    int kinds = g.size(1, 3);
    vector<vector<Val>> inputs;
    vector<vector<Val>> want;
    for (int i = 0; i < kinds; i++) {
        inputs.push_back(gen_inputs(g, s, g.chance(1, 5) ? 30.f : 3.f));
        want.push_back(outputs(s, forward(s, p, inputs.back())));
        string t = "input";
        for (auto &x: inputs.back()) t += " " + x.text();
        g.note(t);
    }
    vector<vector<T>> first((size_t) kinds);
    vector<bool> known((size_t) kinds, false);
    size_t useful = 0;
    int steps = g.size(1, 6);
    bool repeated = false, refused = false;
    for (int k = 0; k < steps; k++) {
        int which = (int) g.draw(kinds);
        if (g.chance(1, 5)) {
            refused = true;
            vector<T> bad = tensors(inputs[which]);
            int how = (int) g.draw(3);
            bool must = true;
            if (how == 0) bad.push_back(bad[0]);
            else if (how == 1) bad.pop_back();
            else { // a value a full layer refuses: another one of several inputs may already have been passed on
                must = false;
                Val x = inputs[which].back();
                x.v[g.draw(x.n())] = INFINITY;
                bad.back() = tensor(x);
            }
            g.note("refused request ", how);
            bool threw = false;
            try { n->predict(bad); } catch (const std::exception &) { threw = true; }
            pbt::check(threw || !must, "prediction:count", pbt::str("a prediction with ", bad.size(), " inputs was accepted by a network of ", inputs[which].size()));
            continue;
        }
        g.note("predict input ", which);
        auto t = tensors(inputs[which]);
        vector<T> got = n->predict(t);
        useful += compare(got, want[which], "prediction", "prediction");
        if (known[which]) {
            repeated = true;
            pbt::check(same(got, first[which]), "prediction:repeat", "the same input gave another prediction the second time");
        }
        known[which] = true;
        first[which] = got;
    }
    if (repeated) g.label("repeated");
    if (refused) g.label("refused request");
    if (inputs[0].size() == 1) {
        auto t = tensors(inputs[0]);
        T one = n->predictOne(t[0]);
        compare({one}, {want[0][0]}, "prediction", "predictOne");
        if (one->size() == 1) pbt::check(n->predictScalar(t[0]) == one->getValue(0), "prediction:scalar", "predictScalar differs from predictOne");
    }
    size_t weights = param_shapes(s).size();
    g.is_nontrivial = s.v.size() > 1 && weights > 0 && useful > 0;
    // predicting left the parameters alone
    Params after = current(s, n, repo, "after");
    for (auto &[name, x]: p) pbt::check(after.at(name).v == x.v, "prediction:parameters", "predicting changed " + name);
}

// the parameters a network has after training are the ones its predictions use
PBT_PROP(after_training, 4000, 100000, "training changed the parameters and some output value was comparable") {
    Options o;
    o.training = true;
    o.bits = true;
    o.clip = true;
    o.max_vertices = 4;
    Spec s = gen_spec(g, o);
    s.optimizer = g.pick({OptimizerType::sgd, OptimizerType::sgdm, OptimizerType::adam, OptimizerType::adam_with_decaying_momentum, OptimizerType::sgdm_with_decaying_momentum});
    s.lr = 0.01f;
    s.blr = 0.01f;
    labels(g, s);
    g.note(s.text());
    reset();
    auto n = build(s, "net", repo);
    auto probe = gen_inputs(g, s);
    auto t = tensors(probe);
    if (g.flip()) n->predict(t);
    auto before = current(s, n, repo);
    auto data = make_shared<InMemoryTrainingDataSet>();
    int records = g.size(1, 4);
    for (int i = 0; i < records; i++) {
        auto in = gen_inputs(g, s, 1.f);
        auto out = outputs(s, forward(s, before, in));
        for (auto &x: out) for (auto &v: x.v) v = (float) g.unit();
        data->addTrainingData(tensors(in), tensors(out));
    }
    int epochs = g.size(1, 2);
    n->setExitStrategy(make_shared<DefaultExitStrategy>(100, NINETY_DAYS_MS, epochs, 0.f, 0.f, 1, 1e9f));
    n->train(data, g.size(1, records), g.flip() ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last);
    auto p = current(s, n, repo);
    bool changed = false, finite = true;
    for (auto &[name, x]: p) {
        changed |= x.v != before.at(name).v;
        for (double v: x.v) finite &= std::isfinite(v) && fabs(v) < 1e6;
    }
    if (!finite) g.discard();
    size_t useful = 0;
    for (int k = 0; k < 2; k++) useful += compare(n->predict(t), outputs(s, forward(s, p, probe)), "trained", "prediction after training");
    g.is_nontrivial = changed && useful > 0;
}

// requests the builder refuses leave no trace, and every network built from a description is one of its own
PBT_PROP(described, 5000, 120000, "two or more networks from one description, or a description with refused requests, and some output value was comparable") {
    Options o;
    o.dead_ends = true;
    o.max_vertices = 5;
    Spec s = gen_spec(g, o);
    labels(g, s);
    g.note(s.text());
    reset();
    bool any = false;
    auto refuse = [&](const char *what, const function<void()> &request) {
        any = true;
        g.note("  refused: ", what);
        g.label(pbt::str("refused ", what));
        bool threw = false;
        try { request(); } catch (const std::exception &) { threw = true; }
        pbt::check(threw, pbt::str("described:accepted:", what), pbt::str("the builder accepts ", what));
    };
    bool try_refused = g.flip();
    auto dsl = describe(s, "net", repo, [&](size_t i, const shared_ptr<HappymlDSL::NNVertex> &m) {
        const V &x = s.v[i];
        if (try_refused && g.flip()) {
            bool plain = x.type == full || x.type == convolution2dValid;
            int what = (int) g.draw(7);
            if (what == 0 && !plain) refuse("regularization", [&] { m->setUseL2Regularization(true); });
            if (what == 1 && !plain) refuse("normalization", [&] { m->setUseNormalization(true); });
            if (what == 2 && !plain) refuse("bias", [&] { m->setUseBias(true); });
            if (what == 3 && !plain) refuse("materializing", [&] { m->setMaterialized(true); });
            if (what == 4) refuse("a kernel for a full layer", [&] { m->addOutput(vector<size_t>{1, 1, 1}, 1, full, linear); });
            if (what == 5) {
                size_t k = 1 + g.draw(std::min(x.out[0], x.out[1]));
                Shape wrong{x.out[0] - k + 1, x.out[1] - k + 1, 1 + g.draw(2)};
                wrong[g.draw(2)]++;
                refuse("another output shape", [&] { m->addOutput(wrong, k, convolution2dValid, linear); });
            }
            if (what == 6) refuse("an output without weights", [&] { m->addLayer(x.out, x.out, g.pick({flatten, normalize, LayerType::dropout}), true, linear); });
        }
        m->setVertexUniqueId((uint32_t) i + 1); // refused requests may have used up ids
    });
    int count = g.size(1, 3);
    vector<shared_ptr<NeuralNetworkForTraining>> ns;
    vector<Params> ps;
    vector<bool> given((size_t) count, false);
    auto start = [&](int i) {
        ns.push_back(dsl->build());
        ns.back()->setSilentMode(true);
        ps.push_back(Params());
    };
    size_t useful = 0;
    for (int i = 0; i < count; i++) start(i);
    int steps = g.size(1, 6);
    for (int k = 0; k < steps; k++) {
        int i = (int) g.draw(count);
        g.note("network ", i);
        if (!given[i]) { // before, it has the parameters it was built with
            if (g.chance(1, 4)) ps[i] = current(s, ns[i], repo, pbt::str("look", i));
            else {
                ps[i] = gen_params(g, s);
                ns[i]->saveKnowledge(pbt::str("mine", i), true);
                write_params(ps[i], pbt::str(repo, "/net/mine", i));
                ns[i]->loadKnowledge(pbt::str("mine", i));
            }
            given[i] = true;
        }
        auto in = gen_inputs(g, s);
        useful += compare(ns[i]->predict(tensors(in)), outputs(s, forward(s, ps[i], in)), "described", pbt::str("network ", i));
    }
    for (int i = 0; i < count; i++) if (given[i]) {
        Params now = current(s, ns[i], repo, pbt::str("end", i));
        for (auto &[name, x]: ps[i]) pbt::check(now.at(name).v == x.v, "described:parameters", pbt::str("network ", i, " lost its own ", name));
    }
    size_t values = 0, layers = 0;
    for (auto &[name, x]: param_shapes(s)) { values += x[0] * x[1] * x[2]; (void) layers; }
    for (int i = 0; i < count; i++) pbt::check(ns[i]->get_total_parameters() == values, "described:count", pbt::str("network ", i, " has ", ns[i]->get_total_parameters(), " parameters instead of ", values));
    g.is_nontrivial = useful > 0 && (count > 1 || any);
}
