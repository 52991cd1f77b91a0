// H22: training honours its stopping, batching and retention rules
#include "ml/happyml_dsl.hpp"
#include "pbt.hpp"
#include "nets.hpp"

using namespace happyml;
using namespace nets;

static const string repo = "repo22";
typedef map<string, string> Files;

static void reset() {
    filesystem::remove_all(repo);
    filesystem::create_directories(repo);
}

struct Quiet {
    stringstream o, e;
    streambuf *co, *ce;
    Quiet() : co(cout.rdbuf(o.rdbuf())), ce(cerr.rdbuf(e.rdbuf())) {}
    ~Quiet() { cout.rdbuf(co); cerr.rdbuf(ce); }
};

// what the network's parameters are, bit by bit
static Params look(const Spec &s, const shared_ptr<NeuralNetworkForTraining> &n) { return current(s, n, repo); }
static bool same(const Params &a, const Params &b) {
    for (auto &[k, x]: a) for (size_t i = 0; i < x.v.size(); i++) if (!(x.v[i] == b.at(k).v[i] || (x.v[i] != x.v[i] && b.at(k).v[i] != b.at(k).v[i]))) return false;
    return true;
}

struct Seen { Val truth, prediction; float loss; };

// hands everything on to the real loss, and remembers it
class WatchedLoss : public LossFunction {
public:
    shared_ptr<LossFunction> real;
    vector<Seen> seen;
    function<void()> before;
    T compute_error(T &truth, T &prediction) override {
        before();
        Seen x;
        x.truth = nets::read(truth);
        x.prediction = nets::read(prediction);
        x.loss = 0;
        seen.push_back(x);
        return real->compute_error(truth, prediction);
    }
    float compute_loss(T &error) override { return seen.back().loss = real->compute_loss(error); }
    T compute_loss_derivative(T &e, T &t, T &p) override { return real->compute_loss_derivative(e, t, p); }
};

struct Asked { size_t epoch; float loss; int64_t elapsed; bool done; Params at; };

class WatchedExit : public ExitStrategy {
public:
    shared_ptr<ExitStrategy> real;
    size_t stop = 0; // when there is no real one
    vector<Asked> asked;
    function<Params()> now;
    bool isDone(size_t epoch, float loss, int64_t elapsed) override {
        Asked a{epoch, loss, elapsed, false, now()};
        a.done = real ? real->isDone(epoch, loss, elapsed) : epoch >= stop;
        asked.push_back(a);
        return a.done || asked.size() > 60;
    }
    string whyDone(size_t epoch, float loss, int64_t elapsed) override { return real ? real->whyDone(epoch, loss, elapsed) : "enough"; }
};

static shared_ptr<LossFunction> real_loss(LossType t) {
    switch (t) {
        case mae: return make_shared<MeanAbsoluteErrorLossFunction>();
        case smae: return make_shared<SmoothMeanAbsoluteErrorLossFunction>();
        case categoricalCrossEntropy: return make_shared<CategoricalCrossEntropyLossFunction>();
        case binaryCrossEntropy: return make_shared<BinaryCrossEntropyLossFunction>();
        default: return make_shared<MeanSquaredErrorLossFunction>();
    }
}

static Spec make_spec(Gen &g, int max_vertices = 3) {
    Options opt;
    opt.training = true;
    opt.kinks = false;
    opt.norms = false;
    opt.max_vertices = max_vertices;
    Spec s = gen_spec(g, opt);
    for (auto &x: s.v) x.dropout = 0;
    s.optimizer = OptimizerType::sgd;
    s.lr = g.pick({0.001f, 0.02f, 0.1f, 0.5f});
    s.blr = g.pick({0.001f, 0.02f, 0.1f});
    return s;
}

static shared_ptr<NeuralNetworkForTraining> make_network(Gen &g, const Spec &s) {
    auto n = build(s, "net", repo);
    Params p = gen_params(g, s);
    n->saveKnowledge("mine", true);
    write_params(p, repo + "/net/mine");
    n->loadKnowledge("mine");
    n->removeKnowledge("mine");
    return n;
}

static bool same_shapes(const Val &a, const Val &b) { return a.r == b.r && a.c == b.c && a.ch == b.ch; }

// one whole training, watched from inside
PBT_PROP(training, 7000, 200000, "several epochs of several batches, the last of them smaller or the best epoch not the last") {
    reset();
    Spec s = make_spec(g);
    if (param_shapes(s).empty()) g.discard();
    labels(g, s);
    g.note(s.text());
    pbt_env::clock_step_ns = g.pick({0ul, 1000ul, 1000000ul, 20000000ul});
    auto n = make_network(g, s);
    int count = g.size(1, 9), batch = g.size(1, count), tests = g.chance(1, 2) ? g.size(1, 4) : 0;
    auto rs = gen_records(g, s, count, 1.f);
    auto ts = gen_records(g, s, max(tests, 1), 1.f);
    ts.resize((size_t) tests);
    auto data = data_set(rs);
    auto test_data = data_set(ts);
    auto policy = g.flip() ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last;
    auto loss = make_shared<WatchedLoss>();
    loss->real = real_loss(s.loss);
    auto watch = make_shared<WatchedExit>();
    string rule;
    if (g.chance(1, 2)) { watch->stop = (size_t) g.size(1, 6); rule = pbt::str("stop after ", watch->stop); }
    else {
        size_t patience = g.size(1, 4), most = g.size(1, 7), least = g.size(0, 4);
        int64_t time = g.pick({(int64_t) NINETY_DAYS_MS, (int64_t) 1, (int64_t) 50, (int64_t) 400});
        float zero = g.pick({0.f, 0.05f, 0.5f}), improve = g.pick({0.f, 1e-5f, 0.05f}), degrade = g.pick({0.05f, 0.5f, 1e9f});
        watch->real = make_shared<DefaultExitStrategy>(patience, time, most, zero, improve, least, degrade);
        rule = pbt::str("patience ", patience, " time ", time, " epochs ", least, "..", most, " zero ", zero, " improvement ", improve, " degradation ", degrade);
    }
    bool silent = g.chance(3, 4);
    g.note(count, " records in batches of ", batch, ", ", tests, " test records, ", policy == best ? "best" : "last", " parameters are kept, ", rule, silent ? "" : ", not silent");
    for (auto &r: rs) { string t = "record"; for (auto &x: r.given) t += " " + x.text(); t += " ->"; for (auto &x: r.expected) t += " " + x.text(); g.note(t); }
    n->setSilentMode(silent);
    n->setLossFunction(loss);
    n->setExitStrategy(watch);
    vector<Params> before; // for every loss that was computed
    bool quick = false;
    loss->before = [&] { if (!quick) before.push_back(look(s, n)); };
    watch->now = [&] { return look(s, n); };
    Params start = look(s, n);
    shared_ptr<TrainingResult> result;
    auto began = pbt_env::clock_ns.load();
    {
        Quiet q;
        try { result = n->train(data, test_data, batch, policy, g.flip()); } catch (const exception &e) {
            string what = e.what();
            // values that are no numbers any more end the training
            for (auto &x: loss->seen) if (!(fabs(x.loss) < 1e6)) g.discard();
            for (auto &p: before.empty() ? start : before.back()) for (double v: p.second.v) if (!(fabs(v) < 1e4)) g.discard();
            pbt::fail("training:refused", "the training failed: " + what);
        }
    }
    auto took = (int64_t) ((pbt_env::clock_ns.load() - began) / 1000000);
    quick = true;
    for (auto &x: loss->seen) if (!(fabs(x.loss) < 1e6)) g.discard();
    Params end = look(s, n);
    size_t outs = s.outputs().size(), epochs = watch->asked.size(), per_epoch = (count + tests) * outs;
    // stopping
    for (size_t e = 0; e < epochs; e++) {
        auto &a = watch->asked[e];
        pbt::check(a.epoch == e + 1, "training:epochs", pbt::str("the exit rule is told that epoch ", e + 1, " is ", a.epoch));
        pbt::check(a.done == (e + 1 == epochs), "training:stop", a.done ? "the training went on after the exit rule said that it is done" : "the training stopped before the exit rule said so");
        pbt::check(a.elapsed >= (e ? watch->asked[e - 1].elapsed : 0) && a.elapsed <= took, "training:elapsed", pbt::str("after epoch ", e + 1, " the exit rule is told that ", a.elapsed, " ms passed, after ", e ? watch->asked[e - 1].elapsed : 0, " ms the epoch before; the whole training took ", took));
    }
    if (pbt_env::clock_step_ns >= 1000000ul) { // the training is most of the time that passed
        auto &a = watch->asked.back();
        pbt::check(a.elapsed * 2 + 100 >= took * (int64_t) epochs / (int64_t) (epochs + 1) || epochs < 2, "training:elapsed", pbt::str("after ", epochs, " epochs in ", took, " ms the exit rule is told that ", a.elapsed, " ms passed"));
    }
    // every record once per epoch
    pbt::check(data->log.size() == (size_t) count * epochs, "training:records", pbt::str(data->log.size(), " records were used in ", epochs, " epochs of ", count));
    pbt::check(loss->seen.size() == per_epoch * epochs, "training:records", pbt::str(loss->seen.size(), " predictions were rated instead of ", per_epoch * epochs));
    for (size_t e = 0; e < epochs; e++) {
        set<TrainingPair *> used;
        for (int i = 0; i < count; i++) used.insert(data->log[e * count + i].get());
        pbt::check(used.size() == (size_t) count, "training:records", pbt::str("epoch ", e + 1, " used ", used.size(), " of ", count, " records"));
    }
    vector<double> train_loss, test_loss;
    size_t moved = 0;
    for (size_t e = 0; e < epochs; e++) {
        double sum = 0, batches = 0, batch_sum = 0, in_batch = 0;
        for (int i = 0; i < count; i++) {
            size_t at = e * per_epoch + i * outs;
            auto &pair = data->log[e * count + i];
            double one = 0;
            for (size_t o = 0; o < outs; o++) {
                Val truth = nets::read(pair->getExpected()[o]);
                pbt::check(same_shapes(truth, loss->seen[at + o].truth) && truth.v == loss->seen[at + o].truth.v, "training:truth", "a prediction was compared with another record's truth");
                one += loss->seen[at + o].loss;
                pbt::check(same(before[at + o], before[at]), "training:batch", "the parameters changed between two outputs of a record");
            }
            one /= (double) outs;
            sum += one;
            batch_sum += one;
            in_batch++;
            // the parameters change after every batch, and only then
            const Params &next = i + 1 < count ? before[at + outs] : tests ? before[at + outs] : watch->asked[e].at;
            bool full_batch = (i + 1) % batch == 0 || i + 1 == count;
            if (!full_batch) {
                pbt::check(same(next, before[at]), "training:batch", pbt::str("the parameters changed after record ", i + 1, " of ", count, " in batches of ", batch));
                continue;
            }
            batches += batch_sum / in_batch;
            vector<Record> b;
            bool unsure = false;
            const Params &old = before[at];
            for (int k = i + 1 - (int) in_batch; k <= i; k++) {
                auto &x = data->log[e * count + k];
                Record r;
                for (auto &t: x->getGiven()) r.given.push_back(nets::read(t));
                for (auto &t: x->getExpected()) r.expected.push_back(nets::read(t));
                unsure |= uncertain(s, old, r);
                b.push_back(r);
            }
            batch_sum = in_batch = 0;
            if (unsure) { g.label("uncertain"); continue; }
            Grads mags, d = batch_gradient(s, old, b, &mags);
            for (auto &[name, v]: d) {
                double rate = name.find("_bias") != string::npos ? s.blr : s.lr;
                for (size_t q = 0; q < v.size(); q++) {
                    double want = old.at(name).v[q] - rate * v[q], got = next.at(name).v[q];
                    double tol = rate * (1e-3 * fabs(v[q]) + 1e-4 * mags.at(name)[q]) + 1e-6 * (1 + fabs(want));
                    pbt::check(fabs(want - got) <= tol, "training:update", pbt::str("batch of ", b.size(), " until record ", i + 1, " of epoch ", e + 1, ": ", name, "[", q, "] goes from ", old.at(name).v[q], " to ", got, " instead of ", want));
                    if (fabs(rate * v[q]) > 10 * tol) moved++;
                }
            }
        }
        double tested = 0;
        for (int i = 0; i < tests; i++) for (size_t o = 0; o < outs; o++) {
            size_t at = e * per_epoch + (count + i) * outs + o;
            Val truth = nets::read(test_data->log[e * tests + i]->getExpected()[o]);
            pbt::check(truth.v == loss->seen[at].truth.v, "training:test", "a test prediction was compared with another record's truth");
            pbt::check(same(before[at], watch->asked[e].at), "training:test", "testing changed the parameters");
            tested += loss->seen[at].loss;
        }
        size_t all_batches = (size_t) ((count + batch - 1) / batch);
        double by_batch = batches / (double) all_batches, by_record = sum / count;
        double want = tests ? tested / tests / (double) outs : by_batch;
        auto close = [&](double a, double b) { return fabs(a - b) <= 1e-4 * (fabs(b) + 1e-3) + 1e-6 * by_record; };
        float told = watch->asked[e].loss;
        pbt::check(close(told, want) || (!tests && close(told, by_record)), "training:loss", pbt::str("the loss of epoch ", e + 1, " is reported as ", told, " instead of ", want, " (", by_record, " by record)"));
        train_loss.push_back(by_batch);
        test_loss.push_back(told);
    }
    // retention
    size_t best_epoch = 0;
    for (size_t e = 1; e < epochs; e++) if (watch->asked[e].loss < watch->asked[best_epoch].loss) best_epoch = e;
    if (policy == best) pbt::check(same(end, watch->asked[best_epoch].at), "training:best", pbt::str("the network does not end with the parameters of the best epoch ", best_epoch + 1, " of ", epochs, same(end, watch->asked.back().at) ? ", but with those of the last" : ""));
    else pbt::check(same(end, watch->asked.back().at), "training:last", "the network does not end with the parameters of the last epoch");
    size_t left = 0;
    if (filesystem::exists(repo + "/net")) for (auto &x: filesystem::directory_iterator(repo + "/net")) { (void) x; left++; }
    pbt::check(left == 0, "training:checkpoint", "a checkpoint is left behind");
    // what is reported
    pbt::check(result->final_test_loss == watch->asked[best_epoch].loss, "training:final", pbt::str("the final loss is ", result->final_test_loss, " instead of ", watch->asked[best_epoch].loss));
    pbt::check(result->initial_test_loss == watch->asked[0].loss, "training:initial", pbt::str("the first loss is ", result->initial_test_loss, " instead of ", watch->asked[0].loss));
    pbt::check(result->epochs == best_epoch + 1, "training:count", pbt::str("the reported loss is that of epoch ", best_epoch + 1, " of ", epochs, ", but ", result->epochs, " are reported"));
    pbt::check(result->batch_size == (size_t) batch && result->total_records == (size_t) count && result->learning_rate == s.lr, "training:facts", "batch size, record count or learning rate are not those of the training");
    if (!tests) {
        float lowest = watch->asked[best_epoch].loss;
        pbt::check(result->initial_train_loss == watch->asked[0].loss && result->best_train_loss == lowest, "training:train_loss", pbt::str("the training loss is reported to go from ", result->initial_train_loss, " to ", result->best_train_loss, " instead of ", watch->asked[0].loss, " to ", lowest));
        pbt::check(result->trained == (epochs > 1 && lowest < watch->asked[0].loss), "training:trained", pbt::str("trained is ", result->trained));
    }
    g.is_nontrivial = epochs > 1 && count > batch && (count % batch || best_epoch + 1 != epochs) && moved > 0;
    if (count % batch) g.label("smaller last batch");
    if (best_epoch + 1 != epochs) g.label(policy == best ? "best is not last, kept" : "best is not last, not kept");
    if (tests) g.label("test data");
    g.label(watch->real ? "default exit rule" : "scripted exit rule");
}

// the exit rule against its description, over loss histories
PBT_PROP(exit_rule, 60000, 2000000, "at least three epochs and the rule ended the training") {
    size_t patience = g.size(0, 6), most = g.size(0, 14), least = g.size(0, 8);
    int64_t time = g.pick({(int64_t) NINETY_DAYS_MS, (int64_t) g.draw(3000), (int64_t) 0});
    float zero = g.pick({0.f, 0.001f, 0.3f}), improve = g.pick({0.f, 1e-5f, 0.1f}), degrade = g.pick({0.f, 0.05f, 0.5f, 1e9f});
    bool many = g.chance(1, 5);
    if (many) most = 1000000;
    DefaultExitStrategy rule(patience, time, most, zero, improve, least, degrade);
    g.note("patience ", patience, " time ", time, " epochs ", least, "..", most, " zero ", zero, " improvement ", improve, " degradation ", degrade);
    double loss = g.pick({1., 0.5, 10., 0.01});
    int64_t elapsed = 0;
    vector<float> losses;
    float lowest = INFINITY;
    size_t lowest_at = 0;
    for (size_t e = 1; e < 40; e++) {
        switch (g.draw(6)) {
            case 0: break;
            case 1: case 2: loss *= 0.5 + g.unit() * 0.5; break;
            case 3: loss *= 1 + g.unit() * 0.2; break;
            case 4: loss *= 1 + g.unit(); break;
            default: loss = max(1e-6, loss - improve);
        }
        elapsed += (int64_t) g.draw(300);
        float l = (float) loss;
        losses.push_back(l);
        if (l + improve <= lowest) { lowest = l; lowest_at = e; }
        double worse = ((double) l - lowest) / lowest;
        bool close = fabs(worse - degrade) < 1e-6 * (1 + fabs(degrade)) && worse != degrade;
        bool want = e >= least && (e >= most || worse >= degrade || elapsed >= time || e - lowest_at >= patience || l <= zero);
        g.note("epoch ", e, " loss ", l, " after ", elapsed, " ms");
        bool got = rule.isDone(e, l, elapsed);
        if (close && got != want) g.discard();
        pbt::check(got == want, got ? "exit_rule:early" : "exit_rule:late", pbt::str("the rule ", got ? "ends" : "does not end", " the training at epoch ", e, "; the lowest loss was ", lowest, " at epoch ", lowest_at));
        string why = rule.whyDone(e, l, elapsed);
        pbt::check((why == "Unknown" || why.find("Should not be done") == 0) == !got, "exit_rule:reason", pbt::str("done is ", got, ", but the reason is ", why));
        if (got) { g.is_nontrivial = e > 2; g.label("ended"); break; }
    }
}

// requests that can't be met change nothing
PBT_PROP(refused, 6000, 150000, "the network was trained or used before the refused request") {
    reset();
    Spec s = make_spec(g);
    if (param_shapes(s).empty()) g.discard();
    g.note(s.text());
    auto n = make_network(g, s);
    int count = g.size(1, 4);
    auto rs = gen_records(g, s, count, 1.f);
    vector<T> in = tensors(gen_inputs(g, s, 1.f));
    auto exit_rule = [] { return make_shared<DefaultExitStrategy>(100, NINETY_DAYS_MS, 1, 0.f, 0.f, 1, 1e9f); };
    bool before = g.flip();
    auto ok = data_set(rs);
    n->setExitStrategy(exit_rule());
    if (before) try { n->train(ok, g.size(1, count), TrainingRetentionPolicy::last); } catch (const exception &) { g.discard(); }
    g.is_nontrivial = before;
    Params was = look(s, n);
    for (auto &[name, x]: was) for (double v: x.v) if (!(fabs(v) < 1e4)) g.discard();
    vector<Val> answer;
    for (auto &t: n->predict(in)) answer.push_back(nets::read(t));
    auto bad = rs, tests = rs;
    int batch = 1;
    shared_ptr<OrderedDataSet> d, t = data_set({});
    int what = (int) g.draw(9);
    auto grow = [&](Val &v) { Val w(v.r, v.c + 1, v.ch); v = w; };
    switch (what) {
        case 0: batch = count + g.size(1, 5); g.note("batch of ", batch, " for ", count, " records"); break;
        case 1: batch = -g.size(0, 5); g.note("batch of ", batch); break;
        case 2: for (auto &r: bad) grow(r.given[0]); g.note("one column too many in the input"); break;
        case 3: for (auto &r: bad) r.given.push_back(Val(1, 1, 1)); g.note("one input too many"); break;
        case 4: for (auto &r: bad) { if (s.outputs().size() > 1 && g.flip()) r.expected.pop_back(); else if (g.flip()) r.expected.push_back(Val(1, 1, 1)); else r.expected.clear(); } g.note("another number of outputs"); 
            for (auto &r: bad) r.expected = bad[0].expected; if (bad[0].expected.empty()) g.discard(); break;
        case 5: for (auto &r: tests) grow(r.given[0]); t = data_set(tests); g.note("test data with wider input"); break;
        case 6: for (auto &r: tests) grow(r.expected[0]); t = data_set(tests); g.note("test data with wider output"); break;
        case 7: for (auto &r: tests) r.given.push_back(Val(1, 1, 1)); t = data_set(tests); g.note("test data with one input too many"); break;
        default: for (auto &r: tests) r.expected.push_back(Val(1, 1, 1)); t = data_set(tests); g.note("test data with one output too many");
    }
    if (what == 2) { // a network may take what it can't tell from its own shape
        try { n->predict(tensors(bad[0].given)); g.discard(); } catch (const exception &) {}
    }
    d = data_set(bad);
    static const char *const names[] = {"large batch", "no batch", "wide input", "many inputs", "outputs", "wide test input", "wide test output", "many test inputs", "many test outputs"};
    g.label(names[what]);
    n->setExitStrategy(exit_rule());
    bool refused = false;
    auto policy = g.flip() ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last;
    { Quiet q; try { n->train(d, t, batch, policy); } catch (const exception &) { refused = true; } }
    pbt::check(refused, string("refused:accepted:") + names[what], "the request was not refused");
    pbt::check(same(was, look(s, n)), "refused:changed", "a refused request changed the parameters");
    vector<Val> again;
    for (auto &o: n->predict(in)) again.push_back(nets::read(o));
    for (size_t o = 0; o < answer.size(); o++) pbt::check(answer[o].v == again[o].v, "refused:prediction", "a refused request changed the prediction");
    size_t left = 0;
    if (filesystem::exists(repo + "/net")) for (auto &x: filesystem::directory_iterator(repo + "/net")) { (void) x; left++; }
    pbt::check(left == 0, "refused:checkpoint", "a refused request leaves a checkpoint behind");
    // and nothing is left of it in the next training
    auto twin = build(s, "twin", repo);
    filesystem::create_directories(repo + "/twin");
    twin->saveKnowledge("mine", true);
    write_params(was, repo + "/twin/mine");
    twin->loadKnowledge("mine");
    if (before) return; // a network that was trained shuffles in another order
    int size = g.size(1, count);
    auto train = [&](const shared_ptr<NeuralNetworkForTraining> &k) { k->setExitStrategy(exit_rule()); try { k->train(data_set(rs), size, TrainingRetentionPolicy::last); return true; } catch (const exception &) { return false; } };
    unsigned long dice = pbt_env::rd_state;
    bool a = train(n);
    pbt_env::rd_state = dice;
    bool b = train(twin);
    pbt::check(a == b, "refused:afterwards", "after a refused request the network can't be trained like another");
    if (a) {
        Params x = look(s, n), y = current(s, twin, repo);
        pbt::check(same(x, y), "refused:afterwards", "after a refused request the network learns something else");
    }
}

// accuracies and losses of a given network over a data set
PBT_PROP(measures, 8000, 200000, "several records of several values, some right and some wrong") {
    reset();
    Spec s = make_spec(g);
    g.note(s.text());
    bool has = !param_shapes(s).empty();
    auto n = has ? make_network(g, s) : build(s, "net", repo);
    int count = g.size(1, 6);
    auto rs = gen_records(g, s, count, 1.f);
    auto outs = s.outputs();
    // make the truth right now and then
    vector<bool> right;
    double sum = 0;
    size_t values = 0;
    bool close = false;
    auto lf = real_loss(s.loss);
    for (auto &r: rs) {
        auto p = n->predict(tensors(r.given));
        bool all = true;
        double one = 0;
        for (size_t o = 0; o < outs.size(); o++) {
            Val v = nets::read(p[o]);
            for (size_t i = 0; i < v.n(); i++) {
                if (!(fabs(v.v[i]) < 1e6)) g.discard();
                double target = round((float) v.v[i]);
                r.expected[o].v[i] = g.chance(7, 8) ? (g.flip() ? target : (float) (target + (g.unit() - 0.5) * 0.6)) : target + (double) g.range(-2, 2);
                if (fabs(fabs(v.v[i] - floor(v.v[i])) - 0.5) < 1e-4) close = true;
                all &= round((float) r.expected[o].v[i]) == target;
                values++;
            }
            one += loss_reported(s.loss, v, r.expected[o]);
        }
        right.push_back(all);
        sum += one / (double) outs.size();
    }
    if (close) g.discard();
    auto d = data_set(rs);
    int limit = g.chance(1, 3) ? g.size(1, count + 2) : -1;
    g.note(count, " records, limit ", limit);
    float got = limit == -1 && g.flip() ? n->compute_binary_accuracy(d) : n->compute_binary_accuracy(d, limit);
    double hits = 0, used = 0;
    for (int i = 0; i < count && (limit < 0 || i < limit); i++) { hits += right[i]; used++; }
    pbt::check(fabs(got - hits / used) < 1e-5, "measures:accuracy", pbt::str("the accuracy is ", got, " instead of ", hits, " of ", used));
    g.is_nontrivial = count > 1 && values > (size_t) count && hits > 0 && hits < used;
    if (s.loss != mse && s.loss != mae && s.loss != smae) return; // truths are not fit for the others
    float loss = n->test(d);
    double want = sum / count;
    pbt::check(fabs(loss - want) <= 1e-4 * (fabs(want) + 1e-3), "measures:loss", pbt::str("the test loss is ", loss, " instead of ", want));
}
