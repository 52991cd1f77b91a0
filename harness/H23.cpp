// H23: the hyperparameter search stays in its space and keeps the best
#include "ml/hyperband/hyperband.hpp"
#include "util/dataset_utils.hpp"
#include <tbb/global_control.h>
#include "pbt.hpp"
#include "nets.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;

typedef shared_ptr<HyperparameterSpace> Where;
typedef shared_ptr<Hyperparameters> Config;

template<typename V, typename X> static bool holds(const V &v, X x) { return find(v.begin(), v.end(), x) != v.end(); }

static void in_space(const Where &s, const Config &c, int bits) {
    pbt::check(holds(s->learning_rate_space, c->learning_rate), "learning_rate", pbt::str(c->learning_rate));
    pbt::check(holds(s->bias_learning_rate_space, c->bias_learning_rate), "bias_learning_rate", pbt::str(c->bias_learning_rate));
    pbt::check(holds(s->complexity_depth_space, c->complexity_depth), "depth", pbt::str(c->complexity_depth));
    pbt::check(holds(s->complexity_width_space, c->complexity_width), "width", pbt::str(c->complexity_width));
    pbt::check(holds(s->dropout_rate_space, c->dropout_rate), "dropout", pbt::str(c->dropout_rate));
    pbt::check(holds(s->l2_regularization_strength_space, c->l2_regularization_strength), "l2", pbt::str(c->l2_regularization_strength));
    pbt::check(holds(s->batch_size_space, c->batch_size), "batch_size", pbt::str(c->batch_size));
    pbt::check(holds(s->use_normalization_layers_space, c->use_normalization_layers), "normalization");
    pbt::check(holds(s->use_hidden_bias_space, c->use_hidden_bias), "hidden_bias");
    pbt::check(holds(s->use_bias_space, c->use_bias), "bias");
    pbt::check(holds(s->use_normal_clipping_space, c->use_normal_clipping), "clipping");
    pbt::check(c->bits == bits, "bits", pbt::str(c->bits, " instead of ", bits));
}

typedef tuple<float, float, int, float, float, float, int, bool, bool, bool, bool, int> Key;
static Key key_of(const Config &c) {
    return {c->learning_rate, c->bias_learning_rate, c->complexity_depth, c->complexity_width, c->dropout_rate, c->l2_regularization_strength, c->batch_size,
            c->use_normalization_layers, c->use_hidden_bias, c->use_bias, c->use_normal_clipping, c->bits};
}

template<typename X> static vector<X> some(Gen &g, vector<X> all, size_t lo, size_t hi) {
    g.shuffle(all);
    all.resize(min(all.size(), g.size(lo, hi)));
    return all;
}

static vector<bool> some_flags(Gen &g, size_t hi) {
    if (hi > 1 && g.flip()) return g.flip() ? vector<bool>{false, true} : vector<bool>{true, false};
    return {g.flip()};
}

static Where single(Gen &g) {
    auto s = make_shared<HyperparameterSpace>(1000);
    s->learning_rate_space = some<float>(g, s->learning_rate_space, 1, 1);
    s->bias_learning_rate_space = some<float>(g, s->bias_learning_rate_space, 1, 1);
    s->complexity_depth_space = some<int>(g, s->complexity_depth_space, 1, 1);
    s->complexity_width_space = some<float>(g, s->complexity_width_space, 1, 1);
    s->dropout_rate_space = some<float>(g, s->dropout_rate_space, 1, 1);
    s->l2_regularization_strength_space = some<float>(g, s->l2_regularization_strength_space, 1, 1);
    s->batch_size_space = some<int>(g, s->batch_size_space, 1, 1);
    s->use_normalization_layers_space = some_flags(g, 1);
    s->use_hidden_bias_space = some_flags(g, 1);
    s->use_bias_space = some_flags(g, 1);
    s->use_normal_clipping_space = some_flags(g, 1);
    return s;
}

PBT_PROP(proposals, 20000, 300000, "a space of four or more configurations") {
    // the declared batch sizes fit the data set
    int most = g.chance(1, 3) ? g.pick({0, 1, 2, 31, 32, 33, 63, 64, 127, 128, 129, 511, 512, 1023, 1024, 1025}) : (int) g.size(0, 2000);
    auto declared = make_shared<HyperparameterSpace>(most);
    pbt::check(!declared->batch_size_space.empty(), "no_batch_size");
    for (int b: declared->batch_size_space) pbt::check(b >= 1 && b <= max(1, most), "batch_size_too_large", pbt::str("a batch size of ", b, " for a data set of ", most));
    for (int b: {1, 32, 64, 128, 256, 512, 1024}) if (b <= most) pbt::check(holds(declared->batch_size_space, b), "batch_size_missing", pbt::str(b, " for a data set of ", most));
    Where s;
    // a few settings with a few options whose weights are alike: there, "no duplicates" doesn't depend on luck
    bool small = g.flip();
    if (g.chance(1, 10)) s = declared;
    else s = single(g);
    if (s != declared) {
        HyperparameterSpace all(1000);
        if (small) {
            int left = 2;
            auto want = [&] { return left > 0 && g.chance(1, 3) && left-- > 0; };
            if (want()) s->learning_rate_space = some<float>(g, all.learning_rate_space, 2, 4);
            if (want()) s->bias_learning_rate_space = some<float>(g, all.bias_learning_rate_space, 2, 4);
            if (want()) s->complexity_depth_space = some<int>(g, all.complexity_depth_space, 2, 3);
            if (want()) s->complexity_width_space = some<float>(g, all.complexity_width_space, 2, 3);
            if (want()) s->dropout_rate_space = some<float>(g, all.dropout_rate_space, 2, 2);
            if (want()) s->l2_regularization_strength_space = some<float>(g, all.l2_regularization_strength_space, 2, 2);
            if (want()) s->batch_size_space = some<int>(g, all.batch_size_space, 2, 2);
            if (want()) s->use_bias_space = {true, false};
            if (want()) s->use_normal_clipping_space = {false, true};
            if (want()) s->use_hidden_bias_space = {false, true};
            if (want()) s->use_normalization_layers_space = {true, false};
        } else {
            s->learning_rate_space = some<float>(g, all.learning_rate_space, 1, 11);
            s->bias_learning_rate_space = some<float>(g, all.bias_learning_rate_space, 1, 11);
            s->complexity_depth_space = some<int>(g, all.complexity_depth_space, 1, 8);
            s->complexity_width_space = some<float>(g, all.complexity_width_space, 1, 14);
            s->dropout_rate_space = some<float>(g, all.dropout_rate_space, 1, 7);
            s->l2_regularization_strength_space = some<float>(g, all.l2_regularization_strength_space, 1, 14);
            s->batch_size_space = some<int>(g, declared->batch_size_space, 1, 7);
            s->use_normalization_layers_space = some_flags(g, 2);
            s->use_hidden_bias_space = some_flags(g, 2);
            s->use_bias_space = some_flags(g, 2);
            s->use_normal_clipping_space = some_flags(g, 2);
        }
    }
    size_t total = s->learning_rate_space.size() * s->bias_learning_rate_space.size() * s->complexity_depth_space.size() * s->complexity_width_space.size() *
                   s->dropout_rate_space.size() * s->l2_regularization_strength_space.size() * s->batch_size_space.size() * s->use_normalization_layers_space.size() *
                   s->use_hidden_bias_space.size() * s->use_bias_space.size() * s->use_normal_clipping_space.size();
    pbt::check(s->getNumConfigurations() == total, "count", pbt::str(s->getNumConfigurations(), " configurations instead of ", total));
    g.is_nontrivial = total >= 4;
    g.note("space of ", total, small ? " alike" : "");
    g.label(small && s != declared ? "small" : "any");
    HyperBandRandomSearch search(s);
    int bits = g.pick({8, 16, 32});
    bool sure = small && s != declared;
    size_t n = sure ? total + 2 : g.size(1, 12);
    set<Key> seen;
    for (size_t i = 0; i < n; i++) {
        auto c = search.generateRandomConfiguration(bits);
        pbt::check(c != nullptr, "none");
        in_space(s, c, bits);
        bool fresh = seen.insert(key_of(c)).second;
        if (sure && i < total) pbt::check(fresh, "twice", pbt::str("proposal ", i + 1, " of ", total, " possible ones repeats an earlier one: ", c->as_string()));
    }
    // every option can be chosen
    if (sure) pbt::check(seen.size() == total, "unreachable", pbt::str(seen.size(), " of ", total));
}

PBT_PROP(allocation, 40000, 400000, "three or more rounds") {
    int most = g.chance(1, 3) ? (int) g.range(1, 100000) : (int) g.size(1, 1000), factor = (int) g.range(2, 7);
    ResourceAllocator a(most, factor);
    g.note("maximum ", most, " factor ", factor);
    int64_t p = 1;
    int rounds = 0;
    for (int i = 0; p <= (int64_t) most * factor && p < (1LL << 30); i++, p *= factor, rounds++) {
        int got = a.allocateResources(i);
        pbt::check(got == most / p, "allocation", pbt::str("round ", i, " of at most ", most, " with factor ", factor, " gets ", got, " instead of ", most / p));
    }
    g.is_nontrivial = rounds >= 3;
}

// ---- tiny data sets
struct Data {
    LossType loss;
    vector<size_t> givens;      // values of each input; an image has 5x5x1
    bool image = false;
    vector<size_t> expected;    // values of each output
    size_t records, tests;
    string path, test_path;
};

static shared_ptr<BinaryColumnMetadata> column(char purpose, size_t r, size_t c, size_t ch, const string &name) {
    auto m = make_shared<BinaryColumnMetadata>();
    m->purpose = purpose;
    m->source_column_count = purpose == 'L' ? 1 : r * c * ch;
    m->rows = r;
    m->columns = c;
    m->channels = ch;
    m->name = name;
    if (purpose == 'L') for (size_t i = 0; i < c; i++) m->ordered_labels.push_back("label" + to_string(i));
    return m;
}

static string place;
static string folder() { return place + "/"; }

struct Row { vector<vector<float>> given, expected; };

static shared_ptr<BaseTensor> image_of(const vector<float> &v) {
    vector<vector<vector<float>>> all(1, vector<vector<float>>(5));
    for (size_t i = 0; i < 25; i++) all[0][i / 5].push_back(v[i]);
    return make_shared<PixelTensor>(make_shared<FullTensor>(all));
}

static vector<Row> write(Gen &g, const Data &d, const string &path, size_t n) {
    vector<shared_ptr<BinaryColumnMetadata>> gm, em;
    bool labels = d.loss == categoricalCrossEntropy;
    for (size_t i = 0; i < d.givens.size(); i++) gm.push_back(d.image ? column('I', 5, 5, 1, "image") : column('N', 1, d.givens[i], 1, "given" + to_string(i)));
    for (size_t i = 0; i < d.expected.size(); i++) em.push_back(column(labels ? 'L' : 'N', 1, d.expected[i], 1, "expected" + to_string(i)));
    vector<Row> rows;
    BinaryDatasetWriter w(path, gm, em, 0);
    for (size_t k = 0; k < n; k++) {
        Row r;
        vector<shared_ptr<BaseTensor>> a, b;
        for (size_t width: d.givens) {
            vector<float> v(width);
            for (auto &x: v) x = d.image ? (float) g.range(0, 255) / 255.f : g.value(1.5f);
            a.push_back(d.image ? image_of(v) : shared_ptr<BaseTensor>(make_shared<FullTensor>(v)));
            r.given.push_back(v);
        }
        for (size_t width: d.expected) {
            vector<float> v(width, 0.f);
            if (labels) v[g.draw(width)] = 1.f;
            else for (auto &x: v) x = d.loss == binaryCrossEntropy ? (float) g.draw(2) : (float) g.range(0, 10) / 10.f;
            b.push_back(make_shared<FullTensor>(v));
            r.expected.push_back(v);
        }
        w.writeRow(a, b);
        rows.push_back(r);
    }
    w.close();
    return rows;
}

static Data gen_data(Gen &g, vector<Row> &tests) {
    Data d;
    d.loss = g.pick({categoricalCrossEntropy, binaryCrossEntropy, mse, mae, smae});
    d.image = g.chance(1, 5);
    if (d.image) d.givens = {25};
    else for (size_t i = g.size(1, 2); i > 0; i--) d.givens.push_back(g.size(1, 3));
    for (size_t i = g.chance(1, 3) ? 2 : 1; i > 0; i--) d.expected.push_back(d.loss == categoricalCrossEntropy ? g.range(2, 3) : g.size(1, 2));
    d.records = g.size(3, 9);
    d.tests = g.size(3, 9);
    place = pbt::case_dir();
    d.path = place + "/train.bin";
    d.test_path = place + "/test.bin";
    write(g, d, d.path, d.records);
    tests = write(g, d, d.test_path, d.tests);
    return d;
}

static Config gen_config(Gen &g, const Data &d) {
    auto c = make_shared<Hyperparameters>();
    c->learning_rate = g.pick({0.f, 0.001f, 0.01f, 0.1f, 0.3f});
    c->bias_learning_rate = g.pick({0.f, 0.001f, 0.01f, 0.1f});
    c->complexity_depth = d.image ? (int) g.range(0, 1) : (int) g.range(0, 2);
    c->complexity_width = g.pick({1.f, 1.5f, 2.f});
    c->dropout_rate = g.pick({0.f, 0.3f, 0.5f});
    c->l2_regularization_strength = g.pick({0.f, 0.01f, 0.1f});
    c->batch_size = (int) g.range(1, min<size_t>(3, d.records));
    c->use_normalization_layers = g.chance(1, 4);
    c->use_bias = g.flip();
    c->use_hidden_bias = g.flip();
    c->use_normal_clipping = g.chance(1, 4);
    c->bits = g.pick({32, 16, 8});
    c->evaluation_metric = NAN;
    c->minimize_metric = false;
    return c;
}

struct Score { double value, doubt; };

// what the model is worth on the test records, from its predictions
static Score score(const Data &d, const vector<Row> &tests, const shared_ptr<NeuralNetworkForTraining> &m) {
    double hits = 0, unsure = 0, loss = 0;
    for (auto &r: tests) {
        vector<shared_ptr<BaseTensor>> in;
        for (auto &v: r.given) in.push_back(d.image ? image_of(v) : shared_ptr<BaseTensor>(make_shared<FullTensor>(v)));
        auto out = m->predict(in);
        pbt::check(out.size() == r.expected.size(), "outputs");
        bool all = true, doubt = false;
        double part = 0;
        for (size_t k = 0; k < out.size(); k++) {
            size_t n = r.expected[k].size();
            vector<double> p;
            for (size_t i = 0; i < n; i++) p.push_back(out[k]->getValue(0, i, 0));
            if (d.loss == categoricalCrossEntropy) {
                size_t want = max_element(r.expected[k].begin(), r.expected[k].end()) - r.expected[k].begin();
                for (size_t i = 0; i < n; i++) if (i != want) {
                    if (fabs(p[i] - p[want]) < 1e-5) doubt = true;
                    else if (p[i] > p[want]) all = false;
                }
            } else if (d.loss == binaryCrossEntropy) {
                for (size_t i = 0; i < n; i++) {
                    if (fabs(p[i] - 0.5) < 1e-5) doubt = true;
                    else if ((p[i] > 0.5) != (r.expected[k][i] > 0.5f)) all = false;
                }
            } else {
                double sum = 0;
                for (size_t i = 0; i < n; i++) {
                    double e = fabs(p[i] - r.expected[k][i]);
                    sum += d.loss == mse ? e * e : d.loss == mae ? e : (e <= 1 ? 0.5 * e * e : e - 0.5);
                }
                part += sum / (double) n / (double) out.size();
            }
        }
        if (!all) {}
        else if (doubt) unsure++;
        else hits++;
        loss += part;
    }
    auto n = (double) tests.size();
    if (d.loss == categoricalCrossEntropy || d.loss == binaryCrossEntropy) return {(hits + unsure / 2) / n, (unsure / 2) / n + 1e-5};
    return {loss / n, 1e-3 * fabs(loss / n) + 1e-5};
}

static bool minimizes(const Data &d) { return d.loss != categoricalCrossEntropy && d.loss != binaryCrossEntropy; }

// output is discarded; writing to it can be observed
struct Null : streambuf {
    function<void()> f;
    bool inside = false;
    void seen() {
        if (f && !inside) {
            inside = true;
            f();
            inside = false;
        }
    }
    int overflow(int c) override { seen(); return c == EOF ? 0 : c; }
    streamsize xsputn(const char *, streamsize n) override { seen(); return n; }
};

struct Silence {
    Null null;
    streambuf *co, *ce;
    Silence() : co(cout.rdbuf(&null)), ce(cerr.rdbuf(&null)) {}
    ~Silence() { cout.rdbuf(co); cerr.rdbuf(ce); }
};


static OptimizerType gen_optimizer(Gen &g) { return g.pick({OptimizerType::adam, OptimizerType::adam_with_decaying_momentum, OptimizerType::sgd, OptimizerType::sgdm}); }

// one configuration after another: the best is the best
PBT_PROP(evaluation, 600, 12000, "two or more configurations with different scores") {
    pbt_env::clock_step_ns = g.pick({0ul, 1000ul, 1000000ul});
    vector<Row> tests;
    auto d = gen_data(g, tests);
    Silence q;
    auto e = make_shared<ConfigurationEvaluator>(d.loss, gen_optimizer(g), d.path, 1.0f, d.test_path, 1.0f, folder(), (int) g.range(2, 6), 100000);
    pbt::check(e->getMinimizeMetric() == minimizes(d), "direction");
    size_t n = g.size(1, 5);
    vector<Config> cs;
    set<Key> used;
    while (cs.size() < n) {
        auto c = gen_config(g, d);
        if (used.insert(key_of(c)).second) cs.push_back(c);
        else n--;
    }
    g.note("loss ", (int) d.loss, ", ", d.records, "+", d.tests, " records, ", cs.size(), " configurations");
    g.label(minimizes(d) ? "smallest" : "largest");
    Config best;
    set<float> values;
    for (auto &c: cs) {
        float target = minimizes(d) ? g.pick({0.01f, 0.2f, 1.f, 5.f}) : g.pick({0.1f, 0.5f, 0.9f, 2.f});
        bool reached;
        try { reached = e->evaluateConfiguration(c, (int) g.range(1, 4), target); }
        catch (const exception &x) {
            if (string(x.what()).find("nan") != string::npos || string(x.what()).find("NaN") != string::npos || string(x.what()).find("inf") != string::npos) g.discard();
            pbt::fail("evaluation:refused", pbt::str(c->as_string(), ": ", x.what()));
        }
        pbt::check(c->minimize_metric == minimizes(d), "evaluation:direction");
        if (std::isnan(c->evaluation_metric)) pbt::fail("evaluation:no_score", c->as_string());
        values.insert(c->evaluation_metric);
        bool better = !best || (minimizes(d) ? c->evaluation_metric < best->evaluation_metric : c->evaluation_metric > best->evaluation_metric);
        if (better) best = c;
        g.note("score ", c->evaluation_metric);
        pbt::check(e->getBestEvaluationMetric() == best->evaluation_metric, "evaluation:best_score", pbt::str("the best score is ", e->getBestEvaluationMetric(), " instead of ", best->evaluation_metric));
        // equal scores: either
        auto kept = e->getBestConfiguration();
        pbt::check(kept != nullptr && kept->evaluation_metric == best->evaluation_metric, "evaluation:best_configuration",
                   pbt::str("the configuration retained has the score ", kept ? kept->evaluation_metric : NAN, ", the best one has ", best->evaluation_metric));
        bool beats = minimizes(d) ? best->evaluation_metric < target : best->evaluation_metric > target;
        if (better) pbt::check(reached == beats, "evaluation:target", pbt::str("a score of ", c->evaluation_metric, reached ? " beats " : " does not beat ", target));
        else pbt::check(!reached, "evaluation:target", "a worse configuration reached the target");
        // the model retained is the one that had this score
        auto m = e->getBestModel();
        auto s = score(d, tests, m);
        pbt::check(fabs(s.value - e->getBestEvaluationMetric()) <= s.doubt, "evaluation:best_model",
                   pbt::str("the model retained has the score ", s.value, ", the best one has ", e->getBestEvaluationMetric()));
    }
    g.is_nontrivial = values.size() >= 2;
    e->remove_temp_folder();
    for (auto &f: filesystem::recursive_directory_iterator(place)) pbt::check(f.path().filename() != "model.config", "evaluation:left_behind", f.path().string());
}

struct Trained { string prefix; int64_t ticks; Score score; };

static set<string> model_folders() {
    set<string> r;
    if (filesystem::exists(folder())) for (auto &f: filesystem::recursive_directory_iterator(folder()))
        if (f.path().filename() == "model.config") r.insert(f.path().parent_path().string());
    return r;
}

// whole searches
PBT_PROP(search, 260, 6000, "two or more rounds") {
    pbt_env::clock_step_ns = 2000000;
    vector<Row> tests;
    auto d = gen_data(g, tests);
    Silence q;
    bool still = g.flip(); // nothing is learned, so that a training ends once it has no patience left
    auto s = single(g);
    s->learning_rate_space = still ? vector<float>{0.f} : some<float>(g, {0.001f, 0.01f, 0.1f, 0.2f}, 1, 4);
    s->bias_learning_rate_space = still ? vector<float>{0.f} : some<float>(g, {0.001f, 0.01f, 0.1f}, 1, 3);
    s->complexity_depth_space = still ? vector<int>{1} : d.image ? some<int>(g, {0, 1}, 1, 2) : some<int>(g, {1, 0, 2}, 1, 3);
    s->complexity_width_space = still ? vector<float>{2.f} : some<float>(g, {1.f, 1.5f, 2.f}, 1, 2);
    s->dropout_rate_space = {0.f};
    s->l2_regularization_strength_space = some<float>(g, s->l2_regularization_strength_space = {0.02f, 0.015f, 0.01f, 0.f, 0.005f, 0.001f, 0.05f, 0.1f}, g.chance(1, 6) ? 1 : 4, 8);
    s->batch_size_space = {(int) g.range(1, 2)};
    int bits = still ? 32 : g.pick({32, 16, 8}); // rounding to fewer bits moves the parameters
    bool broken = !still && d.image && g.chance(1, 3);
    if (broken) s->complexity_depth_space.push_back(6); // too many convolutions for a small image
    size_t total = s->getNumConfigurations();
    size_t n = g.chance(1, 6) ? (size_t) -1 : g.chance(1, 6) ? g.size(1, 8) : g.range(4, 8);
    int factor = (int) g.pick({2, 2, 3, 4}), most = (int) g.range(2, 12);
    int max_epochs = still ? 1000 : (int) g.range(2, 4);
    bool reachable = g.chance(1, 3);
    float target = !reachable ? (minimizes(d) ? -1.f : 2.f) : minimizes(d) ? 0.2f : 0.6f;
    OptimizerType optimizer = still ? g.pick({OptimizerType::adam, OptimizerType::sgd, OptimizerType::sgdm}) : gen_optimizer(g); // the decaying ones choose their own rate
    auto e = make_shared<ConfigurationEvaluator>(d.loss, optimizer, d.path, 1.0f, d.test_path, 1.0f, folder(), max_epochs, 100000000);
    Hyperband h(s, e, most, factor);
    vector<Trained> done;
    set<string> known;
    int64_t last = pbt_env::clock_ns;
    q.null.f = [&] {
        auto now = pbt_env::clock_ns.load();
        for (auto &f: model_folders()) if (known.insert(f).second) {
            Trained t;
            string name = filesystem::path(f).filename().string();
            t.prefix = name.substr(0, name.rfind('_'));
            t.ticks = (now - last) / pbt_env::clock_step_ns;
            try { t.score = score(d, tests, loadNeuralNetworkForTraining(name, filesystem::path(f).parent_path().string())); }
            catch (...) { t.score = {NAN, NAN}; }
            done.push_back(t);
        }
        last = pbt_env::clock_ns;
    };
    auto result = h.run(n, target, bits);
    q.null.f = nullptr;
    size_t first = n == (size_t) -1 || n > total ? min<size_t>(total, max<size_t>(10, total / 10000)) : n;
    g.note("loss ", (int) d.loss, ", ", total, " possible, ", n == (size_t) -1 ? -1 : (int) n, " wanted, factor ", factor, ", resources ", most, ", ", done.size(), " trained", still ? ", still" : "", ", ", bits, " bits, ", d.image ? "image" : "numbers", s->use_normalization_layers_space[0] ? ", normalization" : "", s->use_normal_clipping_space[0] ? ", clipping" : "", ", optimizer ", (int) optimizer);
    pbt::check(model_folders().empty(), "search:left_behind", "the models tried are still there");
    for (auto &t: done) if (std::isnan(t.score.value)) { g.discard(); }
    pbt::check(result != nullptr || broken, "search:no_result");
    if (!result) return;
    // the best of all that were tried
    auto r = score(d, tests, result);
    bool mini = minimizes(d);
    for (auto &t: done)
        pbt::check(mini ? r.value <= t.score.value + r.doubt + t.score.doubt : r.value >= t.score.value - r.doubt - t.score.doubt, "search:not_best",
                   pbt::str("the result has the score ", r.value, ", one of the ", done.size(), " models tried had ", t.score.value));
    pbt::check(fabs(e->getBestEvaluationMetric() - r.value) <= r.doubt, "search:score", pbt::str(e->getBestEvaluationMetric(), " instead of ", r.value));
    if (broken) return; // how often those were tried can't be seen
    // rounds
    vector<vector<Trained>> rounds;
    size_t at = 0, planned = first;
    bool reached = false;
    for (size_t left = first; (left > 1 || rounds.empty()) && at < done.size(); left /= (size_t) factor) {
        rounds.emplace_back(done.begin() + (long) at, done.begin() + (long) min(done.size(), at + left));
        at += left;
        pbt::check(rounds.back().size() == left, "search:round", pbt::str("round ", rounds.size(), " tried ", rounds.back().size(), " configurations instead of ", left));
        planned = left / (size_t) factor;
        double best = mini ? INFINITY : -INFINITY, doubt = 0;
        for (size_t i = 0; i < at; i++) if (mini ? done[i].score.value < best : done[i].score.value > best) {
            best = done[i].score.value;
            doubt = done[i].score.doubt;
        }
        if (mini ? best < target - doubt : best > target + doubt) {
            reached = true;
            if (at != done.size()) pbt::fail("search:not_stopped", pbt::str("the search went on although a score of ", best, " had been reached, with a target of ", target));
            break;
        }
        if (at == done.size() && planned > 1 && (mini ? best < target + doubt : best > target - doubt)) reached = true;
    }
    pbt::check(at == done.size() && (reached || planned <= 1), "search:rounds", pbt::str(done.size(), " configurations were tried, starting with ", first, " and factor ", factor));
    g.is_nontrivial = rounds.size() >= 2;
    g.label(pbt::str(rounds.size(), " rounds"));
    set<string> distinct;
    for (auto &t: rounds[0]) distinct.insert(t.prefix);
    if (first * 2 <= total && total <= 8) pbt::check(distinct.size() == first, "search:twice", "a configuration was tried twice in the first round");
    for (size_t k = 0; k + 1 < rounds.size() && distinct.size() == first; k++) {
        set<string> kept;
        for (auto &t: rounds[k + 1]) kept.insert(t.prefix);
        pbt::check(kept.size() == rounds[k + 1].size(), "search:survivor_twice", "a configuration was tried twice in a round");
        for (auto &t: rounds[k + 1]) {
            bool had = false;
            for (auto &u: rounds[k]) had = had || u.prefix == t.prefix;
            pbt::check(had, "search:newcomer", pbt::str("round ", k + 2, " tried a configuration that was not in the round before"));
        }
        for (auto &a: rounds[k]) if (kept.count(a.prefix)) for (auto &b: rounds[k]) if (!kept.count(b.prefix))
            pbt::check(mini ? a.score.value <= b.score.value + a.score.doubt + b.score.doubt : a.score.value >= b.score.value - a.score.doubt - b.score.doubt,
                       "search:worse_kept", pbt::str("round ", k + 1, " kept a configuration with the score ", a.score.value, " and dropped one with ", b.score.value));
    }
    if (!still) return;
    // with nothing to learn, the time is what the resources of the round allow
    auto took = [&](int resources) {
        auto c = make_shared<Hyperparameters>();
        HyperBandRandomSearch one(s);
        c = one.generateRandomConfiguration(bits);
        auto x = make_shared<ConfigurationEvaluator>(d.loss, optimizer, d.path, 1.0f, d.test_path, 1.0f, folder(), max_epochs, 100000000);
        auto before = pbt_env::clock_ns.load();
        x->evaluateConfiguration(c, resources, target);
        auto after = pbt_env::clock_ns.load();
        x->remove_temp_folder();
        return (after - before) / pbt_env::clock_step_ns;
    };
    for (size_t k = 0; k < rounds.size(); k++) {
        int64_t p = 1;
        for (size_t i = 0; i < k; i++) p *= factor;
        int resources = max<int>(2, (int) (most / p));
        int64_t lo = took(resources - 1), exact = took(resources), hi = took(resources + 1);
        if (!(lo < exact && exact < hi)) break; // it ended for another reason: a loss of zero
        for (auto &t: rounds[k])
            pbt::check(t.ticks > lo && t.ticks < hi, "search:resources", pbt::str("a training of round ", k + 1, " took ", t.ticks, " clock readings; with the resources ", resources, " it takes ", exact,
                                                                                 ", with one more ", hi, ", with one less ", lo));
    }
}

namespace { struct OneThread { tbb::global_control c{tbb::global_control::max_allowed_parallelism, 1}; } one_thread; }
