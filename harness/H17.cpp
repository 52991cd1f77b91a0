// H17: scripted data sets and tasks follow their life cycle
#include "ml/happyml_dsl.hpp"
#include "lang/interpreter.hpp"
#include "lang/happyml_script_init.hpp"
#include "pbt.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;

static const string repo = "../happyml_repo/";

struct Streams {
    stringstream out, err;
    streambuf *o, *e;
    Streams() : o(cout.rdbuf(out.rdbuf())), e(cerr.rdbuf(err.rdbuf())) {}
    ~Streams() { cout.rdbuf(o); cerr.rdbuf(e); }
};

static void reset() {
    filesystem::remove_all(repo);
    for (auto &d: {"datasets", "tasks", "raw"}) filesystem::create_directories(repo + d);
}

// every file below a folder
static map<string, string> tree(const string &at) {
    map<string, string> r;
    if (filesystem::exists(at))
        for (auto &e: filesystem::recursive_directory_iterator(at)) r[e.path().string()] = e.is_regular_file() ? pbt::read_file_text(e.path().string(), 1 << 20) : "/";
    return r;
}

static string difference(const map<string, string> &a, const map<string, string> &b) {
    for (auto &[p, t]: a) if (!b.count(p)) return p + " is gone";
    for (auto &[p, t]: b) if (!a.count(p)) return p + " is new";
    for (auto &[p, t]: a) if (b.at(p) != t) return p + " holds something else";
    return "";
}

// ---- columns as one data set has them
struct Column {
    char purpose = 'N';
    size_t r = 1, c = 1, ch = 1;
    string name;
    vector<string> labels;   // in the order of their positions
    bool standardized = false, normalized = false;
    float mean = 0, deviation = 1, low = 0, high = 1;
    size_t cells() const { return purpose == 'L' ? 1 : r * c * ch; }
    shared_ptr<BinaryColumnMetadata> metadata() const {
        auto m = make_shared<BinaryColumnMetadata>();
        m->purpose = purpose;
        m->is_standardized = standardized;
        m->is_normalized = normalized;
        m->mean = mean;
        m->standard_deviation = deviation;
        m->min_value = low;
        m->max_value = high;
        m->source_column_count = cells();
        m->rows = r;
        m->columns = purpose == 'L' ? labels.size() : c;
        m->channels = ch;
        m->ordered_labels = labels;
        m->name = name;
        return m;
    }
};

// one cell: a number, or the name of a label
struct Cell { double v = 0; string label; };
typedef vector<Cell> Cells;

static void gen_units(Gen &g, Column &x) {
    x.standardized = g.flip();
    x.normalized = g.flip();
    x.mean = x.standardized ? g.pick({0.f, 10.f, -3.5f, 40.f}) : 0;
    x.deviation = x.standardized ? g.pick({0.5f, 1.f, 4.f, 20.f}) : 1;
    x.low = x.normalized ? g.pick({-4.f, -1.f, 0.f, 2.f}) : 0;
    x.high = x.normalized ? x.low + g.pick({0.5f, 1.f, 3.f, 8.f}) : 1;
}

static Column gen_column(Gen &g, bool given, size_t i) {
    Column x;
    x.purpose = given ? g.pick({'N', 'N', 'L', 'I'}) : g.pick({'N', 'L'});
    x.name = pbt::str(given ? g.pick({"in", "In Put", "A_"}) : g.pick({"out", "The Result", "B"}), i);
    if (x.purpose == 'L') for (size_t k = g.range(2, 4); k > 0; k--) x.labels.push_back(pbt::str(g.pick({"v", "Label ", "c'"}), k));
    else if (x.purpose == 'I') {
        x.r = g.range(1, 3);
        x.c = g.range(1, 3);
        x.ch = g.pick({1, 3});
    } else {
        x.r = g.chance(1, 4) ? 2 : 1;
        x.c = g.size(1, 3);
        gen_units(g, x);
    }
    return x;
}

// the same column in another data set
static Column elsewhere(Gen &g, Column x) {
    if (x.purpose == 'N' && g.chance(2, 3)) gen_units(g, x);
    if (x.purpose == 'L' && g.chance(2, 3)) {
        g.shuffle(x.labels);
        if (x.labels.size() > 1 && g.flip()) x.labels.pop_back();
    }
    return x;
}

static Cells gen_cells(Gen &g, const Column &x) {
    Cells r(x.cells());
    for (auto &c: r) {
        if (x.purpose == 'L') c.label = g.pick(x.labels);
        else if (x.purpose == 'I') c.v = (double) g.draw(256);
        else c.v = (double) g.range(0, 400) / 4 - 50;
    }
    return r;
}

static shared_ptr<BaseTensor> encode(const Column &x, const Cells &v) {
    if (x.purpose == 'L') {
        vector<float> all(x.labels.size(), 0.f);
        all[find(x.labels.begin(), x.labels.end(), v[0].label) - x.labels.begin()] = 1;
        return make_shared<FullTensor>(all);
    }
    vector<vector<vector<float>>> all(x.ch, vector<vector<float>>(x.r, vector<float>(x.c)));
    size_t at = 0;
    for (size_t k = 0; k < x.ch; k++) for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++, at++) {
        double e = v[at].v;
        if (x.purpose == 'I') e /= 255;
        else {
            if (x.standardized) e = (e - x.mean) / x.deviation;
            if (x.normalized) e = (e - x.low) / (x.high - x.low);
        }
        all[k][i][j] = (float) e;
    }
    auto t = make_shared<FullTensor>(all);
    if (x.purpose == 'I') return make_shared<PixelTensor>(t);
    return t;
}

struct Columns { vector<Column> given, expected; };

static vector<shared_ptr<BinaryColumnMetadata>> metadata(const vector<Column> &xs) {
    vector<shared_ptr<BinaryColumnMetadata>> r;
    for (auto &x: xs) r.push_back(x.metadata());
    return r;
}

typedef vector<Cells> Row; // of the given columns

static void write(const string &folder, const Columns &cs, const vector<Row> &given, const vector<Row> &expected) {
    filesystem::create_directories(folder);
    BinaryDatasetWriter w(folder + "/dataset.bin", metadata(cs.given), metadata(cs.expected), 0);
    for (size_t i = 0; i < given.size(); i++) {
        vector<shared_ptr<BaseTensor>> a, b;
        for (size_t k = 0; k < cs.given.size(); k++) a.push_back(encode(cs.given[k], given[i][k]));
        for (size_t k = 0; k < cs.expected.size(); k++) b.push_back(encode(cs.expected[k], expected[i][k]));
        w.writeRow(a, b);
    }
    w.close();
}

// a task as a creation leaves it: a network and the description of the columns
static void plant(Gen &g, const string &name, const Columns &cs) {
    string at = repo + "tasks/";
    auto builder = neuralNetworkBuilder(OptimizerType::sgd);
    auto dsl = builder->setModelName(name)->setModelRepo(at)->setLearningRate(0.5f)->setBiasLearningRate(0.5f)->setLossFunction(LossType::mse);
    vector<vector<size_t>> shapes;
    for (auto &x: cs.given) shapes.push_back({x.r, x.purpose == 'L' ? x.labels.size() : x.c, x.ch});
    shared_ptr<HappymlDSL::NNVertex> layer;
    auto width = (size_t) g.range(2, 5);
    if (shapes.size() > 1) layer = dsl->add_concatenated_input_layer(shapes)->addLayer(width, LayerType::full, ActivationType::tanhDefault);
    else layer = dsl->addInputLayer(shapes[0], width, LayerType::full, ActivationType::tanhDefault);
    layer->setUseBias(true);
    auto data = make_shared<InMemoryTrainingDataSet>();
    bool unbounded = g.flip();
    for (auto &x: cs.expected)
        layer->addOutputLayer({x.r, x.purpose == 'L' ? x.labels.size() : x.c, x.ch}, x.purpose == 'N' && unbounded ? ActivationType::linear : ActivationType::sigmoid)->setUseBias(true);
    auto n = builder->build();
    n->setSilentMode(true);
    for (int i = 0; i < 2; i++) { // parameters of its own
        vector<shared_ptr<BaseTensor>> a, b;
        for (auto &s: shapes) {
            vector<vector<vector<float>>> all(s[2], vector<vector<float>>(s[0], vector<float>(s[1])));
            for (auto &k: all) for (auto &r: k) for (auto &v: r) v = g.unit() * 2 - 1;
            a.push_back(make_shared<FullTensor>(all));
        }
        for (auto &x: cs.expected) {
            vector<vector<vector<float>>> all(x.ch, vector<vector<float>>(x.r, vector<float>(x.purpose == 'L' ? x.labels.size() : x.c)));
            for (auto &k: all) for (auto &r: k) for (auto &v: r) v = g.unit() * 4 - 2;
            b.push_back(make_shared<FullTensor>(all));
        }
        data->addTrainingData(a, b);
    }
    n->setExitStrategy(make_shared<DefaultExitStrategy>(2, 1000, 2, 1e-9, 1e-9, 1, 1e9f));
    n->train(data, 1);
    n->saveWithOverwrite();
    write(at + name, cs, {}, {});
}

static Columns columns_of(const string &task) {
    BinaryDatasetReader r(repo + "tasks/" + task + "/dataset.bin");
    Columns cs;
    for (bool given: {true, false}) for (size_t i = 0; i < (given ? r.get_given_column_count() : r.get_expected_column_count()); i++) {
        auto m = given ? r.get_given_metadata(i) : r.get_expected_metadata(i);
        Column x;
        x.purpose = m->purpose;
        x.r = m->rows;
        x.c = m->columns;
        x.ch = m->channels;
        x.name = m->name;
        x.labels = m->ordered_labels;
        x.standardized = m->is_standardized;
        x.normalized = m->is_normalized;
        x.mean = m->mean;
        x.deviation = m->standard_deviation;
        x.low = m->min_value;
        x.high = m->max_value;
        (given ? cs.given : cs.expected).push_back(x);
    }
    return cs;
}

// ---- what is printed
static string trim(string s) {
    while (!s.empty() && s.back() == ' ') s.pop_back();
    while (!s.empty() && s[0] == ' ') s.erase(0, 1);
    return s;
}

static vector<string> cells_of(const string &line) {
    vector<string> r(1);
    for (char c: line) if (c == '|') r.emplace_back(); else r.back() += c;
    for (auto &s: r) s = trim(s);
    return r;
}

static vector<double> numbers_of(const string &s) {
    vector<double> r;
    const char *p = s.c_str();
    while (*p) {
        char *end;
        double v = strtod(p, &end);
        if (end == p) { p++; continue; }
        r.push_back(v);
        p = end;
    }
    return r;
}

// the values printed for one column against the tensor the network gave or was given, in units of the column
static void compare(const Column &x, const vector<string> &lines, const shared_ptr<BaseTensor> &t, const string &key, const string &what) {
    if (x.purpose == 'L') {
        size_t best = 0;
        for (size_t i = 0; i < x.labels.size(); i++) if (t->getValue(0, i, 0) > t->getValue(0, best, 0)) best = i;
        size_t said = find(x.labels.begin(), x.labels.end(), lines.empty() ? "?" : lines[0]) - x.labels.begin();
        pbt::check(said < x.labels.size(), key, pbt::str(what, ": ", lines.empty() ? "nothing" : lines[0], " is no label of ", x.name));
        pbt::check(t->getValue(0, said, 0) >= t->getValue(0, best, 0) - 1e-5, key, pbt::str(what, ": ", x.name, " is ", lines[0], " (", t->getValue(0, said, 0), ") instead of ", x.labels[best], " (", t->getValue(0, best, 0), ")"));
        return;
    }
    if (x.purpose == 'I') {
        size_t want = (x.r + 1) / 2;
        for (size_t i = 0; i < lines.size(); i++) if (i >= want) pbt::check(lines[i].empty(), key, pbt::str(what, ": ", x.name, " has more lines than its image: ", lines[i]));
        pbt::check(lines.size() >= want, key, pbt::str(what, ": ", x.name, " has too few lines"));
        return;
    }
    for (size_t i = 0; i < max(x.r, lines.size()); i++) {
        if (i >= x.r) { pbt::check(lines[i].empty(), key, pbt::str(what, ": ", x.name, " has a line too many: ", lines[i])); continue; }
        pbt::check(i < lines.size(), key, pbt::str(what, ": ", x.name, " has too few lines"));
        auto got = numbers_of(lines[i]);
        pbt::check(got.size() == x.c * x.ch, key, pbt::str(what, ": ", x.name, " shows ", lines[i], " instead of ", x.c * x.ch, " numbers"));
        for (size_t j = 0; j < x.c; j++) for (size_t k = 0; k < x.ch; k++) {
            double v = t->getValue(i, j, k), scale = fabs(v);
            if (x.normalized) { v = v * ((double) x.high - x.low) + x.low; scale = scale * (x.high - x.low) + fabs(x.low); }
            if (x.standardized) { v = v * x.deviation + x.mean; scale = scale * x.deviation + fabs(x.mean); }
            pbt::check(fabs(got[j * x.ch + k] - v) <= 1e-3 + 2e-5 * scale, key, pbt::str(what, ": ", x.name, " is ", got[j * x.ch + k], " instead of ", v));
        }
    }
}

// rows of printed values, as values[column] = lines
static vector<vector<vector<string>>> rows_of(const string &printed, const vector<string> &names, size_t rows, size_t height, const string &key) {
    stringstream s(printed);
    string line;
    vector<string> lines;
    while (getline(s, line)) lines.push_back(line);
    pbt::check(!lines.empty() && trim(lines[0]) == "Results:", key, "no results in " + pbt::quote(printed.substr(0, 300)));
    lines.erase(lines.begin());
    if (rows == 0) {
        pbt::check(lines.size() <= 1, key, "results of an empty data set: " + pbt::quote(printed.substr(0, 300)));
        return {};
    }
    pbt::check(!lines.empty() && cells_of(lines[0]) == names, key, pbt::str("the columns are called ", pbt::quote(lines.empty() ? "" : lines[0]), " instead of ", pbt::join(names, "|")));
    lines.erase(lines.begin());
    pbt::check(lines.size() == rows * height, key, pbt::str(lines.size(), " lines of ", height, " per record for ", rows, " records"));
    vector<vector<vector<string>>> r;
    for (size_t i = 0; i < rows; i++) {
        r.emplace_back(names.size());
        for (size_t k = 0; k < height; k++) {
            auto c = cells_of(lines[i * height + k]);
            pbt::check(c.size() == names.size(), key, pbt::str("the line ", pbt::quote(lines[i * height + k]), " has ", c.size(), " columns instead of ", names.size()));
            for (size_t q = 0; q < c.size(); q++) r.back()[q].push_back(c[q]);
        }
    }
    return r;
}

static size_t height_of(const vector<Column> &xs) {
    size_t h = 1;
    for (auto &x: xs) h = max(h, x.purpose == 'L' ? 1 : x.purpose == 'I' ? (x.r + 1) / 2 : x.r);
    return h;
}

static vector<shared_ptr<BaseTensor>> encode_row(const vector<Column> &xs, const Row &row) {
    vector<shared_ptr<BaseTensor>> r;
    for (size_t i = 0; i < xs.size(); i++) r.push_back(encode(xs[i], row[i]));
    return r;
}

static string lower(string s) {
    for (char &c: s) c = (char) tolower(c);
    return s;
}

struct Ran { bool ok; string out, message; };

static Ran run(const function<shared_ptr<ExecutionResult>()> &f) {
    Streams st;
    try {
        auto r = f();
        return {r->isSuccessful(), st.out.str(), r->getMessage()};
    } catch (const pbt::Failure &) { throw; }
    catch (const exception &e) { return {false, st.out.str(), e.what()}; }
}

static Ran execute_dataset(const string &task, const string &set) {
    return run([&] { return ExecuteTaskStatement(task, "", set, {}).execute(make_shared<ExecutionContext>()); });
}

static unordered_map<string, vector<HappyMLVariant>> inputs_of(Gen &g, const vector<Column> &xs, const Row &row) {
    unordered_map<string, vector<HappyMLVariant>> in;
    for (size_t i = 0; i < xs.size(); i++) {
        vector<HappyMLVariant> v;
        for (auto &c: row[i]) {
            if (xs[i].purpose == 'L') v.emplace_back(c.label);
            else if (g.flip()) v.emplace_back((float) c.v);
            else v.emplace_back(pbt::str(c.v));
        }
        in.emplace(lower(xs[i].name), v);
    }
    return in;
}

static Ran execute_inputs(const string &task, const unordered_map<string, vector<HappyMLVariant>> &in) {
    return run([&] { return ExecuteTaskStatement(task, "", "", in).execute(make_shared<ExecutionContext>()); });
}

// records of a data set against what the stored network predicts for them
static void check_dataset(const Ran &r, const string &task, const Columns &cs, const vector<Row> &rows) {
    pbt::check(r.ok, "dataset:refused", pbt::str("executing a task with a data set failed: ", r.message, " ", pbt::quote(r.out.substr(0, 300))));
    auto n = loadNeuralNetworkForTraining(task, repo + "tasks/");
    vector<Column> all = cs.expected;
    all.insert(all.end(), cs.given.begin(), cs.given.end());
    vector<string> names;
    for (auto &x: all) names.push_back(x.name);
    auto shown = rows_of(r.out, names, rows.size(), height_of(all), "dataset:printed");
    vector<bool> used(shown.size());
    for (size_t i = 0; i < shown.size(); i++) {
        auto in = encode_row(cs.given, rows[i]);
        auto out = n->predict(in);
        for (size_t c = 0; c < cs.expected.size(); c++) compare(cs.expected[c], shown[i][c], out[c], "dataset:prediction", pbt::str("record ", i));
        for (size_t c = 0; c < cs.given.size(); c++) compare(cs.given[c], shown[i][cs.expected.size() + c], in[c], "dataset:given", pbt::str("record ", i));
    }
}

static void check_inputs(const Ran &r, const string &task, const Columns &cs, const Row &row) {
    pbt::check(r.ok, "inputs:refused", pbt::str("executing a task with inputs failed: ", r.message, " ", pbt::quote(r.out.substr(0, 300))));
    auto n = loadNeuralNetworkForTraining(task, repo + "tasks/");
    vector<string> names;
    for (auto &x: cs.expected) names.push_back(x.name);
    auto shown = rows_of(r.out, names, 1, height_of(cs.expected), "inputs:printed");
    auto out = n->predict(encode_row(cs.given, row));
    for (size_t c = 0; c < cs.expected.size(); c++) compare(cs.expected[c], shown[0][c], out[c], "inputs:prediction", "the record");
}

PBT_PROP(executing, 2600, 40000, "two or more records of a data set with other units or labels than the task's") {
    reset();
    Columns cs;
    size_t ng = g.size(1, 3), ne = g.size(1, 2);
    for (size_t i = 0; i < ng; i++) cs.given.push_back(gen_column(g, true, i));
    for (size_t i = 0; i < ne; i++) cs.expected.push_back(gen_column(g, false, i));
    Streams *quiet = new Streams;
    try { plant(g, "one", cs); } catch (const pbt::Failure &) { delete quiet; throw; } catch (const exception &e) {
        delete quiet;
        pbt::fail("plant", e.what());
    }
    delete quiet;
    // another data set with the same columns
    Columns other;
    for (auto &x: cs.given) other.given.push_back(elsewhere(g, x));
    for (auto &x: cs.expected) other.expected.push_back(elsewhere(g, x));
    bool no_expected = g.chance(1, 8), differs = false;
    if (no_expected) other.expected.clear();
    for (size_t i = 0; i < ng; i++) {
        auto &a = cs.given[i], &b = other.given[i];
        differs = differs || a.labels != b.labels || a.standardized != b.standardized || a.normalized != b.normalized || a.mean != b.mean || a.deviation != b.deviation || a.low != b.low || a.high != b.high;
    }
    size_t nr = g.size(0, 5);
    vector<Row> given(nr), expected(nr);
    for (size_t i = 0; i < nr; i++) {
        for (auto &x: other.given) given[i].push_back(gen_cells(g, x));
        for (auto &x: other.expected) expected[i].push_back(gen_cells(g, x));
    }
    write(repo + "datasets/set", other, given, expected);
    for (auto &x: cs.given) g.note("given ", x.purpose, " ", x.r, "x", x.c, "x", x.ch, x.standardized ? " standardized" : "", x.normalized ? " normalized" : "");
    for (auto &x: cs.expected) g.note("expected ", x.purpose, " ", x.r, "x", x.c, x.standardized ? " standardized" : "", x.normalized ? " normalized" : "");
    g.note(nr, " records", differs ? " in other units or labels" : "");
    g.is_nontrivial = nr >= 2 && differs;
    auto before = tree(repo);
    auto a = execute_dataset("one", "set");
    check_dataset(a, "one", cs, given);
    Row row;
    for (auto &x: cs.given) row.push_back(gen_cells(g, x));
    auto in = inputs_of(g, cs.given, row);
    auto b = execute_inputs("one", in);
    check_inputs(b, "one", cs, row);
    string d = difference(before, tree(repo));
    pbt::check(d.empty(), "execution:files", "executing a task changed the stored files: " + d);
    // inputs that don't fit
    size_t which = g.draw(ng);
    auto bad = in;
    string name = lower(cs.given[which].name), what;
    switch (g.draw(4)) {
        case 0:
            bad.erase(name);
            bad.emplace("something", vector<HappyMLVariant>{HappyMLVariant(string("x"))});
            what = "without " + name;
            break;
        case 1:
            if (cs.given[which].purpose != 'L') { bad.at(name)[0] = HappyMLVariant(string("twelve")); what = "with text for a number"; }
            else { bad.at(name)[0] = HappyMLVariant(string("no such label")); what = "with an unknown label"; }
            break;
        case 2:
            bad.at(name).pop_back();
            what = "with too few values";
            break;
        default:
            bad.at(name).clear();
            what = "with no values";
    }
    auto r = execute_inputs("one", bad);
    pbt::check(!r.ok, "inputs:accepted", pbt::str("executing a task ", what, " did not fail: ", pbt::quote(r.out)));
    // a label the task doesn't know
    bool unknown = false;
    for (auto &x: other.given) if (x.purpose == 'L' && !unknown) {
        x.labels.push_back("never seen");
        unknown = true;
        if (nr) {
            for (size_t i = 0; i < ng; i++) if (&other.given[i] == &x) given[nr - 1][i][0].label = "never seen";
            write(repo + "datasets/unknown", other, given, expected);
            auto u = execute_dataset("one", "unknown");
            pbt::check(!u.ok, "dataset:unknown_label", "executing a task with a data set with an unknown label did not fail: " + pbt::quote(u.out.substr(0, 300)));
        }
    }
    // another task in between
    if (g.flip()) {
        Columns cs2;
        cs2.given.push_back(gen_column(g, true, 0));
        cs2.expected.push_back(gen_column(g, false, 0));
        { Streams q; plant(g, "two", cs2); }
        Row row2;
        for (auto &x: cs2.given) row2.push_back(gen_cells(g, x));
        auto c = execute_inputs("two", inputs_of(g, cs2.given, row2));
        check_inputs(c, "two", cs2, row2);
        g.label("between");
    }
    auto a2 = execute_dataset("one", "set"), b2 = execute_inputs("one", in);
    pbt::check(a2.ok && a2.out == a.out, "again:dataset", "executing a task again with the same data set gave something else");
    pbt::check(b2.ok && b2.out == b.out, "again:inputs", "executing a task again with the same inputs gave something else");
    if (ng > 1) {
        Columns fewer = other;
        fewer.given.pop_back();
        for (auto &x: fewer.given) if (x.purpose == 'L' && x.labels.back() == "never seen") x.labels.pop_back();
        vector<Row> rows(1);
        for (auto &x: fewer.given) rows[0].push_back(gen_cells(g, x));
        vector<Row> e(1);
        for (auto &x: fewer.expected) e[0].push_back(gen_cells(g, x));
        write(repo + "datasets/fewer", fewer, rows, e);
        pbt::check(!execute_dataset("one", "fewer").ok, "dataset:fewer_columns", "executing a task with a data set with a column missing did not fail");
    }
    for (auto &[t, s]: vector<pair<string, string>>{{"one", "missing"}, {"missing", "set"}, {"missing", "missing"}})
        pbt::check(!execute_dataset(t, s).ok, "missing:dataset", pbt::str("executing ", t, " with ", s, " did not fail"));
    pbt::check(!execute_inputs("missing", in).ok, "missing:inputs", "executing a task that does not exist did not fail");
}

// ---- whole histories, from scripts
struct Source {
    bool labels_in = false;    // the given column is a label instead of a number
    string text;
    vector<Row> rows;          // given cells
    size_t kind = 0;
};

static shared_ptr<Parser> &parser() { static auto p = initializeHappymlParser(); return p; }

struct Session {
    InterpreterSession s{parser()};
    string out, err;
    bool run(const string &text) { // true: no failure was reported
        Streams st;
        bool done = s.interpretCommands(text, "test");
        out = st.out.str();
        err = st.err.str();
        pbt::check(!done, "history:exit", "the session ended after " + text);
        return err.empty();
    }
};

static bool flip_label(double v) { return v > 0; }

PBT_PROP(histories, 70, 1400, "a task was created, and used later in a script with four or more commands") {
    reset();
    pbt_env::clock_step_ns = g.pick({1000ul, 1000000ul});
    // source files: two numbers and a label that depends on them
    map<string, vector<pair<double, string>>> sources;
    for (auto &f: {string("low.csv"), string("high.csv")}) {
        vector<pair<double, string>> rows;
        size_t n = g.range(4, 10);
        for (size_t i = 0; i < n; i++) {
            double v = (i % 2 ? 1. : -1.) * (double) g.range(2, 9) * (f == "high.csv" ? 10 : 1);
            rows.push_back({v, flip_label(v) ? "up" : "down"});
        }
        // distinct records
        sort(rows.begin(), rows.end());
        rows.erase(unique(rows.begin(), rows.end()), rows.end());
        g.shuffle(rows);
        sources[f] = rows;
        ofstream o(repo + "raw/" + f);
        for (auto &[v, l]: rows) o << v << "," << (-v) << "," << l << "\n";
    }
    ofstream(repo + "raw/bad.csv") << "1,2,up\nword,3,down\n";
    ofstream(repo + "raw/short.csv") << "1,2\n3,4\n";
    ofstream(repo + "raw/noise.csv") << "1,1,a\n1.001,1,b\n0.999,1,c\n1.002,1,d\n0.998,1,e\n1.003,1,f\n";
    Session s;
    map<string, string> sets;   // data set -> source
    set<string> tasks;
    int trainings = 0, uses = 0, steps = (int) g.range(5, 11);
    bool used_after = false;
    auto sets_tree = [&](const string &n) { return tree(repo + "datasets/" + n); };
    auto tasks_tree = [&](const string &n) { return tree(repo + "tasks/" + n); };
    const vector<string> set_names{"alpha", "beta"}, task_names{"t1", "t2"};
    map<string, map<string, string>> stored;
    auto unchanged = [&](const string &except, const string &command) {
        for (auto &[n, f]: sets) if ("set " + n != except) {
            string d = difference(stored["set " + n], sets_tree(n));
            pbt::check(d.empty(), "history:dataset_changed", command + " changed the data set " + n + ": " + d);
        }
        for (auto &n: tasks) if ("task " + n != except) {
            string d = difference(stored["task " + n], tasks_tree(n));
            pbt::check(d.empty(), "history:task_changed", command + " changed the task " + n + ": " + d);
        }
    };
    for (int step = 0; step < steps; step++) {
        string command;
        size_t op = g.draw(8);
        if (sets.empty() && g.chance(3, 4)) op = 0;
        if (!sets.empty() && tasks.empty() && g.chance(3, 4)) op = 2;
        if (!tasks.empty() && g.chance(1, 3)) op = g.pick({4ul, 5ul, 6ul});
        if (op <= 1) {
            string n = g.pick(set_names), f = g.pick({string("low.csv"), string("high.csv"), string("low.csv"), string("high.csv"), string("low.csv"), string("high.csv"), string("bad.csv"), string("short.csv"), string("none.csv")});
            command = "create dataset " + n + " with given number first at 0 with given number second at 1 with expected label direction at 2 using file://" + repo + "raw/" + f;
            bool ok = s.run(command);
            if (sets.count(n)) {
                pbt::check(ok || !s.err.empty(), "history:again");
                unchanged("", command);
            } else {
                bool good = sources.count(f);
                pbt::check(ok == good, good ? "history:refused_set" : "history:accepted_set", command + ": " + pbt::quote(s.err) + pbt::quote(s.out.substr(0, 300)));
                if (good) {
                    sets[n] = f;
                    stored["set " + n] = sets_tree(n);
                }
                pbt::check(ExecutionContext::dataset_exists(n) == good, "history:set_exists", command);
                unchanged("set " + n, command);
            }
        } else if (op <= 3) {
            if (trainings >= 2) continue;
            string t = g.pick(task_names), n = !sets.empty() && g.chance(3, 4) ? sets.begin()->first : g.pick(set_names), test = g.chance(1, 4) ? g.pick({string("alpha"), string("beta"), string("nowhere")}) : "", type = g.chance(1, 10) ? "text" : "label";
            string goal = "speed"; // the others can search for minutes
            command = "create task " + type + " " + t + " with goal " + goal + (test.empty() ? "" : " with test " + test) + " using " + n;
            bool exists = tasks.count(t), good = sets.count(n) && type == "label" && (exists || test.empty() || sets.count(test));
            bool half = !exists && good && g.chance(1, 4);
            if (half) { // what an interrupted creation leaves
                filesystem::create_directories(repo + "tasks/" + t + "/default");
                ofstream(repo + "tasks/" + t + (g.flip() ? "/model.config" : "/dataset.bin")) << "something";
                pbt::check(!s.run("execute task " + t + " using input (\"first\": 1, \"second\": 2)"), "history:half_used", "an incomplete task was executed");
            }
            bool ok = s.run(command);
            pbt::check(ok == good, good ? "history:refused_task" : "history:accepted_task", command + ": " + pbt::quote(s.err) + pbt::quote(s.out.size() > 600 ? s.out.substr(s.out.size() - 600) : s.out));
            if (good && !exists) {
                trainings++;
                tasks.insert(t);
                stored["task " + t] = tasks_tree(t);
                unchanged("task " + t, command);
                if (half) g.label("recreated");
            } else unchanged("", command);
            if (!good) pbt::check(tasks.count(t) || !s.run("execute task " + t + " using input (\"first\": 1, \"second\": 2)"), "history:half_used", "a task that could not be created was executed");
        } else if (op <= 5) {
            string t = g.pick(task_names), n = g.pick(set_names);
            command = "execute task " + t + " using dataset " + n;
            bool good = tasks.count(t) && sets.count(n), ok = s.run(command);
            pbt::check(ok == good, good ? "history:refused_execution" : "history:accepted_execution", command + ": " + pbt::quote(s.err));
            if (good) {
                uses++;
                used_after = used_after || step >= 3;
                auto cs = columns_of(t);
                vector<Row> rows;
                // in the order of the data set
                BinaryDatasetReader r(repo + "datasets/" + n + "/dataset.bin");
                auto in_set = build_given_decoders(false, r);
                BinaryDataSet d(repo + "datasets/" + n + "/dataset.bin");
                multiset<double> seen, want;
                while (auto p = d.nextRecord()) {
                    auto v = p->getGiven();
                    double x = in_set[0]->decode(v[0])->getValue(0, 0, 0), y = in_set[1]->decode(v[1])->getValue(0, 0, 0);
                    x = round(x);
                    y = round(y);
                    rows.push_back({{{x, ""}}, {{y, ""}}});
                    seen.insert(x);
                }
                for (auto &[v, l]: sources[sets[n]]) want.insert(v);
                pbt::check(seen == want, "history:records", "the data set does not hold the records of its source");
                check_dataset({true, s.out, ""}, t, cs, rows);
            }
            unchanged("", command);
        } else if (op == 6) {
            string t = g.pick(task_names);
            double v = (double) g.range(2, 90) * (g.flip() ? 1 : -1), w = (double) g.range(0, 9);
            v = fabs(v); // there are no negative numbers in scripts
            command = pbt::str("execute task ", t, " using input (\"first\": ", v, ", \"second\": ", w, ")");
            bool ok = s.run(command);
            pbt::check(ok == (bool) tasks.count(t), ok ? "history:accepted_execution" : "history:refused_execution", command + ": " + pbt::quote(s.err));
            if (ok) {
                uses++;
                used_after = used_after || step >= 3;
                check_inputs({true, s.out, ""}, t, columns_of(t), {{{v, ""}}, {{w, ""}}});
            }
            unchanged("", command);
        } else {
            string n = g.pick(set_names);
            command = "print dataset " + n;
            command = "print pretty " + n + " limit 2";
            bool ok = s.run(command);
            pbt::check(ok == (bool) sets.count(n), ok ? "history:accepted_print" : "history:refused_print", command + ": " + pbt::quote(s.err));
            unchanged("", command);
        }
        g.note(command);
    }
    g.label(pbt::str(trainings, " trainings"));
    g.is_nontrivial = trainings > 0 && used_after;
}
