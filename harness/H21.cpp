// H21: a saved model loads back identical and intact
#include "ml/happyml_dsl.hpp"
#include "pbt.hpp"
#include "nets.hpp"

using namespace happyml;
using namespace nets;

static const string repo = "repo21";
typedef map<string, string> Files; // path below the folder -> bytes

static void reset() {
    filesystem::remove_all(repo);
    filesystem::create_directories(repo);
}

static Files snapshot(const string &folder) {
    Files r;
    if (!filesystem::exists(folder)) return r;
    for (auto &e: filesystem::recursive_directory_iterator(folder)) {
        string p = filesystem::relative(e.path(), folder).string();
        if (e.is_directory()) r[p + "/"] = "";
        else {
            ifstream f(e.path(), ios::binary);
            r[p] = string(istreambuf_iterator<char>(f), istreambuf_iterator<char>());
        }
    }
    return r;
}

static string difference(const Files &a, const Files &b) {
    for (auto &[n, c]: a) {
        auto i = b.find(n);
        if (i == b.end()) return n + " is missing";
        if (i->second != c) {
            if (n.find(".config") == string::npos) return n + " differs";
            return n + " is " + pbt::quote(i->second.substr(0, 500)) + " instead of " + pbt::quote(c.substr(0, 500));
        }
    }
    for (auto &x: b) if (!a.count(x.first)) return x.first + " is extra";
    return "";
}

static Files below(const Files &f, const string &folder) { // folder without '/'
    Files r;
    for (auto &[n, c]: f) if (n.size() > folder.size() + 1 && n.substr(0, folder.size() + 1) == folder + "/") r[n.substr(folder.size() + 1)] = c;
    return r;
}

struct Quiet {
    stringstream o, e;
    streambuf *co, *ce;
    Quiet() : co(cout.rdbuf(o.rdbuf())), ce(cerr.rdbuf(e.rdbuf())) {}
    ~Quiet() { cout.rdbuf(co); cerr.rdbuf(ce); }
};

static vector<vector<float>> predictions(const shared_ptr<NeuralNetworkForTraining> &n, const vector<vector<Val>> &inputs) {
    vector<vector<float>> r;
    for (auto &in: inputs) {
        vector<float> all;
        try {
            for (auto &t: n->predict(tensors(in))) {
                for (auto d: {t->rowCount(), t->columnCount(), t->channelCount()}) all.push_back((float) d);
                for (size_t k = 0; k < t->channelCount(); k++) for (size_t i = 0; i < t->rowCount(); i++) for (size_t j = 0; j < t->columnCount(); j++)
                    all.push_back(t->getValue(i, j, k));
            }
        } catch (const exception &) { all = {-12345.f}; } // values that overflow are refused
        r.push_back(all);
    }
    return r;
}

static bool equal(float a, float b) { return a == b || (a != a && b != b); }

static void same_predictions(const vector<vector<float>> &a, const vector<vector<float>> &b, const string &key, const string &what) {
    for (size_t i = 0; i < a.size(); i++) {
        pbt::check(a[i].size() == b[i].size(), key, what + ": the prediction has another shape");
        for (size_t k = 0; k < a[i].size(); k++)
            pbt::check(equal(a[i][k], b[i][k]), key, pbt::str(what, ": input ", i, " gives ", b[i][k], " instead of ", a[i][k], " at ", k));
    }
}

static Spec make_spec(Gen &g, int max_vertices = 5, bool training = false) {
    Options o;
    o.bits = true;
    o.clip = true;
    o.training = training;
    o.dead_ends = true;
    o.max_vertices = max_vertices;
    Spec s = gen_spec(g, o);
    s.optimizer = g.pick({OptimizerType::sgd, OptimizerType::sgdm, OptimizerType::adam, OptimizerType::adam_with_decaying_momentum, OptimizerType::sgdm_with_decaying_momentum});
    auto rate = [&] { return g.flip() ? g.pick({0.1f, 0.005f, 0.001f, 0.02f}) : (float) (1e-4 + g.unit() * 0.3); };
    s.lr = rate();
    s.blr = rate();
    return s;
}

static void some_params(Gen &g, const Spec &s, const shared_ptr<NeuralNetworkForTraining> &n, const string &name) {
    Params p = gen_params(g, s);
    n->saveKnowledge("mine", true);
    write_params(p, repo + "/" + name + "/mine");
    n->loadKnowledge("mine");
    n->removeKnowledge("mine");
}

static bool train(const shared_ptr<NeuralNetworkForTraining> &n, const vector<Record> &rs, int batch, int epochs) {
    n->setExitStrategy(make_shared<DefaultExitStrategy>(100, NINETY_DAYS_MS, epochs, 0.f, 0.f, epochs, 1e9f));
    try { n->train(data_set(rs), batch, TrainingRetentionPolicy::last); } catch (const exception &) { return false; }
    return true;
}

PBT_PROP(roundtrip, 9000, 400000, "the network has at least two vertices and some parameters, and its parameters are not the initial ones") {
    bool trainable = g.chance(1, 3);
    Spec s = make_spec(g, g.chance(1, 6) ? 12 : 5, trainable);
    labels(g, s);
    g.note(s.text());
    reset();
    auto n = build(s, "net", repo);
    bool changed = g.chance(4, 5);
    if (changed) some_params(g, s, n, "net");
    vector<Record> rs;
    if (trainable) {
        rs = gen_records(g, s, g.size(1, 4), 1.f);
        if (g.flip()) {
            int batch = g.size(1, (int) rs.size()), epochs = g.size(1, 2);
            g.note("trained with ", rs.size(), " records in batches of ", batch, " for ", epochs, " epochs");
            if (!train(n, rs, batch, epochs)) g.discard();
            g.label("trained before");
        }
    }
    g.is_nontrivial = changed && s.v.size() > 1 && !param_shapes(s).empty();
    vector<vector<Val>> inputs;
    for (int i = g.size(1, 3); i > 0; i--) inputs.push_back(gen_inputs(g, s, 3.f));
    auto want = predictions(n, inputs);
    bool elsewhere = g.flip();
    Files saved;
    shared_ptr<NeuralNetworkForTraining> m;
    {
        Quiet q;
        string name = elsewhere ? "other" : "net";
        if (elsewhere) n->saveAs(repo + "/other", g.flip());
        else n->saveWithOverwrite();
        same_predictions(want, predictions(n, inputs), "roundtrip:saving", "saving changed the network");
        saved = snapshot(repo + "/" + name);
        pbt::check(saved.count("model.config") && saved.count("default/"), "roundtrip:files", "the saved folder has no model.config or no knowledge");
        int times = g.size(1, 2);
        for (int k = 0; k < times; k++) {
            try { m = loadNeuralNetworkForTraining(name, repo); }
            catch (const exception &e) { pbt::fail("roundtrip:refused", string("a saved model can't be loaded: ") + e.what()); }
            string d = difference(saved, snapshot(repo + "/" + name));
            pbt::check(d.empty(), "roundtrip:loading", "loading changed the files: " + d);
            m->setSilentMode(true);
            pbt::check(m->get_name() == name, "roundtrip:name", "the loaded model has the name " + m->get_name());
            same_predictions(want, predictions(m, inputs), "roundtrip:prediction", "the loaded model");
            m->saveAs(repo + "/again" + to_string(k), true);
            d = difference(saved, snapshot(repo + "/again" + to_string(k)));
            pbt::check(d.empty(), "roundtrip:configuration", "the loaded model saves other files: " + d);
        }
    }
    pbt::check(m->getOptimizer()->getLearningRate() == s.lr && m->getOptimizer()->getBiasLearningRate() == s.blr, "roundtrip:rates",
               pbt::str("the loaded model has the learning rates ", m->getOptimizer()->getLearningRate(), " ", m->getOptimizer()->getBiasLearningRate(), " instead of ", s.lr, " ", s.blr));
    if (rs.empty()) return;
    // both go on learning the same way, as long as the optimizer had nothing to remember
    auto fresh = loadNeuralNetworkForTraining(elsewhere ? "other" : "net", repo);
    fresh->setSilentMode(true);
    auto twin = build(s, elsewhere ? "other" : "net", repo);
    twin->loadKnowledge("default");
    int batch = g.size(1, (int) rs.size());
    unsigned long dice = pbt_env::rd_state; // the same order of the records for both
    bool a = train(twin, rs, batch, 1);
    pbt_env::rd_state = dice;
    bool b = train(fresh, rs, batch, 1);
    g.label("trained after");
    pbt::check(a == b, "roundtrip:training", "only one of the built and the loaded model can be trained");
    if (a) same_predictions(predictions(twin, inputs), predictions(fresh, inputs), "roundtrip:training", "after the same training the loaded model");
}

PBT_PROP(history, 3500, 150000, "at least two saves, one of them to a place that was used") {
    reset();
    pbt_env::clock_step_ns = g.pick({0ul, 1000ul, 700000ul, 5000000ul});
    const vector<string> names{"one", "two"};
    vector<Spec> specs;
    vector<shared_ptr<NeuralNetworkForTraining>> nets_;
    vector<string> where;
    int count = g.size(1, 3);
    for (int i = 0; i < count; i++) {
        specs.push_back(make_spec(g, 3));
        where.push_back(g.pick(names));
        g.note("network ", i, " named ", where.back(), ": ", specs.back().text());
        nets_.push_back(build(specs.back(), where.back(), repo));
    }
    Quiet q;
    int saves = 0, reused = 0;
    int steps = g.size(2, 8);
    for (int k = 0; k < steps; k++) {
        int i = (int) g.draw(count);
        auto &n = nets_[i];
        if (g.flip()) some_params(g, specs[i], n, where[i]);
        // what a complete save has
        n->saveAs(repo + "/scratch", true);
        Files full = snapshot(repo + "/scratch");
        filesystem::remove_all(repo + "/scratch");
        set<string> tensors_wanted;
        for (auto &x: param_shapes(specs[i])) tensors_wanted.insert("default/" + x.first + ".tensor");
        for (auto &t: tensors_wanted) pbt::check(full.count(t), "history:complete", "a saved model has no " + t);
        Files before = snapshot(repo);
        bool overwrite = g.flip();
        int what = (int) g.draw(4);
        string target, label;
        if (what == 0) { target = where[i]; g.note("network ", i, overwrite ? " saved with overwrite" : " saved without overwrite"); overwrite ? n->saveWithOverwrite() : n->saveWithoutOverwrite(); }
        else if (what == 1) { target = g.pick({string("one"), string("two"), string("three")}); g.note("network ", i, " saved as ", target, " overwrite ", overwrite); n->saveAs(repo + "/" + target, overwrite); }
        else if (what == 2) { // knowledge only
            label = g.pick({string("default"), string("extra")});
            target = where[i] + "/" + label;
            g.note("knowledge of ", i, " saved as ", target, " overwrite ", overwrite);
            if (g.flip()) n->saveKnowledge(label, overwrite);
            else if (overwrite) n->saveKnowledgeWithOverwrite(label);
            else n->saveKnowledgeWithoutOverwrite(label);
            full = below(full, "default");
        } else {
            string name = g.pick({string("one"), string("two"), string("three"), string("none")});
            g.note("load ", name);
            bool usable = before.count(name + "/model.config") && before.count(name + "/default/");
            bool loaded = false;
            try { loadNeuralNetworkForTraining(name, repo); loaded = true; } catch (const exception &) {}
            if (!usable) pbt::check(!loaded, "history:missing", name + " has no model, but it is loaded");
            string d = difference(before, snapshot(repo));
            pbt::check(d.empty(), "history:loading", "loading changed the files: " + d);
            continue;
        }
        saves++;
        Files after = snapshot(repo);
        bool used = before.count(target + "/");
        reused += used;
        string place = target;
        if (used && !overwrite) { // a new folder that was not there
            vector<string> fresh;
            for (auto &x: after) if (!before.count(x.first) && x.first.back() == '/') {
                string f = x.first.substr(0, x.first.size() - 1);
                if (filesystem::path(f).parent_path() == filesystem::path(target).parent_path()) fresh.push_back(f);
            }
            pbt::check(fresh.size() == 1, "history:elsewhere", pbt::str("saving without overwriting made ", fresh.size(), " new folders"));
            place = fresh[0];
            pbt::check(place.substr(0, target.size()) == target, "history:elsewhere", "the new place " + place + " is not named after " + target);
        }
        string d = difference(full, below(after, place));
        pbt::check(d.empty(), "history:stored", "the model saved in " + place + " is not complete: " + d);
        // nothing else changed
        Files rest_before, rest_after;
        auto rest = [&](const Files &all) { Files r; for (auto &x: all) if (x.first.substr(0, place.size() + 1) != place + "/" && x.first != where[i] + "/") r.insert(x); return r; };
        d = difference(rest(before), rest(after));
        pbt::check(d.empty(), "history:others", "saving to " + place + " changed something else: " + d);
    }
    g.is_nontrivial = saves > 1 && reused > 0;
    if (reused) g.label("place used again");
}

PBT_PROP(damaged, 11000, 500000, "the damaged model had parameters and the damage changed some file") {
    Spec s = make_spec(g, 4);
    reset();
    auto n = build(s, "net", repo);
    some_params(g, s, n, "net");
    vector<vector<Val>> inputs;
    for (int i = 0; i < 2; i++) inputs.push_back(gen_inputs(g, s, 3.f));
    auto want = predictions(n, inputs);
    Quiet q;
    n->saveWithOverwrite();
    Files saved = snapshot(repo + "/net");
    vector<string> tensors_there;
    for (auto &x: saved) if (x.first.find(".tensor") != string::npos) tensors_there.push_back(x.first);
    g.note(s.text());
    auto put = [&](const string &file, const string &bytes) { ofstream f(repo + "/net/" + file, ios::binary); f << bytes; };
    bool must_fail = true, separate = false; // a whole network may be lost, and what is left is complete
    // (networks that are not connected to each other are stored one after the other)
    auto lone = [](const string &line) { return line.find("\"vertex\":") == 0 && line.find(":\"true\":") < 14; };
    int what = (int) g.draw(tensors_there.empty() ? 4 : 9);
    string config = saved["model.config"];
    if (what == 0) { g.label("no configuration"); g.note("model.config removed"); filesystem::remove(repo + "/net/model.config"); }
    else if (what == 1) {
        g.label("configuration cut short");
        size_t at = g.draw(config.size());
        g.note("model.config cut after ", at, " of ", config.size(), " bytes: ", pbt::quote(config.substr(at > 60 ? at - 60 : 0, min<size_t>(at, 60))));
        put("model.config", config.substr(0, at));
        stringstream lost(config.substr(config.rfind('\n', at ? at - 1 : 0) == string::npos || !at ? 0 : config.rfind('\n', at - 1) + 1));
        for (string l; getline(lost, l);) separate |= lone(l);
        must_fail = false; // when what is left still describes the same network
    } else if (what == 2) {
        g.label("configuration line lost");
        vector<string> lines;
        stringstream in(config);
        for (string l; getline(in, l);) lines.push_back(l);
        size_t at = g.draw(lines.size());
        g.note("line ", at, " lost: ", lines[at]);
        separate = lone(lines[at]);
        lines.erase(lines.begin() + (long) at);
        string all;
        for (auto &l: lines) all += l + "\n";
        put("model.config", all);
        must_fail = false;
    } else if (what == 3) {
        g.label("foreign configuration");
        string text = g.pick({string(""), string("\n"), string("hello\n"), string("optimizer\n"), string("optimizer:Adam\n"), string("optimizer:Adam\nlearningRate:0.1\nbiasLearningRate:0.1\nloss:mse\n"),
                              string("optimizer:Adam\nlearningRate:x\nbiasLearningRate:0.1\nloss:mse\n"), string("a:b:c\nd:e:f\n"), string("optimizer:Adam\nlearningRate:0.1\nbiasLearningRate:0.1\nloss:mse\nvertex:1:true\n"),
                              string("optimizer:Nothing\n") + config.substr(config.find('\n') + 1), string("\0\1\2\3", 4), config + "vertex:99\n", config + "\nsomething:1:2\n", config + "edge:1:77\n"});
        g.note("model.config is ", pbt::quote(text));
        put("model.config", text);
    } else {
        string file = g.pick(tensors_there), bytes = saved[file];
        if (what == 4) { g.label("tensor removed"); g.note(file, " removed"); filesystem::remove(repo + "/net/" + file); }
        else if (what == 5) { g.label("tensor cut short"); size_t at = g.draw(bytes.size()); g.note(file, " cut after ", at, " of ", bytes.size()); put(file, bytes.substr(0, at)); }
        else if (what == 6) {
            g.label("tensor of another shape");
            Val v;
            vector<size_t> old{0, 0, 0};
            string name = file.substr(8, file.size() - 8 - 7);
            auto shape = param_shapes(s).at(name);
            Shape other = shape;
            for (auto &d: other) if (g.flip()) d = (size_t) g.size(1, 5);
            if (other == shape) other[1]++;
            Val x(other);
            for (auto &e: x.v) e = 0.5;
            g.note(file, " is a tensor of shape ", other[0], "x", other[1], "x", other[2], " instead of ", shape[0], "x", shape[1], "x", shape[2]);
            tensor(x)->save(repo + "/net/" + file);
        } else if (what == 7) {
            g.label("foreign tensor");
            string junk((size_t) g.size(0, 60), 0);
            for (auto &c: junk) c = (char) g.draw(256);
            if (g.flip()) { // an honest header with absurd sizes
                junk = bytes;
                for (int i = g.size(1, 3); i > 0; i--) junk[g.draw(min<size_t>(24, junk.size()))] = (char) (g.draw(255) + 1);
            } else if (g.flip()) junk = bytes + "x";
            if (junk == bytes) g.discard();
            uint64_t h[3] = {0, 0, 0}, h0[3];
            memcpy(h0, bytes.data(), 24);
            if (junk.size() >= 24) memcpy(h, junk.data(), 24);
            if (junk.size() == bytes.size() && !memcmp(h, h0, 24)) g.discard();
            g.note(file, " is something else of ", junk.size(), " bytes");
            put(file, junk);
        } else { g.label("no knowledge"); g.note("the knowledge is gone"); filesystem::remove_all(repo + "/net/default"); }
    }
    g.is_nontrivial = !tensors_there.empty();
    Files damaged_files = snapshot(repo + "/net");
    shared_ptr<NeuralNetworkForTraining> m;
    try { m = loadNeuralNetworkForTraining("net", repo); } catch (const exception &) {}
    string d = difference(damaged_files, snapshot(repo + "/net"));
    pbt::check(d.empty(), "damaged:loading", "loading changed the files: " + d);
    if (!m) return;
    pbt::check(!must_fail, "damaged:accepted", "a damaged model is loaded");
    m->setSilentMode(true);
    if (separate) return;
    vector<vector<float>> got;
    if (s.heads().size() > 1) {
        auto count = [&](const shared_ptr<NeuralNetworkForTraining> &k) { try { return k->predict(tensors(inputs[0])).size(); } catch (const exception &) { return (size_t) 0; } };
        if (count(m) && count(m) < count(n)) return;
    }
    try { got = predictions(m, inputs); } catch (const exception &) {}
    same_predictions(want, got, "damaged:silent", "a damaged model is loaded as another network");
}
