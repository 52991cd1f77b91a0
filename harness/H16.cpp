// H16: any script is executed or rejected with a message
#include "ml/happyml_dsl.hpp"
#include "lang/interpreter.hpp"
#include "pbt.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;

struct Streams {
    stringstream out, err;
    streambuf *o, *e;
    Streams() : o(cout.rdbuf(out.rdbuf())), e(cerr.rdbuf(err.rdbuf())) {}
    ~Streams() { cout.rdbuf(o); cerr.rdbuf(e); }
};

static const string repo = "../happyml_repo/";

// ---- statements as the script spells them and as the library's own objects --------------------------------------
struct T {
    string s;
    bool kw = false;      // a keyword, any letter case
    bool complete = false; // the statement may end here
    bool needed = true;   // without it the statement is malformed
};

struct Stmt {
    vector<T> t;
    function<shared_ptr<ExecutableStatement>()> direct;
    string what;
    bool exit = false;
};

struct World {
    map<string, string> files; // name of a source file -> its text
    vector<string> names{"alpha", "Beta", "d_1", "titanic2"};
    size_t columns = 3;
};

static void reset(const World &w) {
    filesystem::remove_all(repo);
    filesystem::create_directories(repo + "datasets");
    filesystem::create_directories(repo + "tasks");
    filesystem::create_directories(repo + "raw");
    for (auto &[n, text]: w.files) ofstream(repo + "raw/" + n, ios::binary) << text;
}

static map<string, string> tree() {
    map<string, string> r;
    if (filesystem::exists(repo))
        for (auto &e: filesystem::recursive_directory_iterator(repo)) r[e.path().string()] = e.is_regular_file() ? pbt::read_file_text(e.path().string(), 1 << 20) : "/";
    return r;
}

static World gen_world(Gen &g) {
    World w;
    w.columns = g.size(1, 4);
    for (auto &n: {string("one.csv"), string("two_2.tsv"), string("Set3.csv")}) {
        if (n != "one.csv" && g.flip()) continue;
        string delim = n.find("tsv") != string::npos ? "\t" : ",", text;
        size_t rows = g.size(1, 5);
        for (size_t i = 0; i < rows; i++) {
            for (size_t c = 0; c < w.columns; c++) text += (c ? delim : "") + to_string(g.range(0, 9));
            text += "\n";
        }
        w.files[n] = text;
    }
    return w;
}

static Stmt gen_help(Gen &g) {
    Stmt s;
    string topic = g.pick({string(""), string("dataset"), string("task"), string("future"), string("datasets"), string("tasks")});
    s.t.push_back({"help", true, true, true});
    if (!topic.empty()) s.t.push_back({topic, true, true, false});
    s.direct = [=] { return topic.empty() ? make_shared<HelpStatement>() : make_shared<HelpStatement>(topic); };
    s.what = "help " + topic;
    return s;
}

static Stmt gen_print(Gen &g, const string &name) {
    Stmt s;
    bool raw = g.flip(), limited = g.flip();
    int limit = limited ? (int) g.size(0, 6) : -1;
    s.t = {{"print", true}, {raw ? "raw" : "pretty", true}, {name, false, true}};
    if (limited) { s.t.push_back({"limit", true}); s.t.push_back({to_string(limit), false, true}); }
    s.direct = [=] { return make_shared<PrintStatement>(name, raw, limit); };
    s.what = pbt::str("print ", raw ? "raw " : "pretty ", name, " limit ", limit);
    return s;
}

static Stmt gen_create(Gen &g, const World &w, const string &name) {
    Stmt s;
    s.t = {{"create", true}, {"dataset", true}, {name}};
    s.what = "create dataset " + name;
    bool header = g.flip();
    size_t n = g.size(1, min<size_t>(3, w.columns)), at = 0;
    vector<shared_ptr<ColumnGroup>> groups;
    size_t header_at = g.draw(n + 1);
    for (size_t i = 0; i <= n; i++) {
        if (header && i == header_at) { s.t.push_back({"with", true}); s.t.push_back({"header", true}); s.what += " header"; }
        if (i == n) break;
        bool given = i == 0 || g.flip();
        string type = g.pick({string("label"), string("number"), string("number"), string("image")});
        size_t left = w.columns > at ? w.columns - at : 0, dims = type == "label" || g.flip() ? 0 : 1 + g.draw(3), r = 1, c = 1, ch = 1;
        string column = g.pick({string("Speed1"), string("x"), string("col_a"), string("PetalWidthCm")}) + to_string(i);
        s.t.insert(s.t.end(), {{"with", true}, {given ? "given" : "expected", true}, {type, true}, {column}});
        if (dims) {
            size_t width = g.size(1, max<size_t>(1, left > n - i ? left - (n - i) : 1));
            vector<size_t> d{1, 1, 1};
            d[dims == 1 ? 1 : g.draw(dims)] = width;
            r = d[0], c = d[1], ch = d[2];
            s.t.push_back({"("});
            if (dims == 1) s.t.push_back({to_string(c)});
            else {
                s.t.insert(s.t.end(), {{to_string(r)}, {","}, {to_string(c)}});
                if (dims == 3) s.t.insert(s.t.end(), {{","}, {to_string(ch)}});
            }
            s.t.push_back({")"});
        }
        if (g.chance(1, 10)) at++; // may be past the end of the rows
        s.t.insert(s.t.end(), {{"at", true}, {to_string(at)}});
        groups.push_back(make_shared<ColumnGroup>(groups.size() + 1, at, r * c * ch, given ? "given" : "expected", type, column, r, c, ch));
        s.what += pbt::str(" ", given ? "given " : "expected ", type, " ", column, "(", r, ",", c, ",", ch, ")@", at);
        at += r * c * ch;
    }
    string file = g.pick({string("one.csv"), string("two_2.tsv"), string("Set3.csv"), string("missing.csv"), string("wrong.bin")});
    if (g.flip()) file = "one.csv";
    string url = "file://" + repo + "raw/" + file;
    s.t.insert(s.t.end(), {{"using", true}, {url, false, true}});
    s.what += " using " + url;
    s.direct = [=] {
        vector<shared_ptr<ColumnGroup>> copy;
        for (auto &x: groups) copy.push_back(make_shared<ColumnGroup>(x));
        return make_shared<CreateDatasetStatement>(name, url, header, copy);
    };
    return s;
}

static Stmt gen_create_task(Gen &g, const string &dataset) {
    Stmt s;
    string name = g.pick({string("predict_it"), string("T2")}), goal = g.pick({string("speed"), string("accuracy"), string("memory")}), test, type = g.pick({string("label"), string("label"), string("text")});
    s.t = {{"create", true}, {"task", true}, {type, true}, {name}};
    bool with_goal = g.flip(), with_test = g.flip(), first = g.flip();
    if (with_test) test = g.pick({string("t_set"), string("other")});
    for (int i = 0; i < 2; i++) {
        if (with_goal && (i == 0) == first) s.t.insert(s.t.end(), {{"with", true}, {"goal", true}, {goal, true}});
        if (with_test && (i == 0) != first) s.t.insert(s.t.end(), {{"with", true}, {"test", true}, {test}});
    }
    if (!with_goal) goal = "accuracy";
    s.t.insert(s.t.end(), {{"using", true}, {dataset, false, true}});
    s.direct = [=] { return make_shared<CreateTaskStatement>(type, name, goal, dataset, test); };
    s.what = pbt::str("create task ", type, " ", name, " goal ", goal, " test ", test, " using ", dataset);
    return s;
}

static Stmt gen_execute(Gen &g, const string &dataset) {
    Stmt s;
    string name = g.pick({string("predict_it"), string("T2"), string("nothing")}), label = g.flip() ? "" : "v1";
    s.t = {{"execute", true}, {"task", true}, {name}};
    if (!label.empty()) s.t.insert(s.t.end(), {{"with", true}, {"label", true}, {label}});
    s.t.push_back({"using", true});
    s.what = "execute task " + name + " label " + label;
    if (g.flip()) {
        s.t.insert(s.t.end(), {{"dataset", true}, {dataset, false, true}});
        s.what += " using dataset " + dataset;
        s.direct = [=] { return make_shared<ExecuteTaskStatement>(name, label, dataset, unordered_map<string, vector<HappyMLVariant>>()); };
        return s;
    }
    unordered_map<string, vector<HappyMLVariant>> in;
    s.t.insert(s.t.end(), {{"input", true}, {"("}});
    size_t n = g.size(0, 4);
    for (size_t i = 0; i < n; i++) {
        if (i) s.t.push_back({",", false, false, false});
        string key = g.pick({string("Age"), string("sex"), string("Key_1"), string("x y"), string("it\"s")}), low = key;
        if (g.chance(3, 4)) key += to_string(i);
        low = key;
        for (char &c: low) c = (char) tolower(c);
        auto quoted = [&](const string &v) {
            char q = g.flip() ? '"' : '\'';
            string r(1, q);
            for (char c: v) { if (c == q) r += '\\'; r += c; }
            return r + q;
        };
        bool word = key.find_first_of(" \"") == string::npos;
        s.t.push_back({word && g.flip() ? key : quoted(key)});
        s.t.push_back({":"});
        vector<HappyMLVariant> values;
        auto one = [&] {
            switch (g.draw(3)) {
                case 0: {
                    string d = g.pick({string("0"), string("7"), string("5.25"), string("1000000"), string(".5"), string("12."), string("3.14159")});
                    s.t.push_back({d, false, false, false});
                    values.push_back(HappyMLVariant(stof(d)));
                    break;
                }
                case 1: {
                    string v = g.pick({string("female"), string("S"), string("w_9"), string("Zed")});
                    s.t.push_back({v, false, false, false});
                    values.push_back(HappyMLVariant(v));
                    break;
                }
                default: {
                    string v = g.pick({string(""), string("a b"), string("q\"q"), string("it's"), string("# no"), string("back\\slash"), string("print raw"), string("l1\nl2"), string("\"\"''")});
                    s.t.push_back({quoted(v), false, false, false});
                    values.push_back(HappyMLVariant(v));
                }
            }
        };
        if (g.flip()) { one(); s.t.back().needed = n > 1 || true; }
        else {
            s.t.push_back({"["});
            size_t k = g.size(0, 4);
            for (size_t j = 0; j < k; j++) {
                if (j) s.t.push_back({",", false, false, false});
                one();
            }
            s.t.push_back({"]"});
        }
        in[low] = values;
        s.what += " " + low + ":";
        for (auto &v: values) s.what += v.to_string() + ",";
    }
    s.t.push_back({")", false, true});
    s.direct = [=] { return make_shared<ExecuteTaskStatement>(name, label, "", in); };
    return s;
}

static Stmt gen_exit() {
    Stmt s;
    s.t = {{"exit", true, true}};
    s.direct = [] { return make_shared<ExitStatement>(); };
    s.what = "exit";
    s.exit = true;
    return s;
}

static Stmt gen_stmt(Gen &g, const World &w) {
    string name = g.pick(w.names);
    switch (g.draw(12)) {
        case 0: case 1: return gen_help(g);
        case 2: case 3: case 4: case 5: return gen_create(g, w, name);
        case 6: case 7: case 8: return gen_print(g, name);
        case 9: return g.chance(1, 3) ? gen_exit() : gen_create_task(g, "no_such_set");
        case 10: return gen_execute(g, name);
        default: return g.chance(1, 4) ? gen_exit() : gen_print(g, name);
    }
}

// ---- rendering ---------------------------------------------------------------------------------------------------
static bool wordy(char c) { return isalnum((unsigned char) c) || c == '_' || c == '.'; }

static string render(Gen &g, const vector<T> &t, bool plain, bool cli) {
    string r;
    for (size_t i = 0; i < t.size(); i++) {
        string s = t[i].s, gap;
        if (t[i].kw && !plain && g.chance(1, 3)) for (char &c: s) if (g.flip()) c = (char) toupper(c);
        bool apart = i && wordy(t[i - 1].s.back()) && wordy(s[0]);
        bool url = i && t[i - 1].s.find("://") != string::npos; // a place would swallow what follows it
        if (plain) gap = i ? " " : "";
        else if (i || !cli)
            switch (g.draw(7)) {
                case 0: gap = "  "; break;
                case 1: gap = cli ? " \\\n" : "\n"; break;
                case 2: gap = cli ? "\\\n\t" : "\t\r\n "; break;
                case 3: gap = cli ? "\t" : " # with " + g.pick({string("comment"), string("(x, y)")}) + "\n"; break;
                case 4: gap = apart || url ? " " : ""; break;
                default: gap = i ? " " : "";
            }
        if ((apart || url) && gap.empty()) gap = " ";
        if (cli) for (char &c: s) if (c == '\n') c = ' ';
        r += gap + s;
    }
    return r;
}

struct Outcome {
    string out, err;
    bool failed = false, threw = false, exit = false;
};

static Outcome run_direct(const shared_ptr<ExecutionContext> &context, const vector<Stmt> &statements) {
    Outcome o;
    Streams st;
    string message;
    for (auto &s: statements) {
        try {
            auto r = s.direct()->execute(context);
            o.exit = r->exitRequested();
            if (!r->isSuccessful()) { o.failed = true; message = r->getMessage() + "\n"; }
        } catch (const exception &e) {
            o.failed = o.threw = true;
            message = e.what();
        }
        if (o.failed || o.exit) break;
    }
    o.out = st.out.str();
    o.err = st.err.str() + message;
    return o;
}

static multiset<string> lines_of(const string &s) {
    multiset<string> r;
    stringstream in(s);
    string l;
    while (getline(in, l)) r.insert(l);
    return r;
}

static shared_ptr<Parser> &parser() { static auto p = initializeHappymlParser(); return p; }

static void compare(const Outcome &want, const string &out, const string &err, bool done, const string &text) {
    string about = pbt::str("\nscript: ", pbt::quote(text.substr(0, 1500)), "\nexpected output ", pbt::quote(want.out.substr(0, 1500)), "\nexpected error ", pbt::quote(want.err), "\nprinted ", pbt::quote(out.substr(0, 1500)), "\nreported ", pbt::quote(err));
    pbt::check(done == want.exit, "exit", pbt::str(done ? "ended the session" : "did not end the session", about));
    if (want.failed) pbt::check(!err.empty(), "silent_failure", "a statement failed and nothing was reported" + about);
    else pbt::check(err.empty(), "reported", "an error was reported for a script that is right" + about);
    pbt::check(out == want.out, "output", "other output" + about);
    if (want.failed && !want.threw) pbt::check(lines_of(err) == lines_of(want.err), "message", "other message" + about);
    if (want.threw) pbt::check(err.find(want.err.substr(want.err.find_last_of('\n', want.err.size() - 2) + 1)) != string::npos, "message", "other message" + about);
}

PBT_PROP(meaning, 14000, 200000, "three or more statements written with other blanks, comments or letter case, one of which creates or fails") {
    World w = gen_world(g);
    vector<Stmt> statements;
    size_t n = g.size(1, 6);
    for (size_t i = 0; i < n; i++) statements.push_back(gen_stmt(g, w));
    for (auto &s: statements) g.note(s.what);
    int mode = (int) g.draw(4); // one text, a text per statement, a file, the prompt
    bool plain = g.chance(1, 6);
    g.label(pbt::str("mode ", mode));

    // commands: which statements are interpreted together
    vector<vector<Stmt>> commands;
    for (auto &s: statements) {
        if (commands.empty() || mode == 1 || (mode == 3 && g.chance(2, 3))) commands.push_back({});
        Stmt c = s;
        commands.back().push_back(c);
    }
    if (mode == 3) // a line cannot hold a line break in a string
        for (auto &c: commands) for (auto &s: c) for (auto &t: s.t) if (t.s.find('\n') != string::npos) mode = 1;
    if (mode == 1 && commands.size() != statements.size()) { commands.clear(); for (auto &s: statements) commands.push_back({s}); }

    reset(w);
    vector<Outcome> want;
    auto context = make_shared<ExecutionContext>();
    for (auto &c: commands) {
        want.push_back(run_direct(context, c));
        if (want.back().exit) break;
    }
    auto want_tree = tree();

    vector<string> texts;
    for (auto &c: commands) {
        vector<T> all;
        for (auto &s: c) all.insert(all.end(), s.t.begin(), s.t.end());
        string r = render(g, all, plain, mode == 3);
        if (!plain && mode != 3 && g.flip()) r += g.pick({string("\n"), string(" "), string("\n# the end"), string("\r\n\t")});
        texts.push_back(r);
        g.note(pbt::quote(r));
    }
    reset(w);
    InterpreterSession session(parser());
    bool fails = false, creates = false;
    if (mode == 0 || mode == 1) {
        for (size_t i = 0; i < want.size(); i++) {
            Streams st;
            bool done = session.interpretCommands(texts[i], "test");
            compare(want[i], st.out.str(), st.err.str(), done, texts[i]);
        }
    } else if (mode == 2) {
        string path = repo + "raw/script.happyml";
        ofstream(path, ios::binary) << texts[0];
        Streams st;
        bool done = session.interpretFile(path);
        filesystem::remove(path);
        compare(want[0], st.out.str(), st.err.str(), done, texts[0]);
    } else {
        string in, expected;
        Outcome all;
        for (size_t i = 0; i < texts.size(); i++) {
            if (g.chance(1, 5)) { in += "\n"; if (i < want.size()) expected += "> "; }
            in += texts[i] + "\n";
            if (i >= want.size()) continue;
            expected += want[i].out + (want[i].exit ? "" : "> ");
            all.err += want[i].err + (want[i].threw ? "\n" : "");
            all.failed |= want[i].failed;
        }
        Streams st;
        stringstream typed(in);
        streambuf *old = cin.rdbuf(typed.rdbuf());
        cin.clear();
        try { session.interactiveInterpret(); } catch (...) { cin.rdbuf(old); throw; }
        cin.rdbuf(old);
        string out = st.out.str(), about = pbt::str("\ntyped ", pbt::quote(in), "\nexpected ", pbt::quote(expected.substr(0, 1500)), "\nprinted ", pbt::quote(out.substr(0, 1800)), "\nreported ", pbt::quote(st.err.str()));
        pbt::check(out.size() >= expected.size() && out.substr(out.size() - expected.size()) == expected && out.substr(0, out.size() - expected.size()).find("READY\n> ") != string::npos, "output", "other output" + about);
        pbt::check(st.err.str().empty() == !all.failed, all.failed ? "silent_failure" : "reported", about);
    }
    auto got_tree = tree();
    for (auto &[p, text]: want_tree) {
        pbt::check(got_tree.count(p), "file_missing", p + " was not made");
        pbt::check(got_tree[p] == text, "file_differs", p + " holds something else");
    }
    for (auto &[p, text]: got_tree) pbt::check(want_tree.count(p), "file_extra", p + " was made as well");
    for (auto &o: want) fails |= o.failed;
    for (auto &s: statements) creates |= s.what.rfind("create dataset", 0) == 0;
    for (auto &o: want) g.label(o.threw ? "threw" : o.failed ? "failed" : o.exit ? "exit" : "done");
    for (auto &[p, t]: want_tree) if (p.find("dataset.bin") != string::npos) g.label("data set made");
    g.is_nontrivial = n >= 3 && !plain && (fails || creates);
}

// what a session answers to help after something else went on
static void still_usable(InterpreterSession &session, const string &after) {
    Streams want_st;
    HelpStatement("task").execute(nullptr);
    string want = want_st.out.str();
    Streams st;
    bool done = session.interpretCommands("help task", "again");
    pbt::check(!done && st.out.str() == want && st.err.str().empty(), "session", "the session does not answer any more after " + pbt::quote(after));
}

PBT_PROP(malformed, 40000, 800000, "a statement behind another that lacks a part or ends early") {
    World w;
    w.columns = 3;
    w.files["one.csv"] = "1,2,3\n4,5,6\n";
    size_t n = g.size(1, 3);
    vector<Stmt> st;
    for (size_t i = 0; i < n; i++) {
        Stmt s;
        do s = gen_stmt(g, w); while (s.exit && i + 1 < n && g.chance(1, 2));
        st.push_back(s);
    }
    size_t k = g.draw(n);
    auto &victim = st[k].t;
    int how = (int) g.draw(3);
    // a bare help takes whatever comes next for its topic
    if (k > 0 && st[k - 1].what == "help ") g.discard();
    if (how == 2 && victim[0].s == "help") how = 0;
    if (how == 0) { // the text ends early
        size_t cut = 1 + g.draw(victim.size());
        if (cut >= victim.size()) cut = victim.size() - 1;
        if (cut == 0 || victim[cut - 1].complete) g.discard();
        victim.resize(cut);
        st.resize(k + 1);
    } else if (how == 1) { // a part is missing
        size_t i = g.draw(victim.size());
        if (!victim[i].needed || victim[i].s.find("://") != string::npos || victim.size() == 1) g.discard();
        if (victim[i].s == "limit" || victim[i].s == "help" ) g.label("word left over");
        if (i + 1 == victim.size() && victim.size() > 1 && victim[i - 1].complete) g.discard();
        if (i + 1 == victim.size() && k + 1 < n) g.label("runs into the next");
        if (i == 0 && k > 0 && st[k - 1].t.back().s.find("://") != string::npos) g.discard(); // raw is part of a place
        victim.erase(victim.begin() + (long) i);
    } else { // something that belongs nowhere
        size_t i = g.draw(victim.size() + 1);
        string odd = g.pick({string("="), string("%"), string("("), string("]"), string(":"), string("copy"), string("starting"), string("&"), string("\"open")});
        if (victim[0].s == "execute" || (i > 0 && victim[i - 1].s.find("://") != string::npos) || (i == 0 && k > 0 && st[k - 1].t.back().s.find("://") != string::npos)) { if (odd != "&" && odd != "=" && odd != "%") g.discard(); }
        if (odd == "\"open") { for (auto &s: st) for (auto &t: s.t) if (t.s.find('"') != string::npos || t.s.find('\'') != string::npos) g.discard(); }
        if (odd == "(" && (victim[0].s == "create")) g.discard();
        victim.insert(victim.begin() + (long) i, T{odd});
    }
    vector<T> all;
    for (auto &s: st) all.insert(all.end(), s.t.begin(), s.t.end());
    string text = render(g, all, false, false);
    g.note(pbt::quote(text));
    reset(w);
    auto before = tree();
    InterpreterSession session(parser());
    {
        Streams s;
        bool done = session.interpretCommands(text, "test");
        string about = pbt::str("\nscript: ", pbt::quote(text), "\nprinted ", pbt::quote(s.out.str().substr(0, 1500)), "\nreported ", pbt::quote(s.err.str()));
        pbt::check(!s.err.str().empty(), "accepted", "a malformed script was accepted" + about);
        pbt::check(!done && s.out.str().empty(), "executed", "part of a malformed script was executed" + about);
    }
    pbt::check(tree() == before, "changed", "a malformed script changed the stored files");
    still_usable(session, text);
    g.label(pbt::str("how ", how));
    g.is_nontrivial = st.size() > 1;
}

PBT_PROP(anything, 50000, 1200000, "text of five or more words or signs, some of them keywords") {
    World w = gen_world(g);
    string text;
    int how = (int) g.draw(4);
    size_t keywords = 0, parts = 0;
    if (how == 0) { // characters
        for (size_t n = g.size(0, 40); n > 0; n--) text += g.chance(1, 8) ? (char) g.draw(256) : (char) g.range(32, 126), parts++;
    } else if (how == 1) { // words that scripts are made of
        for (size_t n = g.size(0, 25); n > 0; n--) {
            static const vector<string> words{"create", "dataset", "task", "execute", "print", "help", "exit", "using", "with", "given", "expected", "label", "number", "image", "text", "header", "at", "input", "limit", "raw", "pretty", "goal", "test", "accuracy", "future",
                                              "alpha", "d_1", "no_such_set", "x", "(", ")", "[", "]", ",", ":", "/", "\\", ".", "=", "%", "_", "0", "1", "2", "3.5", "99999999999", "123456789012345678901234567890123456789012345678901234567890", "\"s\"", "'t'", "\"", "#c\n", "file://../happyml_repo/raw/one.csv", "file", "://", "-1"};
            string x = g.pick(words);
            if (isalpha((unsigned char) x[0])) keywords++;
            parts++;
            text += x + g.pick({string(" "), string(" "), string(""), string("\n")});
        }
    } else { // a script with something changed
        vector<T> all;
        for (size_t n = g.size(1, 3); n > 0; n--) { auto s = gen_stmt(g, w); all.insert(all.end(), s.t.begin(), s.t.end()); }
        if (how == 2)
            for (size_t n = g.size(1, 3); n > 0 && !all.empty(); n--) {
                size_t i = g.draw(all.size()), j = g.draw(all.size());
                switch (g.draw(4)) {
                    case 0: all.erase(all.begin() + (long) i); break;
                    case 1: swap(all[i], all[j]); break;
                    case 2: all.insert(all.begin() + (long) i, all[j]); break;
                    default: if (isdigit((unsigned char) all[i].s[0])) all[i].s = g.pick({string("0"), string("4294967295"), string("4294967296"), string("2147483647"), string("100000"), string("."), string("1.9"), string("99999999999999999999")}); else all[i].s = all[j].s;
                }
            }
        text = render(g, all, false, false);
        keywords = parts = all.size();
        if (how == 3)
            for (size_t n = g.size(1, 3); n > 0 && !text.empty(); n--) {
                size_t i = g.draw(text.size());
                switch (g.draw(4)) {
                    case 0: text.erase(i, 1 + g.draw(3)); break;
                    case 1: text.resize(i); break;
                    case 2: text[i] = (char) g.draw(256); break;
                    default: text.insert(i, 1, "\"'\\#.:/([])_ \n0a"[g.draw(16)]);
                }
            }
    }
    g.label(pbt::str("how ", how));
    // nothing that could train a model, nothing outside the scratch folder
    string low = text;
    for (char &c: low) c = (char) tolower(c);
    if (low.find("create") != string::npos && low.find("task") != string::npos) w.files.clear();
    g.note(pbt::quote(text));
    reset(w);
    InterpreterSession session(parser());
    bool failed = false;
    {
        Streams s;
        bool done = session.interpretCommands(text, "test");
        failed = !s.err.str().empty();
        if (done) pbt::check(low.find("exit") != string::npos && !failed, "exit", "ended the session: " + pbt::quote(text));
        if (failed) pbt::check(s.err.str().find_first_not_of(" \n") != string::npos, "silent_failure", "an empty message");
    }
    still_usable(session, text);
    {
        Streams s; // and it can still make a data set
        ofstream(repo + "raw/fresh.csv") << "1,a\n2,b\n";
        bool done = session.interpretCommands("create dataset fresh with given number n at 0 with expected label l at 1 using file://../happyml_repo/raw/fresh.csv", "again");
        pbt::check(!done && s.err.str().empty() && ExecutionContext::dataset_exists("fresh"), "session", "cannot create a data set any more after " + pbt::quote(text));
    }
    g.label(failed ? "refused" : "accepted");
    g.is_nontrivial = parts >= 5 && keywords > 0;
}
