// H10: a created data set holds the rows of its source file
#include "ml/happyml_dsl.hpp"
#include "lang/statements/create_dataset_statement.hpp"
#include "lang/statements/print_statement.hpp"
#include "pbt.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;

struct Group {
    char kind;               // N, L, I
    bool given;
    size_t start, r, c, ch;
    string name;
    size_t width() const { return r * c * ch; }
    vector<double> pool;     // the numbers that occur, well apart from each other
    vector<string> labels;
    double apart = 1;
};

struct Capture {
    stringstream out;
    streambuf *old;
    Capture() : old(cout.rdbuf(out.rdbuf())) {}
    ~Capture() { cout.rdbuf(old); }
};

static string number_text(Gen &g, double v) {
    char b[64];
    if (v == 0 && g.chance(1, 5)) return "";
    switch (g.draw(4)) {
        case 0: snprintf(b, sizeof b, "%.3f", v); break;
        case 1: snprintf(b, sizeof b, "%.9e", v); break;
        default: snprintf(b, sizeof b, "%.9g", v);
    }
    return b;
}

static string field(Gen &g, const string &s, char delim) {
    bool quote = s.find(delim) != string::npos || s.find('"') != string::npos || s.find('\n') != string::npos || g.chance(1, 6);
    string r = s;
    if (quote) {
        r = "\"";
        for (char c: s) { if (c == '"') r += '"'; r += c; }
        r += "\"";
    }
    if (g.chance(1, 8)) r = " " + r;
    if (g.chance(1, 8)) r += " ";
    return r;
}

struct Table {
    vector<Group> groups;    // by position
    size_t width = 0;
    vector<vector<string>> rows; // cells, unquoted
    vector<vector<vector<int>>> codes; // row, group -> which of the pool each cell is
};

static Table gen_table(Gen &g, bool simple) {
    Table t;
    size_t n = g.size(1, 5), at = 0;
    for (size_t i = 0; i < n; i++) {
        Group x;
        at += g.chance(1, 4) ? g.size(1, 2) : 0; // columns that are not used
        x.kind = simple ? g.pick({'N', 'L'}) : g.pick({'N', 'N', 'L', 'L', 'I'});
        x.given = i == 0 || g.chance(2, 3);
        x.r = x.kind == 'L' || simple || g.chance(1, 2) ? 1 : g.size(1, 3);
        x.c = x.kind == 'L' || g.chance(1, 2) ? 1 : g.size(1, 3);
        x.ch = x.kind == 'L' || simple || g.chance(2, 3) ? 1 : g.size(1, 2);
        x.start = at;
        at += x.width();
        x.name = pbt::str(g.pick({string("col"), string("Value"), string("x")}), i);
        size_t k = g.size(1, 6);
        if (x.kind == 'N') {
            double offset = g.pick({0.0, 0.0, -50.0, 1000.0, 0.5}), step = x.apart = g.pick({0.25, 1.0, 7.0, 125.0});
            for (size_t j = 0; j < k; j++) x.pool.push_back(offset + step * (double) j);
        } else if (x.kind == 'I') {
            x.pool = {0, 255, 100, 180, 31};
            x.apart = 20;
        } else {
            vector<string> all{"a", "b", "yes", "no", "A", "x y", "", "0", "1", "1.0", "it's", "q\"q"};
            if (!simple) for (auto &s: {string("p,q"), string("l\nm"), string("\xc3\xa9"), string("tab\tbed"), string("<d>"), string("|")}) all.push_back(s);
            g.shuffle(all);
            x.labels.assign(all.begin(), all.begin() + (long) k);
        }
        t.groups.push_back(x);
    }
    if (!any_of(t.groups.begin(), t.groups.end(), [](const Group &x) { return x.given; })) t.groups[0].given = true;
    t.width = at + (g.chance(1, 4) ? 1 : 0);
    size_t rows = g.size(1, 14);
    for (size_t i = 0; i < rows; i++) {
        vector<string> cells(t.width);
        for (auto &c: cells) c = g.pick({string("unused"), string("1"), string("u,v"), string("-")});
        vector<vector<int>> code;
        bool again = !t.codes.empty() && g.chance(1, 4);
        size_t from = again ? g.draw(t.codes.size()) : 0;
        for (size_t j = 0; j < t.groups.size(); j++) {
            auto &x = t.groups[j];
            vector<int> cc;
            for (size_t k = 0; k < x.width(); k++) {
                int v = again && (x.given || g.flip()) ? t.codes[from][j][k] : (int) g.draw(x.kind == 'L' ? x.labels.size() : x.pool.size());
                cc.push_back(v);
                cells[x.start + k] = x.kind == 'L' ? x.labels[(size_t) v] : number_text(g, x.pool[(size_t) v]);
            }
            code.push_back(cc);
        }
        t.codes.push_back(code);
        t.rows.push_back(cells);
    }
    return t;
}

static string text_of(Gen &g, const Table &t, const vector<size_t> &order, char delim, bool header) {
    string s, nl = g.chance(1, 8) ? "\r\n" : "\n";
    if (header) {
        for (size_t i = 0; i < t.width; i++) s += pbt::str(i ? string(1, delim) : "", "h", i);
        s += nl;
    }
    for (size_t n = 0; n < order.size(); n++) {
        auto &row = t.rows[order[n]];
        string line;
        for (size_t i = 0; i < row.size(); i++) line += (i ? string(1, delim) : "") + field(g, row[i], delim);
        if (line.find_first_not_of(" \r") == string::npos) line = "\"\"" ; // not an empty line
        s += line + (n + 1 < order.size() || g.chance(3, 4) ? nl : "");
    }
    return s;
}

static vector<shared_ptr<ColumnGroup>> declared(Gen &g, const Table &t) {
    vector<shared_ptr<ColumnGroup>> r;
    size_t id = 1;
    for (auto &x: t.groups) r.push_back(make_shared<ColumnGroup>(id++, x.start, x.width(), x.given ? "given" : "expected", x.kind == 'N' ? "number" : x.kind == 'L' ? "label" : "image", x.name, x.r, x.c, x.ch));
    g.shuffle(r);
    return r;
}

// the record's cells by the pool of the column
static vector<int> decode(const Group &x, shared_ptr<BaseTensor> t, const shared_ptr<BinaryColumnMetadata> &m) {
    pbt::check(m->name == x.name, "column_name", pbt::str("column ", m->name, " instead of ", x.name));
    char purpose = x.kind;
    pbt::check(m->purpose == purpose, "column_type", pbt::str("column ", x.name, " is of type ", m->purpose));
    if (x.kind == 'L') {
        size_t hot = 0, at = 0;
        pbt::check(t->rowCount() == 1 && t->channelCount() == 1 && t->columnCount() == m->ordered_labels.size(), "label_shape");
        for (size_t j = 0; j < t->columnCount(); j++) {
            float v = t->getValue(0, j, 0);
            pbt::check(v == 0 || v == 1, "label_code", pbt::str("a label is encoded with ", v));
            if (v == 1) { hot++; at = j; }
        }
        pbt::check(hot == 1, "label_code", pbt::str(hot, " positions are set for a label"));
        for (size_t k = 0; k < x.labels.size(); k++) if (x.labels[k] == m->ordered_labels[at]) return {(int) k};
        pbt::fail("label", pbt::str("column ", x.name, " holds the label ", pbt::quote(m->ordered_labels[at]), ", which the source does not"));
    }
    pbt::check(t->rowCount() == x.r && t->columnCount() == x.c && t->channelCount() == x.ch, "column_shape", pbt::str("column ", x.name));
    if (x.kind == 'N') unstandardize_and_denormalize(t, m);
    vector<int> r;
    for (size_t k = 0; k < x.ch; k++) for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++) {
        double v = t->getValue(i, j, k);
        if (x.kind == 'I') v *= 255;
        int best = 0;
        for (size_t p = 0; p < x.pool.size(); p++) if (fabs(x.pool[p] - v) < fabs(x.pool[(size_t) best] - v)) best = (int) p;
        double off = fabs(x.pool[(size_t) best] - v), tol = x.kind == 'I' ? 1.001 : 1e-5 * (fabs(x.pool.back()) + fabs(x.pool[0]) + x.apart);
        if (!(off <= tol)) pbt::fail(x.kind == 'I' ? "pixel" : "number", pbt::str("column ", x.name, " at ", i, ",", j, ",", k, " holds ", v, ", nearest source value ", x.pool[(size_t) best]));
        r.push_back(best);
    }
    return r;
}

typedef map<vector<vector<int>>, vector<vector<int>>> Records;

static Records read_back(const Table &t, const string &name) {
    BinaryDatasetReader r(ExecutionContext::get_dataset_path(name) + "/dataset.bin");
    vector<const Group *> gs, es;
    for (auto &x: t.groups) (x.given ? gs : es).push_back(&x);
    pbt::check(r.get_given_column_count() == gs.size() && r.get_expected_column_count() == es.size(), "columns");
    Records out;
    for (auto *x: gs) (void) x;
    for (int s = 0; s < 2; s++) for (size_t c = 0; c < (s ? es : gs).size(); c++) {
        auto m = s ? r.get_expected_metadata(c) : r.get_given_metadata(c);
        if (m->purpose != 'L') continue;
        set<string> distinct(m->ordered_labels.begin(), m->ordered_labels.end());
        pbt::check(distinct.size() == m->ordered_labels.size(), "label_repeated", "two codes for the same label");
        set<string> want;
        const Group &x = *(s ? es : gs)[c];
        size_t at = (size_t) (&x - &t.groups[0]);
        for (auto &row: t.codes) want.insert(x.labels[(size_t) row[at][0]]);
        pbt::check(distinct == want, "labels", pbt::str("column ", x.name, " records ", distinct.size(), " labels, the source has ", want.size()));
    }
    for (size_t i = 0; i < r.rowCount(); i++) {
        auto row = r.readRow(i);
        vector<vector<int>> a, b;
        for (size_t c = 0; c < gs.size(); c++) a.push_back(decode(*gs[c], row.first[c], r.get_given_metadata(c)));
        for (size_t c = 0; c < es.size(); c++) b.push_back(decode(*es[c], row.second[c], r.get_expected_metadata(c)));
        pbt::check(out.emplace(a, b).second, "record_twice", "two records have the same inputs");
    }
    pbt::check(out.size() == r.rowCount(), "count");
    return out;
}

static void check_printed(Gen &g, const Table &t, const Records &records, const string &name) {
    int limit = g.chance(1, 3) ? (int) g.size(0, records.size() + 1) : -1;
    auto context = make_shared<ExecutionContext>();
    string text;
    {
        Capture cap;
        PrintStatement p(name, false, limit);
        auto res = p.execute(context);
        pbt::check(res->isSuccessful(), "print_failed");
        text = cap.out.str();
    }
    size_t expect = limit < 0 ? records.size() : min(records.size(), (size_t) limit);
    vector<vector<string>> lines;
    stringstream ss(text);
    string line;
    while (getline(ss, line)) {
        vector<string> cells;
        string cell;
        stringstream ls(line);
        while (getline(ls, cell, '|')) cells.push_back(strip(cell));
        if (!line.empty() && line.back() == '|') cells.push_back("");
        if (cells.empty()) cells.push_back("");
        lines.push_back(cells);
    }
    pbt::check(lines.size() == (expect ? expect + 1 : 0), "printed_rows", pbt::str(lines.size(), " lines printed for ", expect, " records and a header"));
    if (!expect) return;
    vector<const Group *> order;
    for (auto &x: t.groups) if (!x.given) order.push_back(&x);
    size_t ne = order.size();
    for (auto &x: t.groups) if (x.given) order.push_back(&x);
    for (auto &l: lines) pbt::check(l.size() == order.size(), "printed_cells", pbt::str(l.size(), " cells printed for ", order.size(), " columns: ", pbt::quote(text.substr(0, 300))));
    for (size_t c = 0; c < order.size(); c++) pbt::check(lines[0][c] == order[c]->name, "printed_header", pbt::str("header ", lines[0][c], " instead of ", order[c]->name));
    set<vector<vector<int>>> seen;
    for (size_t i = 1; i < lines.size(); i++) {
        vector<vector<int>> a, b;
        for (size_t c = 0; c < order.size(); c++) {
            auto &x = *order[c];
            vector<int> code;
            if (x.kind == 'L') {
                for (size_t k = 0; k < x.labels.size(); k++) if (x.labels[k] == lines[i][c]) code = {(int) k};
                if (code.empty()) pbt::fail("printed_label", pbt::str("printed ", pbt::quote(lines[i][c])));
            } else {
                stringstream cs(lines[i][c]);
                string part;
                while (getline(cs, part, ',')) {
                    double v = atof(part.c_str());
                    int best = 0;
                    for (size_t p = 0; p < x.pool.size(); p++) if (fabs(x.pool[p] - v) < fabs(x.pool[(size_t) best] - v)) best = (int) p;
                    pbt::check(fabs(x.pool[(size_t) best] - v) <= 0.00051 + 1e-5 * (fabs(x.pool.back()) + fabs(x.pool[0]) + x.apart), "printed_number", pbt::str("printed ", pbt::quote(part), ", nearest source value ", x.pool[(size_t) best]));
                    code.push_back(best);
                }
                pbt::check(code.size() == x.width(), "printed_numbers", pbt::quote(lines[i][c]));
            }
            (c < ne ? b : a).push_back(code);
        }
        auto it = records.find(a);
        pbt::check(it != records.end() && it->second == b, "printed_record", pbt::str("the printed record is not in the data set: ", pbt::quote(text.substr(0, 300))));
        pbt::check(seen.insert(a).second, "printed_twice");
    }
}

static shared_ptr<ExecutionResult> create(const string &name, const string &url, bool header, const vector<shared_ptr<ColumnGroup>> &groups, bool verbose, string *message = nullptr) {
    CreateDatasetStatement s(name, url, header, groups, verbose);
    Capture quiet;
    if (!message) return s.execute(make_shared<ExecutionContext>());
    try { return s.execute(make_shared<ExecutionContext>()); }
    catch (const runtime_error &e) { *message = e.what(); return nullptr; }
}

static void fresh_repository() { filesystem::remove_all("../happyml_repo"); }

PBT_PROP(created, 36000, 150000, "three or more source rows, two or more columns, and a duplicate or a column of labels") {
    fresh_repository();
    bool simple = g.chance(2, 3);
    Table t = gen_table(g, simple);
    bool tsv = g.chance(1, 4), header = g.flip();
    char delim = tsv ? '\t' : ',';
    vector<size_t> order;
    for (size_t i = 0; i < t.rows.size(); i++) order.push_back(i);
    string dir = pbt::case_dir() + (g.chance(1, 6) ? "/with.dot" : "");
    filesystem::create_directories(dir);
    string path = dir + "/source" + (tsv ? ".tsv" : ".csv"), text = text_of(g, t, order, delim, header);
    ofstream(path, ios::binary) << text;
    if (tsv) ofstream(dir + "/source.csv") << "mine\n";
    g.note(t.groups.size(), " columns, ", t.rows.size(), " rows ", pbt::quote(text.substr(0, 500)));
    for (auto &x: t.groups) g.note(x.name, ": ", x.kind, x.given ? " given" : " expected", " at ", x.start, " ", x.r, "x", x.c, "x", x.ch);
    map<vector<vector<int>>, set<vector<vector<int>>>> want;
    for (auto &code: t.codes) {
        vector<vector<int>> a, b;
        for (size_t j = 0; j < t.groups.size(); j++) (t.groups[j].given ? a : b).push_back(code[j]);
        want[a].insert(b);
    }
    g.is_nontrivial = t.rows.size() > 2 && t.groups.size() > 1 && (want.size() < t.rows.size() || any_of(t.groups.begin(), t.groups.end(), [](const Group &x) { return x.kind == 'L'; }));
    auto res = create("d", "file://" + path, header, declared(g, t), g.flip());
    pbt::check(res->isSuccessful(), "create_failed", res->getMessage());
    pbt::check(ExecutionContext::dataset_exists("d"), "not_there");
    Records got = read_back(t, "d");
    for (auto &[a, b]: got) {
        auto it = want.find(a);
        pbt::check(it != want.end(), "foreign_record", "a record has inputs that no source row has");
        pbt::check(it->second.count(b), "foreign_outputs", "a record has outputs that no source row with its inputs has");
    }
    pbt::check(got.size() == want.size(), "record_count", pbt::str(got.size(), " records for ", want.size(), " distinct inputs"));
    pbt::check(pbt::read_file_text(path, 10000000) == text, "source_changed", "the source file was changed");
    if (tsv) pbt::check(pbt::read_file_text(dir + "/source.csv", 100) == "mine\n", "other_file_changed", "another file was changed");
    size_t files = 0;
    for (auto &e: filesystem::directory_iterator(dir)) { (void) e; files++; }
    pbt::check(files == (tsv ? 2 : 1), "left_behind", "files were left beside the source");
    if (simple) check_printed(g, t, got, "d");
    // the order of the source rows does not matter
    g.shuffle(order);
    string text2 = text_of(g, t, order, ',', false);
    ofstream(dir + "/again.csv", ios::binary) << text2;
    res = create("e", "file://" + dir + "/again.csv", false, declared(g, t), false);
    pbt::check(res->isSuccessful(), "create_failed", res->getMessage());
    Records other = read_back(t, "e");
    pbt::check(other == got, "order_matters", "the records depend on the order of the source rows");
}

PBT_PROP(refused, 24000, 100000, "a defect in a source or declaration that has two or more rows and columns") {
    fresh_repository();
    Table t = gen_table(g, g.flip());
    string dir = pbt::case_dir(), path = dir + "/source.csv";
    vector<size_t> order;
    for (size_t i = 0; i < t.rows.size(); i++) order.push_back(i);
    auto groups = declared(g, t);
    vector<shared_ptr<ColumnGroup>> bad;
    for (auto &x: groups) bad.push_back(make_shared<ColumnGroup>(x));
    Table broken = t;
    string url = "file://" + path;
    bool header = g.flip(), empty = false;
    int what = (int) g.draw(10);
    switch (what) {
        case 0: url = "file://" + dir + "/missing.csv"; break;
        case 1: { // a short row
            auto &row = broken.rows[g.draw(broken.rows.size())];
            row.resize(t.groups.back().start + t.groups.back().width() - 1);
            if (row.empty()) g.discard();
            break;
        }
        case 2: { // not a number
            vector<size_t> nums;
            for (size_t j = 0; j < t.groups.size(); j++) if (t.groups[j].kind != 'L') nums.push_back(j);
            if (nums.empty()) g.discard();
            auto &x = t.groups[g.pick(nums)];
            broken.rows[g.draw(broken.rows.size())][x.start + g.draw(x.width())] = g.pick({string("abc"), string("1x"), string("1 2"), string("--1"), string("1.5.2"), string("0x10"), string("+-2"), string("1e")});
            break;
        }
        case 3: { // overlapping columns
            auto x = make_shared<ColumnGroup>(g.pick(bad));
            x->label_ = "overlap";
            if (g.flip() && x->source_column_count_ > 1) {
                x->start_index_ += x->source_column_count_ - 1;
            }
            x->use_ = g.pick({string("given"), string("expected")});
            bad.insert(bad.begin() + (long) g.draw(bad.size() + 1), x);
            break;
        }
        case 4: for (auto &x: bad) x->use_ = "expected"; break;
        case 5: g.pick(bad)->data_type_ = g.pick({string("float"), string(""), string("Label"), string("text")}); break;
        case 6: g.pick(bad)->use_ = g.pick({string("Given"), string(""), string("header")}); break;
        case 7: bad.clear(); break;
        case 8: url = g.pick({"https://" + path, path, "file://" + dir + "/source.xls"}); ofstream(dir + "/source.xls") << "1,2,3,4,5,6,7,8,9,1,2,3,4,5\n"; break;
        default: empty = true;
    }
    string text = empty ? (header ? "h\n" : "") : text_of(g, broken, order, ',', header);
    ofstream(path, ios::binary) << text;
    g.note("defect ", what, " ", pbt::quote(text.substr(0, 300)));
    g.is_nontrivial = t.rows.size() > 1 && t.groups.size() > 1;
    string message;
    auto res = create("d", url, header, bad, false, &message);
    pbt::check(!res || !res->isSuccessful(), "not_refused", pbt::str("defect ", what, " was not refused"));
    pbt::check(!(res ? res->getMessage() : message).empty(), "no_message");
    pbt::check(!ExecutionContext::dataset_exists("d"), "usable", "a data set exists after its creation failed");
    // and it can be created properly afterwards
    text = text_of(g, t, order, ',', header);
    ofstream(path, ios::binary | ios::trunc) << text;
    res = create("d", "file://" + path, header, groups, false);
    pbt::check(res->isSuccessful(), "create_failed", res->getMessage());
    Records got = read_back(t, "d");
    string before = pbt::read_file_text(ExecutionContext::get_dataset_path("d") + "/dataset.bin", 100000000);
    // creating it again leaves it as it is
    Table u = gen_table(g, true);
    order.clear();
    for (size_t i = 0; i < u.rows.size(); i++) order.push_back(i);
    ofstream(path, ios::binary | ios::trunc) << text_of(g, u, order, ',', false);
    create("d", "file://" + path, false, declared(g, u), false, &message);
    pbt::check(pbt::read_file_text(ExecutionContext::get_dataset_path("d") + "/dataset.bin", 100000000) == before, "changed", "creating a data set again changed the existing one");
}


// ---- plain text is cut into records at blanks
PBT_PROP(plain_text, 60000, 600000, "a text of three or more words that makes two or more records") {
    string dir = pbt::case_dir(), path = dir + "/a.txt", out = dir + "/a.csv", text;
    size_t limit = g.pick({1, 5, 10, 20, 40});
    for (size_t n = g.size(0, 30); n > 0; n--) {
        for (size_t k = g.size(g.chance(1, 8) ? 0 : 1, g.chance(1, 10) ? 30 : 6); k > 0; k--) text += (char) g.pick({'a', 'b', 'c', 'd', 'z', 'x', '.', ',', '\'', '\xc3', '\n'});
        if (g.chance(1, 6)) text += 'a' + string("\"") + 'b'; // no field is enclosed in quotes: those would not be part of it
        if (g.chance(1, 4)) text += g.pick({".", ".'", ".)", "..."});
        if (n > 1 || g.chance(1, 4)) text += g.chance(1, 10) ? "  " : " ";
    }
    ofstream(path, ios::binary) << text;
    auto words = [](const string &s) { stringstream in(s); vector<string> r; string w; while (in >> w) r.push_back(w); return r; };
    g.note("limit ", limit, " ", pbt::quote(text));
    pbt::check(convert_txt_to_csv(path, out, (int) limit), "conversion_failed");
    pbt::check(pbt::read_file_text(path, 100000) == text, "text_changed");
    DelimitedTextFileReader r(out, ',', false);
    vector<string> got;
    size_t cells = 0;
    while (r.hasNext()) {
        auto rec = r.nextRecord();
        pbt::check(rec.size() == 1, "fields", pbt::str(rec.size(), " fields in a record"));
        auto w = words(rec[0]);
        pbt::check(rec[0].size() <= limit || rec[0].find(' ', 1) == string::npos || w.size() < 2, "too_long", pbt::quote(rec[0]));
        got.insert(got.end(), w.begin(), w.end());
        cells++;
    }
    auto want = words(text);
    g.is_nontrivial = want.size() > 2 && cells > 1;
    pbt::check(got == want, "words", pbt::str("the records hold ", pbt::quote(pbt::join(got, " ")), " instead of ", pbt::quote(pbt::join(want, " "))));
    pbt::check(!text.empty() || cells == 0, "records_of_nothing");
    pbt::check(!convert_txt_to_csv(dir + "/none.txt", out, (int) limit), "missing_accepted");
}
