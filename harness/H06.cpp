// H06: delimited text survives writing and reading
#include "ml/happyml_dsl.hpp"
#include "util/file_writer.hpp"
#include "util/file_reader.hpp"
#include "pbt.hpp"

using namespace happyml;
using pbt::Gen;

static string ref_strip(const string &s, const string &keep = "") {
    size_t a = 0, b = s.size();
    auto sp = [&](unsigned char c) { return (c == ' ' || (c >= 9 && c <= 13)) && keep.find((char) c) == string::npos; };
    while (a < b && sp((unsigned char) s[a])) a++;
    while (b > a && sp((unsigned char) s[b - 1])) b--;
    return s.substr(a, b - a);
}

// blanks around a field and one pair of enclosing quotes are not part of it; within the quotes a blank that has to be
// written as an escape mark (the line break, a blank delimiter) is
static string ref_field(const string &s, char delim) {
    string t = ref_strip(s);
    if (t.size() > 1 && t.front() == '"' && t.back() == '"') t = ref_strip(t.substr(1, t.size() - 2), string("\n") + delim);
    return t;
}

static string gen_field(Gen &g, char delim, bool marks = true) {
    static const vector<string> pieces = {"a", "b", "Z", "1", "2", ".", "-", " ", "e", "\"", "\"\"", ",", "\t", ":", ";", "|", "\xc3\xa9", "\xff", "'", "\\", "\r", "inf", "nan", "0x1", "+"};
    static const vector<string> marked = {"<", "_", "~", "D", "N", ">", "<~D>", "<~N>", "<_<", "<__", "\n"};
    switch (g.draw(6)) {
        case 0: return pbt::str(g.range(-50, 1000));
        case 1: return pbt::str(g.value(1000));
        case 2: return g.pick({string(""), string(" "), string("\""), string("\"\""), string("1,2"), string("12 abc"), string("1e5x"), string("-"), string("3.5.6"), string("1 2"), string("\"1\",\"2\""), string("5\""), string("nan,1"), string("007"), string("1e999")});
        default: {
            string s;
            size_t n = g.size(0, 8);
            for (size_t i = 0; i < n; i++) {
                if (g.chance(1, 5)) s += delim;
                else if (marks && g.chance(1, 4)) s += g.pick(marked);
                else s += g.pick(pieces);
            }
            return s;
        }
    }
}

static char gen_delim(Gen &g) { return g.pick({',', '\t', ':', ';', '|'}); }

PBT_PROP(table, 80000, 800000, "a field holds the delimiter, a quote, an escape mark or a line break") {
    string dir = pbt::case_dir(), path = dir + "/t.txt";
    char delim = gen_delim(g);
    size_t rows = g.size(0, 8);
    vector<vector<string>> in, want;
    for (size_t i = 0; i < rows; i++) {
        vector<string> r, w;
        size_t cols = g.size(1, 6);
        for (size_t j = 0; j < cols; j++) {
            string f = gen_field(g, delim);
            r.push_back(f);
            w.push_back(ref_field(f, delim));
            if (f.find(delim) != string::npos || f.find_first_of("\"<\n") != string::npos) g.nontrivial();
            if (f.find(delim) != string::npos) g.label("delimiter inside a field");
            if (f.find('"') != string::npos) g.label("quote inside a field");
            if (f.find('\n') != string::npos) g.label("line break inside a field");
            g.note("row ", i, " field ", j, " ", pbt::quote(f));
        }
        in.push_back(r);
        want.push_back(w);
    }
    g.note("delimiter ", pbt::quote(string(1, delim)));
    {
        DelimitedTextFileWriter w(path, delim);
        pbt::check(w.is_open(), "open", "the writer did not open its file");
        for (auto &r: in) w.writeRecord(r);
        w.close();
    }
    DelimitedTextFileReader rd(path, delim);
    for (size_t i = 0; i < rows; i++) {
        pbt::check(rd.hasNext(), "missing", pbt::str("record ", i, " of ", rows, " is missing"));
        auto got = rd.nextRecord();
        pbt::check(got.size() == want[i].size(), "field_count", pbt::str("record ", i, " has ", got.size(), " fields instead of ", want[i].size()));
        for (size_t j = 0; j < got.size(); j++)
            if (got[j] != want[i][j]) pbt::fail("field", pbt::str("record ", i, " field ", j, ": wrote ", pbt::quote(in[i][j]), ", read ", pbt::quote(got[j]), " instead of ", pbt::quote(want[i][j])));
    }
    pbt::check(!rd.hasNext(), "extra", "there is more to read after the last record");
}

// what other programs write: any field may be quoted, quotes doubled, line breaks inside quotes
PBT_PROP(foreign, 80000, 800000, "a quoted field holds the delimiter, a quote or a line break") {
    string dir = pbt::case_dir(), path = dir + "/t.csv";
    char delim = gen_delim(g);
    size_t rows = g.size(1, 7);
    bool header = g.flip(), crlf = g.chance(1, 4), final_newline = g.chance(3, 4);
    string text;
    vector<vector<string>> want;
    string eol = crlf ? "\r\n" : "\n";
    if (header) text += "some" + string(1, delim) + "header" + eol;
    for (size_t i = 0; i < rows; i++) {
        vector<string> w;
        size_t cols = g.size(1, 5);
        for (size_t j = 0; j < cols; j++) {
            string f = gen_field(g, delim, false);
            if (g.chance(1, 8)) f += "\nnext";
            f.erase(remove(f.begin(), f.end(), '\r'), f.end());
            bool q = f.find_first_of(string("\"\n") + delim) != string::npos || g.flip();
            if (i + 1 == rows && cols == 1 && f.empty() && !final_newline) q = true;
            if (j) text += delim;
            if (q) {
                text += '"';
                for (char c: f) text += c == '"' ? string("\"\"") : string(1, c);
                text += '"';
                if (f.find_first_of(string("\"\n") + delim) != string::npos) g.nontrivial();
            } else text += f;
            w.push_back(ref_strip(f));
        }
        text += i + 1 < rows || final_newline ? eol : "";
        want.push_back(w);
    }
    g.note(pbt::quote(text), " delimiter ", pbt::quote(string(1, delim)), header ? " after a header" : "");
    if (crlf) g.label("CR LF");
    if (!final_newline) g.label("no final line break");
    ofstream(path, ios::binary) << text;
    DelimitedTextFileReader rd(path, delim, header);
    for (size_t i = 0; i < rows; i++) {
        pbt::check(rd.hasNext(), "missing", pbt::str("record ", i, " of ", rows, " is missing"));
        auto got = rd.nextRecord();
        pbt::check(got.size() == want[i].size(), "field_count", pbt::str("record ", i, " has ", got.size(), " fields instead of ", want[i].size()));
        for (size_t j = 0; j < got.size(); j++)
            if (got[j] != want[i][j]) pbt::fail("field", pbt::str("record ", i, " field ", j, " read as ", pbt::quote(got[j]), " instead of ", pbt::quote(want[i][j])));
    }
    pbt::check(!rd.hasNext(), "extra", "there is more to read after the last record");
}

PBT_PROP(encoding, 500000, 8000000, "text with the delimiter, a line break or an escape mark") {
    char delim = gen_delim(g);
    string s;
    size_t n = g.size(0, 12);
    for (size_t i = 0; i < n; i++) s += g.chance(1, 5) ? string(1, delim) : g.pick({string("<"), string("_"), string("~"), string("D"), string("N"), string(">"), string("<~D>"), string("<~N>"), string("<_<"), string("<_"), string("\n"), string("x"), string(" "), string("\xe2\x82\xac")});
    g.note(pbt::quote(s));
    g.is_nontrivial = s.find(delim) != string::npos || s.find_first_of("<\n") != string::npos;
    string e = TextEncoderDecoder::encodeString(s, delim);
    pbt::check(e.find(delim) == string::npos && e.find('\n') == string::npos, "separable", "the encoded text holds the delimiter or a line break: " + pbt::quote(e));
    string d = TextEncoderDecoder::decodeString(e, delim);
    pbt::check(d == s, "roundtrip", pbt::str(pbt::quote(s), " encodes to ", pbt::quote(e), " and decodes to ", pbt::quote(d)));
    // joining encoded fields with the delimiter and splitting again gives the fields
    vector<string> fields;
    size_t k = g.size(1, 4);
    string line;
    for (size_t i = 0; i < k; i++) {
        string f = gen_field(g, delim);
        fields.push_back(f);
        line += (i ? string(1, delim) : "") + TextEncoderDecoder::encodeString(f, delim);
    }
    vector<string> back;
    string cur;
    for (char c: line) {
        if (c == delim) {
            back.push_back(TextEncoderDecoder::decodeString(cur, delim));
            cur.clear();
        } else cur += c;
    }
    back.push_back(TextEncoderDecoder::decodeString(cur, delim));
    pbt::check(back == fields, "line", "splitting an encoded line does not give the fields back");
    // text without any escape mark is itself
    string plain;
    for (size_t i = 0; i < n; i++) plain += g.pick({'a', '_', '~', 'D', 'N', '>', '"', ' ', '-'});
    if (plain.find(delim) == string::npos) pbt::check(TextEncoderDecoder::decodeString(plain, delim) == plain && TextEncoderDecoder::encodeString(plain, delim) == plain, "plain", "plain text was changed: " + pbt::quote(plain));
    // a single opening mark followed by something that is no escape is itself
    string odd = string("x<") + g.pick({string("a"), string("_a"), string("~a"), string("~Dx"), string("~Nx"), string("~"), string("_"), string("")}) + (g.flip() ? "tail" : "");
    if (odd.find(delim) == string::npos) pbt::check(TextEncoderDecoder::decodeString(odd, delim) == odd, "foreign_mark", pbt::str(pbt::quote(odd), " was read as ", pbt::quote(TextEncoderDecoder::decodeString(odd, delim))));
}

PBT_PROP(lines, 40000, 500000, "more than one file, or an empty line or file") {
    string dir = pbt::case_dir() + "/in";
    filesystem::create_directories(dir);
    bool folder = g.flip(), header = g.chance(1, 3);
    size_t files = folder ? g.size(0, 5) : 1;
    vector<vector<string>> want;
    for (size_t f = 0; f < files; f++) {
        string path = dir + "/" + g.pick({string("a"), string("z"), string("M"), string("0")}) + to_string(f) + ".txt";
        size_t n = g.size(0, 6);
        string text;
        vector<string> lines;
        for (size_t i = 0; i < n; i++) {
            string l = g.chance(1, 5) ? "" : pbt::str("f", f, "l", i, g.pick({string(""), string(" "), string("\t,\"x"), string("\r"), string("\xff\x01")}));
            if (l.empty()) {
                g.label("empty line");
                g.nontrivial();
            }
            lines.push_back(l);
        }
        bool own = g.flip();
        if (own) {
            TextLineFileWriter w(path);
            for (auto &l: lines) w.writeLine(l);
        } else {
            for (size_t i = 0; i < n; i++) text += lines[i] + (i + 1 < n || lines[i].empty() || g.flip() ? "\n" : "");
            ofstream(path, ios::binary) << text;
        }
        g.note(own ? "written " : "text ", path.substr(dir.size()), " ", n, " lines");
        if (n == 0) {
            g.label("empty file");
            g.nontrivial();
        }
        if (header && !lines.empty()) lines.erase(lines.begin());
        want.push_back(lines);
    }
    if (folder && g.flip()) filesystem::create_directories(dir + "/sub");
    if (files > 1) g.nontrivial();
    if (folder) g.label("folder");
    if (header) g.label("headers skipped");
    string path = dir;
    if (!folder) path = filesystem::directory_iterator(dir)->path().string();
    TextLinePathReader rd(path, header);
    vector<string> got;
    while (rd.hasNext()) {
        got.push_back(rd.nextLine());
        pbt::check(got.size() < 1000, "endless", "reading does not end");
    }
    for (int i = 0; i < 3; i++) {
        string after = rd.nextLine();
        pbt::check(after.empty() && !rd.hasNext(), "after_end", "there is something after the end: " + pbt::quote(after));
    }
    vector<size_t> order(want.size());
    iota(order.begin(), order.end(), 0);
    bool ok = false;
    do {
        vector<string> all;
        for (size_t f: order) all.insert(all.end(), want[f].begin(), want[f].end());
        ok = all == got;
    } while (!ok && next_permutation(order.begin(), order.end()));
    if (!ok) {
        size_t total = 0;
        for (auto &w: want) total += w.size();
        pbt::fail("content", pbt::str("read ", got.size(), " lines, the files hold ", total, "; not every line exactly once and in order"));
    }
    TextLinePathReader none(dir + "/none.txt");
    pbt::check(!none.hasNext() && none.nextLine().empty(), "absent_file", "a file that does not exist has lines");
}
