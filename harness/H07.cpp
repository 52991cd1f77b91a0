// H07: sorting a text file permutes its lines
#include "util/text_file_sorter.hpp"
#include "pbt.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;

static vector<string> read_lines(const string &path, bool &ends) {
    string s = pbt::read_file_text(path, 100000000);
    ends = s.empty() || s.back() == '\n';
    vector<string> r;
    string cur;
    for (char c: s) {
        if (c == '\n') {
            r.push_back(cur);
            cur.clear();
        } else cur += c;
    }
    if (!cur.empty()) r.push_back(cur);
    return r;
}

static map<string, string> listing(const string &dir) {
    map<string, string> m;
    for (auto &e: filesystem::recursive_directory_iterator(dir)) m[e.path().string().substr(dir.size())] = e.is_regular_file() ? pbt::read_file_text(e.path().string(), 100000000) : "folder";
    return m;
}

PBT_PROP(sorting, 30000, 300000, "more than one piece and more than two lines") {
    string dir = pbt::case_dir();
    bool header = g.flip(), dedupe = g.flip();
    size_t n = g.chance(1, 10) ? g.size(0, 400) : g.size(0, 30);
    int chunk = g.chance(1, 8) ? 10000 : (int) g.size(1, 12);
    if (n > 60) chunk = max(chunk, 3);
    vector<string> lines;
    int alphabet = (int) g.range(1, 6);
    for (size_t i = 0; i < n; i++) {
        string l;
        switch (g.draw(8)) {
            case 0: if (i) l = g.pick(lines); break;                         // a duplicate
            case 1: l = g.pick({string(""), string(" "), string("\r"), string("\t"), string("0")}); break;
            case 2: if (i) l = g.pick(lines) + "x"; break;                   // a longer line with the same start
            default: {
                size_t k = g.size(0, 6);
                for (size_t j = 0; j < k; j++) l += g.pick({(char) ('a' + g.draw(alphabet)), (char) ('a' + g.draw(alphabet)), (char) ('A' + g.draw(alphabet)), ' ', '"', ',', '\xc3', '\xff', '1'});
            }
        }
        lines.push_back(l);
    }
    bool newline = g.chance(3, 4), in_place = g.chance(1, 6), bare = g.chance(1, 6);
    string src = dir + "/source.txt", dst = in_place ? src : dir + "/result.txt";
    string head = g.pick({string("zz header"), string("a,b"), string("")});
    string text = header ? head + "\n" : "";
    for (size_t i = 0; i < n; i++) text += lines[i] + (i + 1 < n || newline || lines[i].empty() ? "\n" : "");
    ofstream(src, ios::binary) << text;
    string other = g.pick({string("chunk_0.txt"), string("chunk_1.txt"), string("other.txt")});
    ofstream(dir + "/" + other) << "not part of this\n";
    g.note(n, " lines in pieces of ", chunk, header ? " after a header" : "", dedupe ? ", duplicates removed" : "", in_place ? ", in place" : "", " ", pbt::quote(text.substr(0, 400)));
    g.is_nontrivial = n > 2 && n > (size_t) chunk;
    if (n > (size_t) chunk) g.label("several pieces");
    if (in_place) g.label("in place");
    if (bare) g.label("path without a folder");
    if (header) g.label("header");
    auto before = listing(dir);
    bool ok;
    if (bare) {
        filesystem::current_path(dir);
        ok = FileSorter::sort("source.txt", in_place ? "source.txt" : "result.txt", header, chunk, dedupe);
    } else ok = FileSorter::sort(src, dst, header, chunk, dedupe);
    pbt::check(ok, "failed", "sorting reported failure");
    bool ends;
    auto got = read_lines(dst, ends);
    pbt::check(ends, "last_line", "the last line of the result is not ended");
    if (header) {
        pbt::check(!got.empty() && got[0] == head, "header", "the first line is not the header");
        got.erase(got.begin());
    }
    vector<string> want;
    set<string> distinct;
    for (auto &l: lines) if (!l.empty()) { // empty lines carry no record and are dropped
        want.push_back(l);
        distinct.insert(l);
    }
    if (distinct.size() < want.size()) g.label("duplicates");
    pbt::check(is_sorted(got.begin(), got.end()), "order", "the lines are not in order");
    sort(want.begin(), want.end());
    if (dedupe) want.assign(distinct.begin(), distinct.end());
    if (got != want) pbt::fail("content", pbt::str("the result has ", got.size(), " lines instead of ", want.size(), " or other ones"));
    auto after = listing(dir);
    for (auto &f: after) pbt::check(before.count(f.first) || "/result.txt" == f.first, "left_behind", f.first + " was left behind");
    for (auto &f: before) if (!(in_place && f.first == "/source.txt")) pbt::check(after.count(f.first) && after[f.first] == f.second, "other_file", f.first + " was changed or removed");
    // a different number of pieces gives the same file
    int chunk2 = (int) g.size(1, 15);
    if (n > 60) chunk2 = max(chunk2, 3);
    ofstream(dir + "/again.txt", ios::binary) << text;
    pbt::check(FileSorter::sort(dir + "/again.txt", dir + "/result2.txt", header, chunk2, dedupe), "failed", "sorting reported failure");
    pbt::check(pbt::read_file_text(dir + "/result2.txt", 100000000) == pbt::read_file_text(dst, 100000000), "pieces", pbt::str("sorting in pieces of ", chunk2, " gives another file than in pieces of ", chunk));
}

PBT_PROP(absent, 2000, 20000, "every case") {
    string dir = pbt::case_dir();
    g.nontrivial();
    g.draw(1000);
    pbt::check(!FileSorter::sort(dir + "/none.txt", dir + "/r.txt", g.flip(), 5, g.flip()), "absent", "sorting a file that does not exist succeeded");
}
