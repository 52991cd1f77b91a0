// H13: prefix lookup structures and text/collection helpers agree with their plain definitions
#include <chrono>
#include <map>
#include <set>
#include "types/trie.hpp"
#include "util/data_util.hpp"
#include "util/lru_cache.h"
#include "pbt.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;

static string word(Gen &g, size_t max) {
    static const string few = "ab", some = "abcdeABC ", odd{"\x00\x7f\x80\xff\n a", 7};
    const string &a = *g.pick({&few, &few, &some, &odd});
    string s;
    for (size_t n = g.size(0, max); n > 0; n--) s += a[g.draw(a.size())];
    return s;
}

PBT_PROP(trie, 160000, 1600000, "three or more words with a shared prefix, and a value replaced or a longer word found") {
    Trie t;
    map<string, string> model;
    set<string> prefixes; // none before the first word but the empty one
    size_t ops = g.size(1, 40);
    bool replaced = false, completed = false;
    vector<string> known;
    auto some = [&](size_t extra) {
        string w = known.empty() || g.chance(1, 3) ? word(g, 8) : g.pick(known);
        if (extra && g.flip()) w = w.substr(0, g.draw(w.size() + 1));
        if (g.chance(1, 4)) w += word(g, 2);
        return w;
    };
    for (size_t i = 0; i < ops; i++) {
        if (g.chance(2, 5)) {
            string w = some(g.draw(2)), v = g.chance(1, 8) ? "" : pbt::str("v", i);
            g.note("insert ", pbt::quote(w), "=", v);
            replaced = replaced || model.count(w);
            t.insert(w, v);
            model[w] = v;
            known.push_back(w);
            for (size_t k = 0; k <= w.size(); k++) prefixes.insert(w.substr(0, k));
        } else {
            string w = some(1);
            g.note("look up ", pbt::quote(w));
            bool in = model.count(w), pre = prefixes.count(w) || w.empty();
            pbt::check(t.search(w) == in, "search", pbt::str(pbt::quote(w), in ? " is not found" : " is found"));
            pbt::check(t.match(w) == in, "match", pbt::str(pbt::quote(w), in ? " is not matched" : " is matched"));
            pbt::check(t.startsWith(w) == pre, "startsWith", pbt::quote(w));
            pbt::check(t.lookup(w) == (in ? model[w] : ""), "lookup", pbt::str(pbt::quote(w), " has value ", t.lookup(w)));
            string c = t.complete(w);
            if (!pre) pbt::check(c.empty(), "complete_unknown", pbt::str(pbt::quote(w), " is completed to ", pbt::quote(c)));
            else {
                size_t longest = w.size();
                for (auto &[k, v]: model) if (k.compare(0, w.size(), w) == 0) longest = max(longest, k.size());
                pbt::check(c.size() == longest && c.compare(0, w.size(), w) == 0 && (model.count(c) || c == w), "complete", pbt::str(pbt::quote(w), " is completed to ", pbt::quote(c), ", longest is of ", longest));
                completed = completed || longest > w.size();
            }
        }
    }
    for (auto &[k, v]: model) {
        pbt::check(t.search(k) && t.match(k), "word_lost", pbt::quote(k));
        pbt::check(t.lookup(k) == v, "value_lost", pbt::str(pbt::quote(k), " has value ", t.lookup(k), " instead of ", v));
    }
    // a copy is the same tree
    Trie copy = t;
    for (auto &[k, v]: model) pbt::check(copy.lookup(k) == v, "copy");
    g.is_nontrivial = model.size() > 2 && prefixes.size() < [&] { size_t n = 1; for (auto &[k, v]: model) n += k.size(); return n; }() && (replaced || completed);
}

template<typename S>
static S plain_replace(const S &text, const S &from, const S &to, size_t &times) {
    S r;
    times = 0;
    for (size_t i = 0; i < text.size();) {
        bool hit = !from.empty() && i + from.size() <= text.size();
        for (size_t k = 0; hit && k < from.size(); k++) hit = text[i + k] == from[k];
        if (hit) { r += to; i += from.size(); times++; }
        else r += text[i++];
    }
    return r;
}

PBT_PROP(replacing, 600000, 6000000, "two or more replacements") {
    string s = word(g, 30), from, to = word(g, 4);
    if (!s.empty() && g.chance(3, 4)) from = s.substr(g.draw(s.size()), g.size(1, 3));
    else from = word(g, 3);
    if (g.chance(1, 3)) to = g.flip() ? from + from : from.substr(0, from.size() / 2);
    g.note(pbt::quote(s), ": ", pbt::quote(from), " -> ", pbt::quote(to));
    size_t times;
    string want = plain_replace(s, from, to, times), got = s;
    g.is_nontrivial = times > 1;
    string_replace_all(got, from, to);
    pbt::check(got == want, "string", pbt::str(pbt::quote(got), " instead of ", pbt::quote(want)));
    auto wide = [](const string &x) { u16string r; for (unsigned char c: x) r += (char16_t) (c * 257); return r; };
    u16string ws = wide(s), wf = wide(from), wt = wide(to), wwant = wide(want), wgot = ws, buffer = wt;
    u16string_replace_all(wgot, wf, wt);
    pbt::check(wgot == wwant, "u16string");
    u16string_replace_all_to_buffer(ws, buffer, wf, wt);
    pbt::check(buffer == wwant, "u16string_to_buffer", "the buffer's former content shows or the result differs");
    pbt::check(ws == wide(s) && wf == wide(from) && wt == wide(to), "arguments_changed");
    // putting it back
    if (!from.empty() && !to.empty() && s.find(to) == string::npos && to.size() == 1) {
        string_replace_all(got, to, from);
        pbt::check(got == s, "not_undone", pbt::str(pbt::quote(got), " instead of ", pbt::quote(s)));
    }
    unsigned want_max = 0;
    for (char16_t c: ws) if (c < 0x7FFF) want_max = max<unsigned>(want_max, c);
    pbt::check(find_max_16bit_value(ws) == want_max, "max_code", pbt::str(find_max_16bit_value(ws), " instead of ", want_max));
}

PBT_PROP(splitting, 160000, 1600000, "both parts of a split of three or more items hold some") {
    vector<string> data;
    size_t n = g.size(0, 60);
    bool repeats = g.flip();
    for (size_t i = 0; i < n; i++) data.push_back(pbt::str("d", repeats ? g.draw(5) : i));
    float ratio = g.chance(1, 4) ? g.pick({0.f, 1.f, 0.2f, 0.5f}) : (float) g.draw(1001) / 1000.f;
    vector<string> a, b, c, copy = data;
    if (g.chance(1, 4)) splitData(data, a, b), ratio = 0.2f;
    else splitData(data, a, b, ratio);
    g.note(n, " items, ratio ", ratio, ": ", a.size(), " + ", b.size());
    g.is_nontrivial = n > 2 && !a.empty() && !b.empty();
    multiset<string> all(data.begin(), data.end()), parts(a.begin(), a.end());
    parts.insert(b.begin(), b.end());
    pbt::check(parts == all, "split", "the parts do not hold every item once");
    pbt::check(fabs((double) b.size() - (double) ratio * (double) n) <= 1.0, "split_size", pbt::str(b.size(), " of ", n, " for a ratio of ", ratio));
    c = sampleData(data, ratio);
    pbt::check(fabs((double) c.size() - (double) ratio * (double) n) <= 1.0, "sample_size", pbt::str(c.size(), " of ", n, " for a ratio of ", ratio));
    multiset<string> sample(c.begin(), c.end());
    pbt::check(includes(all.begin(), all.end(), sample.begin(), sample.end()), "sample", "the sample holds an item twice or one that is not there");
    pbt::check(data == copy, "data_changed");
    // joining
    string delim = g.pick({"", ",", "--"}), want;
    for (size_t i = 0; i < n; i++) want += (i ? delim : "") + data[i];
    pbt::check(join_strings(data, delim) == want, "join", pbt::str(pbt::quote(join_strings(data, delim)), " instead of ", pbt::quote(want)));
}

PBT_PROP(lines, 40000, 400000, "two or more lines") {
    string s, want;
    size_t n = g.size(0, 8), count = 0;
    vector<string> expected;
    for (size_t i = 0; i < n; i++) {
        string l = word(g, 20);
        l.erase(remove(l.begin(), l.end(), '\n'), l.end());
        bool last = i + 1 == n, end = !last || g.chance(3, 4);
        s += l + (end ? "\n" : "");
        if (end || !l.empty()) {
            string e;
            for (unsigned char c: l) e += c < 32 || c > 126 ? (char) 254 : (char) c;
            expected.push_back(e + "\n");
            count++;
        }
    }
    g.note(pbt::quote(s));
    g.is_nontrivial = count > 1;
    string path = pbt::case_dir() + "/lines.txt";
    ofstream(path, ios::binary) << s;
    auto got = load_file_to_lines(path);
    pbt::check(got == expected, "lines", pbt::str(got.size(), " lines, ", expected.size(), " expected"));
    pbt::check(load_file_to_lines(path + ".none").empty(), "lines_of_nothing");
}

PBT_PROP(cache, 200000, 2000000, "more keys inserted than fit, some again") {
    size_t cap = g.size(1, 12), ops = g.size(1, 60), keys = g.size(1, 20);
    LruCache<size_t, bool> cache(cap);
    vector<size_t> order; // latest inserted last
    bool evicted = false, again = false;
    for (size_t i = 0; i < ops; i++) {
        size_t k = g.draw(keys);
        auto it = find(order.begin(), order.end(), k);
        if (g.chance(2, 3)) {
            g.note("insert ", k);
            if (it != order.end()) { order.erase(it); again = true; }
            order.push_back(k);
            if (order.size() > cap) { order.erase(order.begin()); evicted = true; }
            cache.insert(k, true);
            pbt::check(cache.contains(k), "inserted_lost");
        }
        for (size_t q = 0; q < keys; q++) {
            bool in = find(order.begin(), order.end(), q) != order.end();
            pbt::check(cache.contains(q) == in, "contains", pbt::str(q, in ? " was lost" : " is kept beyond the capacity"));
        }
    }
    g.is_nontrivial = evicted && again;
}
