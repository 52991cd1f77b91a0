// H12: byte-pair tokenizing is lossless and reproducible
#include "ml/happyml_dsl.hpp"
#include "ml/byte_pair_encoder.hpp"
#include "pbt.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;

typedef vector<pair<u16string, u16string>> Codes; // as reported: latest first

static string text(Gen &g, size_t max) {
    static const string few = "aab", words = "the cat on a mat. ", odd = "\x00\x01\x7f\x80\xc3\xa9\xff\n\t 'Z", abc = "abcdefgh ";
    int mode = (int) g.draw(6);
    string s;
    size_t n = g.size(0, max);
    if (mode == 4) {
        static const vector<string> w{"hello", "hell", "mars", " nice", " is", ".", "o", "\xe4\xbd\xa0"};
        for (size_t i = 0; i < n / 3 + (n > 0); i++) s += g.pick(w);
        return s;
    }
    for (size_t i = 0; i < n; i++)
        switch (mode) {
            case 0: s += few[g.draw(few.size())]; break;
            case 1: s += words[g.draw(words.size())]; break;
            case 2: s += string(odd.data(), 16)[g.draw(15)]; break;
            case 3: s += (char) g.draw(256); break;
            default: s += abc[g.draw(abc.size())];
        }
    return s;
}

static vector<string> corpus(Gen &g, size_t max, size_t longest = 14) {
    vector<string> v;
    size_t n = g.size(0, max);
    for (size_t i = 0; i < n; i++) v.push_back(!v.empty() && g.chance(1, 4) ? g.pick(v) : text(g, longest));
    return v;
}

static string show(const u16string &s) {
    vector<unsigned> v(s.begin(), s.end());
    return "[" + pbt::join(v, " ") + "]";
}

static u16string reference_encode(const string &t, const Codes &codes, uint16_t delimiter) {
    if (t.empty()) return {};
    vector<uint16_t> v{delimiter};
    for (unsigned char c: t) v.push_back(c);
    v.push_back(delimiter);
    map<uint16_t, pair<uint16_t, uint16_t>> order;
    for (auto &[from, to]: codes) order[to[0]] = {from[0], from[1]};
    for (auto &[code, p]: order) {
        vector<uint16_t> w;
        for (size_t i = 0; i < v.size(); i++) {
            if (i + 1 < v.size() && v[i] == p.first && v[i + 1] == p.second) { w.push_back(code); i++; }
            else w.push_back(v[i]);
        }
        v = w;
    }
    return u16string(v.begin(), v.end());
}

static map<u16string, size_t> pair_counts(BytePairEncoderModel &before, const vector<string> &data) {
    map<u16string, size_t> counts;
    for (auto &t: data) {
        u16string e = before.encode(t);
        for (size_t i = 1; i < e.size(); i++) counts[e.substr(i - 1, 2)]++;
    }
    return counts;
}

static void check_round_trip(BytePairEncoderModel &m, const string &t, uint16_t delimiter) {
    auto codes = m.getBpeCodes();
    u16string e = m.encode(t);
    string back = m.decode(e);
    pbt::check(back == t, "lossless", pbt::str(pbt::quote(t), " -> ", show(e), " -> ", pbt::quote(back)));
    pbt::check(e == reference_encode(t, codes, delimiter), "encoding", pbt::str(pbt::quote(t), " -> ", show(e), " instead of ", show(reference_encode(t, codes, delimiter))));
    set<uint16_t> known{delimiter};
    set<u16string> pairs;
    for (auto &[from, to]: codes) { known.insert(to[0]); pairs.insert(from); }
    for (size_t i = 0; i < e.size(); i++) {
        pbt::check(e[i] < 256 || known.count(e[i]), "foreign_code", pbt::str("code ", (unsigned) e[i], " is not in the vocabulary"));
        pbt::check(e[i] < m.getLargestCode(), "largest_code", pbt::str("code ", (unsigned) e[i], ", largest reported ", m.getLargestCode()));
        if (i) pbt::check(!pairs.count(e.substr(i - 1, 2)), "unmerged", "a learned pair is left in the encoding");
    }
    pbt::check(e.size() <= t.size() + (t.empty() ? 0 : 2), "longer", "the encoding is longer than the delimited text");
}

// checks what one call of train() learned on top of the codes there were
static void check_learned(const Codes &old, const Codes &now, const map<u16string, size_t> &counts, size_t min_frequency, long merges, uint16_t next, bool may_stop) {
    pbt::check(now.size() >= old.size(), "codes_lost");
    Codes fresh(now.begin(), now.begin() + (long) (now.size() - old.size()));
    pbt::check(Codes(now.begin() + (long) fresh.size(), now.end()) == old, "codes_changed", "training again changed codes learned before");
    reverse(fresh.begin(), fresh.end());
    if (merges >= 0) pbt::check(fresh.size() <= (size_t) merges, "too_many_merges", pbt::str(fresh.size(), " merges learned, at most ", merges, " asked for"));
    vector<size_t> available;
    for (auto &[p, n]: counts) if (n >= max<size_t>(min_frequency, 1)) available.push_back(n);
    sort(available.rbegin(), available.rend());
    set<u16string> seen;
    for (size_t i = 0; i < fresh.size(); i++) {
        pbt::check(fresh[i].second.size() == 1 && fresh[i].first.size() == 2, "pair_size");
        pbt::check((uint16_t) fresh[i].second[0] == next + i, "code_number", pbt::str("merge ", i, " has code ", (unsigned) fresh[i].second[0], " instead of ", next + i));
        pbt::check(fresh[i].second[0] < 0x7FFF, "reserved_code");
        auto it = counts.find(fresh[i].first);
        size_t n = it == counts.end() ? 0 : it->second;
        pbt::check(n >= max<size_t>(min_frequency, 1), "rare_pair", pbt::str("pair ", show(fresh[i].first), " occurs ", n, " times, minimum ", min_frequency));
        pbt::check(seen.insert(fresh[i].first).second, "pair_twice");
        pbt::check(n == available[i], "not_most_frequent", pbt::str("merge ", i, " of pair ", show(fresh[i].first), " occurring ", n, " times, another occurs ", available[i]));
    }
    if (!may_stop) {
        size_t want = min(available.size(), merges < 0 ? SIZE_MAX : (size_t) merges);
        if (next + want <= 0x7FFD) pbt::check(fresh.size() == want, "merges_missing", pbt::str(fresh.size(), " merges learned, ", want, " possible"));
        else pbt::check(next + fresh.size() >= 0x7FFD, "merges_missing_at_limit");
    }
}

static size_t total(BytePairEncoderModel &m, const vector<string> &data) {
    size_t n = 0;
    for (auto &t: data) n += m.encode(t).size();
    return n;
}

PBT_PROP(training, 60000, 600000, "a merge learned in each of one or more trainings and a text of three or more bytes encoded") {
    uint16_t delimiter = g.pick<uint16_t>({256, 256, 256, 256, 300, 0x7FF0, 0x7FFB, 0x7FFC});
    BytePairEncoderModel m("m", false, delimiter);
    pbt::check(m.getDelimiter() == u16string(1, delimiter) && m.getLargestCode() == delimiter + 1, "fresh_model");
    size_t rounds = g.size(1, 3);
    vector<string> all;
    bool each = true;
    for (size_t r = 0; r < rounds; r++) {
        vector<string> data = corpus(g, g.pick({4, 12, 40}));
        int patience = g.chance(1, 5) ? (int) g.range(0, 4) : -1;
        size_t min_frequency = g.chance(1, 2) ? 2 : g.size(0, 5);
        int merges = g.chance(1, 2) ? -1 : (int) g.size(0, 12);
        g.note("train ", data.size(), " texts, patience ", patience, " min ", min_frequency, " merges ", merges);
        for (size_t i = 0; i < min<size_t>(data.size(), 6); i++) g.note(pbt::quote(data[i]));
        Codes old = m.getBpeCodes();
        auto counts = pair_counts(m, data);
        size_t before = total(m, data);
        uint16_t next = m.getLargestCode();
        BytePairEncoderModel twin("m", false, delimiter);
        unordered_map<u16string, u16string> as_map(old.begin(), old.end());
        twin.configure(as_map, delimiter);
        m.train(data, patience, 0.00001, min_frequency, merges);
        Codes now = m.getBpeCodes();
        each = each && now.size() > old.size();
        if (patience < 0) check_learned(old, now, counts, min_frequency, merges, next, false);
        else {
            // trained on a sample: the counts of the whole are upper bounds
            pbt::check(now.size() >= old.size() && (merges < 0 || now.size() - old.size() <= (size_t) merges), "too_many_merges");
            pbt::check(Codes(now.begin() + (long) (now.size() - old.size()), now.end()) == old, "codes_changed");
            for (size_t i = 0; i < now.size() - old.size(); i++) pbt::check(counts.count(now[i].first) && counts[now[i].first] >= min_frequency, "rare_pair");
        }
        pbt::check(total(m, data) <= before, "lengthened", "training made the encoding of its text longer");
        if (patience < 0) {
            twin.train(data, patience, 0.00001, min_frequency, merges);
            pbt::check(twin.getBpeCodes().size() == now.size(), "not_deterministic_size", "the same training from the same codes learned another number of merges");
            BytePairEncoderModel again("m", false, delimiter);
            if (old.empty()) {
                again.train(data, patience, 0.00001, min_frequency, merges);
                pbt::check(again.getBpeCodes() == now, "not_deterministic", "the same training learned other merges");
            }
        }
        for (auto &t: data) all.push_back(t);
    }
    for (auto &t: all) check_round_trip(m, t, delimiter);
    string t = text(g, 60);
    check_round_trip(m, t, delimiter);
    check_round_trip(m, "", delimiter);
    auto batch = m.encode(all);
    pbt::check(batch.size() == all.size(), "batch_size");
    for (size_t i = 0; i < all.size(); i++) pbt::check(batch[i] == m.encode(all[i]), "batch");
    double letters = 0;
    for (auto &x: all) letters += (double) x.size();
    double rate = m.validate_compression_rate(all);
    pbt::check(letters == 0 ? rate == 0 : fabs(rate - (double) total(m, all) / letters) < 1e-9, "compression_rate", pbt::str(rate));
    g.is_nontrivial = each && t.size() > 2;
    if (g.chance(1, 4)) {
        // a copy configured with the same codes
        Codes codes = m.getBpeCodes();
        g.shuffle(codes);
        unordered_map<u16string, u16string> as_map(codes.begin(), codes.end());
        BytePairEncoderModel copy("c", false);
        copy.configure(as_map, delimiter);
        pbt::check(copy.getBpeCodes() == m.getBpeCodes(), "configured_codes");
        pbt::check(copy.encode(t) == m.encode(t) && copy.decode(m.encode(t)) == t, "configured");
    }
}

static string slurp(const string &p) { return pbt::read_file_text(p, 10000000); }

PBT_PROP(saving, 16000, 160000, "a tokenizer with two or more merges saved, loaded and used") {
    uint16_t delimiter = g.pick<uint16_t>({256, 256, 300});
    string dir = pbt::case_dir(), name = g.pick({string("default"), string("other")});
    BytePairEncoderModel m(name, false, delimiter);
    size_t rounds = g.size(0, 2);
    for (size_t r = 0; r < rounds; r++) m.train(corpus(g, 12), -1, 0.00001, 2, g.chance(1, 2) ? -1 : (int) g.size(0, 12));
    g.is_nontrivial = m.getBpeCodes().size() > 1;
    g.note(m.getBpeCodes().size(), " codes");
    pbt::check(m.getName() == name, "name");
    if (g.chance(1, 4)) {
        // something is there already
        BytePairEncoderModel first(name, false);
        first.train({"zz", "zz", "zy", "zy"});
        pbt::check(first.save(dir, "k"), "save_failed");
        string before = slurp(dir + "/k/" + name + ".bpe");
        if (g.flip()) {
            streambuf *err = cerr.rdbuf(nullptr);
            bool ok = m.save(dir, "k", false);
            cerr.rdbuf(err);
            cerr.clear();
            pbt::check(ok, "save_failed");
            pbt::check(slurp(dir + "/k/" + name + ".bpe") == before, "overwritten", "saving without overwriting replaced the tokenizer there was");
            size_t found = 0;
            for (auto &e: filesystem::directory_iterator(dir)) if (e.path().filename() != "k") {
                found++;
                BytePairEncoderModel other(name, false);
                pbt::check(other.load(dir, e.path().filename().string()), "load_failed");
                pbt::check(other.getBpeCodes() == m.getBpeCodes(), "saved_beside");
            }
            pbt::check(found == 1, "not_saved");
            filesystem::remove_all(dir + "/k");
        }
    }
    pbt::check(m.save(dir, "k", true), "save_failed");
    BytePairEncoderModel back(name, false, g.pick<uint16_t>({256, 700}));
    if (g.chance(1, 3)) back.train(corpus(g, 6));
    Codes had = back.getBpeCodes();
    pbt::check(!back.load(dir, "missing"), "loaded_nothing");
    pbt::check(back.getBpeCodes() == had, "failed_load_changed");
    pbt::check(back.load(dir, "k"), "load_failed");
    pbt::check(back.getBpeCodes() == m.getBpeCodes(), "codes_differ", pbt::str(back.getBpeCodes().size(), " codes instead of ", m.getBpeCodes().size()));
    pbt::check(back.getDelimiter() == m.getDelimiter(), "delimiter");
    pbt::check(back.getLargestCode() == m.getLargestCode(), "largest_code", pbt::str(back.getLargestCode(), " instead of ", m.getLargestCode()));
    for (size_t i = 0; i < 6; i++) {
        string t = text(g, 40);
        pbt::check(back.encode(t) == m.encode(t), "encodes_differently", pbt::quote(t));
        check_round_trip(back, t, delimiter);
    }
    auto data = corpus(g, 8);
    auto counts = pair_counts(back, data);
    Codes old = back.getBpeCodes();
    uint16_t next = back.getLargestCode();
    back.train(data);
    check_learned(old, back.getBpeCodes(), counts, 2, -1, next, false);
    for (auto &t: data) check_round_trip(back, t, delimiter);
}

// ---- training from files, and how text is cut into tokens
static string normalized(const string &s) {
    string r;
    int last = 0;
    for (char ch: s) {
        unsigned char c = (unsigned char) ch;
        if (c == '\r') continue;
        if (isspace(c)) { if ((int) c != last) r += ch; }
        else if (c < 32 || c > 126) r += (char) 254;
        else r += ch;
        last = c;
    }
    return r;
}

static string document(Gen &g, size_t max) {
    static const vector<string> bits{"hello", "world", "3.14", ".", ",", " ", " ", " ", "\n", "\r\n", "\t", "a", "an", "1", "0", "(", ")", "don't", "\xc3\xa9", "  ", "...", "2.", "x.y", "\x01", "-"};
    string s;
    for (size_t n = g.size(0, max); n > 0; n--) s += g.pick(bits);
    return s;
}

PBT_PROP(cutting, 200000, 2000000, "a text of three or more tokens") {
    string s = document(g, 20);
    g.note(pbt::quote(s));
    auto tokens = string_to_tokens(s);
    g.is_nontrivial = tokens.size() > 2;
    string joined;
    for (auto &t: tokens) {
        pbt::check(!t.empty(), "empty_token");
        joined += t;
    }
    pbt::check(joined == normalized(s), "tokens_lose_text", pbt::str(pbt::quote(joined), " instead of ", pbt::quote(normalized(s))));
    for (auto &t: tokens) for (size_t i = 0; i < t.size(); i++) {
        unsigned char c = (unsigned char) t[i];
        if (isspace(c)) pbt::check(i == 0, "blank_inside", pbt::quote(t));
        else if (c < 127 && c > 32 && !isalnum(c)) pbt::check(t.size() == 1 || (c == '.' && i > 0 && isdigit((unsigned char) t[i - 1])), "symbol_inside", pbt::quote(t));
    }
    // a word is never cut: two tokens meet only at a blank or a symbol
    for (size_t i = 1; i < tokens.size(); i++) {
        unsigned char a = (unsigned char) tokens[i - 1].back(), b = (unsigned char) tokens[i][0];
        auto wordy = [](unsigned char c) { return isalnum(c) || c == 254; };
        pbt::check(!(wordy(a) && wordy(b)), "word_cut", pbt::str(pbt::quote(tokens[i - 1]), " ", pbt::quote(tokens[i])));
    }
    vector<string> called;
    string token;
    char last = 0;
    for (char c: s) append_character(c, last, token, [&](const string &t) { called.push_back(t); });
    if (!token.empty()) called.push_back(token);
    pbt::check(called == tokens, "callback_differs");
}

PBT_PROP(files, 6000, 60000, "a file of four or more tokens") {
    string dir = pbt::case_dir() + "/texts";
    filesystem::create_directories(dir);
    size_t n = g.size(1, 4);
    vector<string> all;
    size_t next_seam = 0;
    for (size_t i = 0; i < n; i++) {
        string s = document(g, 40);
        if (g.chance(1, 20)) { // across the reading buffers
            size_t buffer = g.pick({32 * 1024, 32 * 1024, 256 * 1024});
            while (s.size() < buffer - 40) s += g.chance(1, 2) ? " hello world" : "abc.12 ";
            while (s.size() < buffer - g.draw(20)) s += 'q';
            s += document(g, 20);
            next_seam++;
        }
        string path = dir + "/f" + to_string(i) + ".txt";
        ofstream(path, ios::binary) << s;
        auto tokens = string_to_tokens(s);
        pbt::check(load_file_to_tokens(path) == tokens, "file_tokens", "a file is not cut into the tokens of its text");
        all.insert(all.end(), tokens.begin(), tokens.end());
        g.note(pbt::quote(s.substr(0, 80)));
        g.is_nontrivial = g.is_nontrivial || tokens.size() > 3;
        BytePairEncoderModel m("m", false), fresh("m", false);
        if (g.flip()) m.train(corpus(g, 6));
        auto counts = pair_counts(fresh, tokens);
        pbt::check(m.train_on_file(path), "train_failed");
        check_learned({}, m.getBpeCodes(), counts, 2, -1, 257, false);
        for (size_t k = 0; k < 4 && !tokens.empty(); k++) check_round_trip(m, g.pick(tokens), 256);
        BytePairEncoderModel direct("m", false);
        direct.train(tokens);
        pbt::check(direct.getBpeCodes() == m.getBpeCodes(), "file_differs", "training on a file and on its tokens differ");
    }
    BytePairEncoderModel m("m", false), fresh("m", false);
    if (g.flip()) m.train(corpus(g, 6));
    auto counts = pair_counts(fresh, all);
    pbt::check(m.train_on_folder(dir), "train_failed");
    check_learned({}, m.getBpeCodes(), counts, 2, -1, 257, false);
    string t = text(g, 40);
    check_round_trip(m, t, 256);
    streambuf *err = cerr.rdbuf(nullptr);
    pbt::check(!m.train_on_file(dir + "/none.txt"), "trained_on_nothing");
    cerr.rdbuf(err);
    cerr.clear();
    check_learned({}, m.getBpeCodes(), counts, 2, -1, 257, false);
}
