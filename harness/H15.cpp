// H15: lexing partitions the script into longest matches
#include "types/base_tensors.hpp"
#include "ml/happyml_dsl.hpp"
#include "lang/happyml_script_init.hpp"
#include "pbt.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;

struct Tok { size_t at, len; string label; };

static const vector<string> &keywords() {
    static const vector<string> k{"copy", "create", "delete", "describe", "execute", "exit", "help", "list", "move", "print", "refine", "set",
        "accuracy", "dataset", "datasets", "future", "image", "input", "label", "memory", "number", "speed", "task", "tasks", "text",
        "at", "expected", "given", "goal", "header", "limit", "pretty", "raw", "starting", "test", "to", "using", "with"};
    return k;
}

static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
static bool alpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static string lower(string s) { for (char &c: s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

// a script lexer written from the documentation. returns false with `bad` at the first position nothing matches
static bool reference(const string &t, vector<Tok> &out, size_t &bad) {
    size_t i = 0;
    while (i < t.size()) {
        char c = t[i];
        size_t n = 0;
        string label;
        bool skip = false;
        if (alpha((unsigned char) c)) {
            n = 1;
            while (i + n < t.size() && (alpha((unsigned char) t[i + n]) || digit((unsigned char) t[i + n]) || t[i + n] == '_')) n++;
            string w = lower(t.substr(i, n));
            label = find(keywords().begin(), keywords().end(), w) != keywords().end() ? "_" + w : "_word";
        } else if (digit((unsigned char) c) || c == '.') {
            while (i + n < t.size() && digit((unsigned char) t[i + n])) n++;
            if (i + n < t.size() && t[i + n] == '.') n++;
            while (i + n < t.size() && digit((unsigned char) t[i + n])) n++;
            label = "_number";
        } else if (c == '#') {
            while (i + n < t.size() && t[i + n] != '\n') n++;
            skip = true;
        } else if (c == '"' || c == '\'') {
            size_t j = i + 1;
            while (j < t.size()) {
                if (t[j] == '\\' && j + 1 < t.size() && t[j + 1] == c) j += 2;
                else if (t[j] != c) j++;
                else break;
            }
            if (j < t.size()) { n = j + 1 - i; label = "_string"; }
            else { n = 1; label = c == '"' ? "_double_quote" : "_single_quote"; }
        } else if (c == ' ' || c == '\t' || c == '\r' || c == '\n') {
            n = 1;
            skip = true;
        } else {
            static const map<char, string> p{{'(', "_open_parenthesis"}, {')', "_close_parenthesis"}, {'[', "_open_bracket"}, {']', "_close_bracket"}, {'=', "_equal"},
                {':', "_colon"}, {'/', "_slash"}, {'%', "_percent"}, {'\\', "_backslash"}, {',', "_comma"}, {'_', "_underscore"}};
            auto it = p.find(c);
            if (it == p.end()) { bad = i; return false; }
            n = 1;
            label = it->second;
        }
        if (!skip) out.push_back({i, n, label});
        i += n;
    }
    return true;
}

static string fragment(Gen &g) {
    static const string punct = "()[]=:/.%\\\"',_#", blanks = " \t\r\n", strange{"\x00\x01\x7f\x80\xc3\xa9\xff-+*&;!?@{}~|<>^`$", 25};
    switch (g.draw(10)) {
        case 0:
        case 1: { // a keyword or nearly one
            string k = g.pick(keywords());
            switch (g.draw(6)) {
                case 0: k = k.substr(0, g.draw(k.size() + 1)); break;
                case 1: k += g.pick({"s", "1", "_", "x", ".", "S", "2set"}); break;
                case 2: k = g.pick({"_", "1", "x", "."}) + k; break;
                case 3: k += g.pick(keywords()); break;
                default: break;
            }
            if (g.flip()) for (char &c: k) if (alpha((unsigned char) c) && g.flip()) c ^= 32;
            return k;
        }
        case 2: { // number
            string s;
            for (size_t n = g.size(0, 5); n > 0; n--) s += (char) ('0' + g.draw(10));
            for (size_t k = g.draw(3); k > 0; k--) {
                s += ".";
                for (size_t n = g.size(0, 3); n > 0; n--) s += (char) ('0' + g.draw(10));
            }
            return s + g.pick({"", "", "e5", "x", "_"});
        }
        case 3: { // a string, perhaps without an end
            string q = g.pick({string("\""), string("'")}), s = q;
            for (size_t n = g.size(0, 6); n > 0; n--) s += g.pick({string("a"), "\\" + q, string("\\"), string("\\\\"), string("\n"), string(" "), string("#"), string("\""), string("'"), string("copy"), string("\\n"), string("\xc3\xa9")});
            return s + (g.chance(3, 4) ? q : "");
        }
        case 4: { // a comment
            string s = "#";
            for (size_t n = g.size(0, 6); n > 0; n--) s += g.pick({"a", " ", "#", "\"", "\r", "\t", "print", "\xff"});
            return s + (g.chance(3, 4) ? "\n" : "");
        }
        case 5: return string(1, punct[g.draw(punct.size())]);
        case 6: { string s; for (size_t n = g.size(1, 3); n > 0; n--) s += blanks[g.draw(blanks.size())]; return s; }
        case 7: return g.chance(1, 4) ? string(1, strange[g.draw(strange.size())]) : "";
        case 8: { string s; for (size_t n = g.size(0, 4); n > 0; n--) s += g.chance(1, 6) ? (char) g.draw(256) : (char) g.range(32, 126); return g.chance(1, 3) ? s : ""; }
        default: return g.pick({"file://", "a", "Z9_z", "data.csv", "http://x/y", "\r\n", "(28,28)", "[1, 2]", "{"});
    }
}

static shared_ptr<Lexer> &script_lexer() { static auto l = initializeHappymlLexer(); return l; }

static void compare(const string &text, const string &source, LexerResult &res, bool good, const vector<Tok> &want, size_t bad) {
    auto stream = res.getMatchStream();
    if (!good) {
        pbt::check(!stream, "accepted", pbt::str("nothing matches at ", bad, " but there is no error"));
        string m = res.getMessage();
        pbt::check(m.find(source) != string::npos && m.find("(" + to_string(bad) + ")") != string::npos, "error_position", pbt::str("no rule matches at ", bad, ", the error is: ", pbt::quote(m)));
        return;
    }
    pbt::check(!!stream, "rejected", res.getMessage());
    pbt::check(stream->size() == want.size(), "token_count", pbt::str(stream->size(), " tokens instead of ", want.size(), ": ", pbt::quote(stream->render())));
    for (auto &w: want) {
        pbt::check(stream->hasNext(), "stream_short");
        auto t = stream->next();
        string where = pbt::str("expected ", w.label, " ", pbt::quote(text.substr(w.at, w.len)), " at ", w.at, ", got ", t->getLabel(), " ", pbt::quote(t->getValue()), " at ", t->getOffset());
        pbt::check(t->getOffset() == w.at, "offset", where);
        pbt::check(t->getLength() == w.len && t->getValue() == text.substr(w.at, w.len), "value", where);
        pbt::check(t->getLabel() == w.label, "label", where);
        pbt::check(!t->isSkip() && t->getSource() == source, "source", where);
    }
    pbt::check(!stream->hasNext(), "stream_long");
}

PBT_PROP(script, 300000, 3000000, "three or more tokens, one of them a keyword, string or number, or a syntax error behind a token") {
    string text;
    for (size_t n = g.size(0, 14); n > 0; n--) {
        text += fragment(g);
        if (g.flip()) text += " ";
    }
    string source = g.pick({"unknown", "my script", "cli"});
    g.note(pbt::quote(text));
    vector<Tok> want;
    size_t bad = 0;
    bool good = reference(text, want, bad);
    g.is_nontrivial = good ? want.size() > 2 && any_of(want.begin(), want.end(), [](const Tok &t) { return t.label != "_word" && t.len > 1; }) : !want.empty();
    auto res = source == "unknown" ? script_lexer()->lex(text) : script_lexer()->lex(text, source);
    compare(text, source, *res, good, want, bad);
    // letter case changes the values only
    if (good) {
        string other = text;
        for (char &c: other) if (alpha((unsigned char) c) && g.flip()) c ^= 32;
        compare(other, source, *script_lexer()->lex(other, source), true, want, 0);
    }
}

// ---- other rule sets: longest match, and the earlier of two rules with the same length
struct Rule { int kind; string text; bool nocase; vector<Rule> sub; };

static Rule gen_rule(Gen &g, int depth) {
    Rule r{(int) g.draw(depth > 0 ? 8 : 4), "", false, {}};
    static const string letters = "abAB1_";
    switch (r.kind) {
        case 0: for (size_t n = g.size(1, 3); n > 0; n--) r.text += letters[g.draw(letters.size())]; r.nocase = g.flip(); break;
        case 1: case 2: break; // alpha / digit
        case 3: r.text = letters.substr(g.draw(letters.size()), 1); r.nocase = g.flip(); break; // anything but
        case 4: for (size_t n = g.size(1, 3); n > 0; n--) r.sub.push_back(gen_rule(g, depth - 1)); break; // any of
        case 5: for (size_t n = g.size(1, 3); n > 0; n--) r.sub.push_back(gen_rule(g, depth - 1)); break; // all in a row
        case 6: r.sub.push_back(gen_rule(g, depth - 1)); break; // optional
        default: r.sub.push_back(gen_rule(g, 0)); // repeated
    }
    return r;
}

static shared_ptr<PatternMatcher> build(const Rule &r) {
    vector<shared_ptr<PatternMatcher>> sub;
    for (auto &s: r.sub) sub.push_back(build(s));
    switch (r.kind) {
        case 0: return make_shared<TextSequencePatternMatcher>(r.text, r.nocase);
        case 1: return make_shared<AlphaPatternMatcher>();
        case 2: return make_shared<DigitPatternMatcher>();
        case 3: return make_shared<NotTextPatternMatcher>(r.text, r.nocase);
        case 4: return make_shared<AnyPatternMatchers>(sub);
        case 5: return make_shared<AllPatternMatchers>(sub);
        case 6: return make_shared<FrequencyPatternMatcher>(sub[0], FrequencyQualifier::zeroOrOne);
        default: return make_shared<FrequencyPatternMatcher>(sub[0], FrequencyQualifier::zeroOrMore);
    }
}

static string show(const Rule &r) {
    string s;
    for (auto &x: r.sub) s += (s.empty() ? "" : " ") + show(x);
    static const char *names[] = {"", "alpha", "digit", "not ", "any", "all", "opt", "rep"};
    return string(names[r.kind]) + (r.text.empty() ? "" : pbt::quote(r.text) + (r.nocase ? "i" : "")) + (r.sub.empty() ? "" : "(" + s + ")");
}

static long run(const Rule &r, const string &t, size_t i) {
    auto same = [&](char a, char b) { return r.nocase ? lower(string(1, a)) == lower(string(1, b)) : a == b; };
    switch (r.kind) {
        case 0:
            if (i + r.text.size() > t.size()) return -1;
            for (size_t k = 0; k < r.text.size(); k++) if (!same(t[i + k], r.text[k])) return -1;
            return (long) r.text.size();
        case 1: return i < t.size() && alpha((unsigned char) t[i]) ? 1 : -1;
        case 2: return i < t.size() && digit((unsigned char) t[i]) ? 1 : -1;
        case 3: return i < t.size() && !same(t[i], r.text[0]) ? 1 : -1;
        case 4:
            for (auto &s: r.sub) { long n = run(s, t, i); if (n >= 0) return n; }
            return -1;
        case 5: {
            long all = 0;
            for (auto &s: r.sub) { long n = run(s, t, i + (size_t) all); if (n < 0) return -1; all += n; }
            return all;
        }
        case 6: return max(0L, run(r.sub[0], t, i));
        default: {
            long all = 0;
            for (long n; (n = run(r.sub[0], t, i + (size_t) all)) >= 0;) all += n;
            return all;
        }
    }
}

PBT_PROP(rules, 160000, 1600000, "two or more rules match at some position, and three or more tokens") {
    size_t n = g.size(1, 6);
    vector<Rule> rules;
    vector<shared_ptr<Pattern>> patterns;
    vector<bool> skips;
    for (size_t i = 0; i < n; i++) {
        rules.push_back(gen_rule(g, 2));
        skips.push_back(g.chance(1, 4));
        patterns.push_back(make_shared<Pattern>(pbt::str("r", i), skips[i], build(rules[i])));
        g.note(i, skips[i] ? " (skipped) " : " ", show(rules[i]));
    }
    static const string letters = "abAB1_ ";
    string text;
    for (size_t k = g.size(0, 20); k > 0; k--) text += letters[g.draw(letters.size())];
    g.note(pbt::quote(text));
    vector<Tok> want;
    size_t i = 0, bad = 0, all = 0;
    bool good = true, tie = false;
    while (i < text.size()) {
        long best = -1;
        size_t which = 0, matching = 0;
        for (size_t k = 0; k < n; k++) {
            long m = run(rules[k], text, i);
            matching += m > 0;
            if (m > best) { best = m; which = k; }
        }
        tie = tie || matching > 1;
        if (best <= 0) { good = false; bad = i; break; }
        if (!skips[which]) want.push_back({i, (size_t) best, pbt::str("r", which)});
        i += (size_t) best;
        all++;
    }
    g.is_nontrivial = tie && all > 2;
    Lexer lexer(patterns);
    compare(text, "here", *lexer.lex(text, "here"), good, want, bad);
    // the single rule matchers
    for (size_t k = 0; k < n && !text.empty(); k++) {
        size_t at = g.draw(text.size());
        auto t = patterns[k]->match(text, at, "s");
        long m = run(rules[k], text, at);
        pbt::check(!t == (m < 0), "rule_match", show(rules[k]));
        if (t) pbt::check((long) t->getLength() == m && t->getValue() == text.substr(at, (size_t) m) && t->getOffset() == at, "rule_length", show(rules[k]));
        pbt::check(!patterns[k]->match(text, text.size(), "s"), "match_at_end");
    }
}

PBT_PROP(stream, 200000, 2000000, "tokens peeked or consumed several at a time, and more asked for than there are") {
    size_t n = g.size(0, 8), pos = 0;
    vector<shared_ptr<Token>> tokens;
    for (size_t i = 0; i < n; i++) tokens.push_back(make_shared<Token>(1, "_l", pbt::str(i), false, i, "s"));
    TokenStream s(tokens);
    bool several = false, beyond = false;
    for (size_t ops = g.size(1, 20); ops > 0; ops--) {
        size_t k = g.size(1, 4);
        bool in = pos + k <= n;
        several = several || (in && k > 1);
        beyond = beyond || !in;
        pbt::check(s.hasNext(k) == in, "hasNext", pbt::str("at ", pos, " of ", n, ", ", k, " more"));
        pbt::check(s.size() == n, "size");
        auto p = s.previous();
        pbt::check(pos == 0 ? !p : p == tokens[pos - 1], "previous");
        int op = (int) g.draw(3);
        g.note(op == 0 ? "peek " : op == 1 ? "consume " : "next ", k);
        try {
            if (op == 0) {
                auto t = s.peek(k);
                pbt::check(in, "peek_beyond");
                pbt::check(t == tokens[pos + k - 1], "peek");
            } else if (op == 1) {
                s.consume(k);
                pbt::check(in, "consume_beyond");
                pos += k;
            } else {
                auto t = s.next();
                pbt::check(pos < n, "next_beyond");
                pbt::check(t == tokens[pos], "next");
                pos++;
            }
        } catch (const out_of_range &e) {
            pbt::check(op == 2 ? pos >= n : !in, "refused", "a token that is there was refused");
        }
    }
    g.is_nontrivial = several && beyond;
}
