// H14: one-hot and positional encodings represent their input
#include "ml/happyml_dsl.hpp"
#include "ml/byte_pair_encoder.hpp"
#include "util/text_embedder.hpp"
#include "pbt.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;

static string bytes(Gen &g, size_t max) {
    static const string some = "abc xyz.", odd{"\x00\x01\x7f\x80\xc3\xa9\xfe\xff\n ", 10};
    string s;
    int mode = (int) g.draw(3);
    for (size_t n = g.size(0, max); n > 0; n--) s += mode == 0 ? some[g.draw(some.size())] : mode == 1 ? odd[g.draw(odd.size())] : (char) g.draw(256);
    return s;
}

// the position that is set, or npos for a row of zeroes
static size_t hot(const vector<float> &row, size_t width, const string &key) {
    pbt::check(row.size() == width, key + "_width", pbt::str(row.size(), " elements instead of ", width));
    size_t at = string::npos;
    for (size_t i = 0; i < row.size(); i++) {
        if (row[i] == 0) continue;
        pbt::check(row[i] == 1 && at == string::npos, key + "_not_one_hot", pbt::str("element ", i, " is ", row[i]));
        at = i;
    }
    return at;
}

PBT_PROP(codes, 80000, 800000, "three or more codes, one of them the largest or beyond it") {
    size_t largest = g.pick({1, 2, 5, 257, 300, 40, 1000});
    vector<u16string> tokens;
    vector<size_t> flat;
    bool edge = false;
    for (size_t n = g.size(0, 5); n > 0; n--) {
        u16string t;
        for (size_t k = g.size(0, 6); k > 0; k--) {
            size_t c = g.chance(1, 4) ? largest - 1 + g.draw(4) : g.chance(1, 20) ? 0xFFE9 : g.draw(largest);
            edge = edge || c + 1 >= largest;
            t += (char16_t) c;
            flat.push_back(c);
        }
        tokens.push_back(t);
    }
    g.note(pbt::join(flat, " "), " of ", largest);
    g.is_nontrivial = flat.size() > 2 && edge;
    auto rows = one_hot_encode_bpe_tokens(tokens, largest);
    pbt::check(rows.size() == flat.size(), "code_rows", pbt::str(rows.size(), " rows for ", flat.size(), " codes"));
    for (size_t i = 0; i < rows.size(); i++) {
        size_t at = hot(rows[i], largest, "code");
        pbt::check(at == (flat[i] < largest ? flat[i] : string::npos), "code", pbt::str("code ", flat[i], " of ", largest, " is encoded at ", (long) at));
    }
}

PBT_PROP(characters, 80000, 800000, "three or more characters, one of them from 128 up") {
    vector<string> tokens;
    string flat;
    for (size_t n = g.size(0, 5); n > 0; n--) {
        tokens.push_back(bytes(g, 8));
        flat += tokens.back();
    }
    g.note(pbt::quote(flat));
    g.is_nontrivial = flat.size() > 2 && any_of(flat.begin(), flat.end(), [](char c) { return (unsigned char) c > 127; });
    auto rows = one_hot_encode_characters(tokens);
    pbt::check(rows.size() == flat.size(), "character_rows");
    for (size_t i = 0; i < rows.size(); i++) {
        size_t c = (unsigned char) flat[i], w = rows[i].size();
        pbt::check(w >= 255, "character_width");
        size_t at = hot(rows[i], w, "character");
        pbt::check(at == (c < w ? c : string::npos), "character", pbt::str("character ", c, " is encoded at ", (long) at));
    }
}

PBT_PROP(words, 80000, 800000, "three or more words, one of them unknown") {
    size_t n = g.size(1, 10);
    unordered_map<string, int> index;
    vector<int> places;
    for (size_t i = 0; i < n; i++) places.push_back((int) i);
    g.shuffle(places);
    for (size_t i = 0; i < n; i++) index[pbt::str("w", i)] = places[i];
    vector<string> tokens;
    bool unknown = false;
    for (size_t k = g.size(0, 12); k > 0; k--) {
        size_t i = g.draw(n + 2);
        unknown = unknown || i >= n;
        tokens.push_back(i == n + 1 ? "" : pbt::str("w", i));
    }
    g.is_nontrivial = tokens.size() > 2 && unknown;
    auto rows = one_hot_encode_words(tokens, index);
    pbt::check(rows.size() == tokens.size(), "word_rows");
    for (size_t i = 0; i < rows.size(); i++) {
        size_t at = hot(rows[i], n, "word");
        auto it = index.find(tokens[i]);
        pbt::check(at == (it == index.end() ? string::npos : (size_t) it->second), "word", pbt::str(pbt::quote(tokens[i]), " is encoded at ", (long) at));
    }
    // to a fixed length
    size_t target = g.size(0, 14);
    auto fitted = rows;
    pad_or_truncate_tokens(fitted, target, n);
    pbt::check(fitted.size() == target, "fitted_length", pbt::str(fitted.size(), " instead of ", target));
    for (size_t i = 0; i < target; i++) pbt::check(fitted[i] == (i < rows.size() ? rows[i] : vector<float>(n, 0.f)), "fitted", pbt::str("position ", i));
}

static double constant(size_t i) { // of the pair that element i belongs to
    double div = exp((double) (i / 2 * 2) / log(10000.0));
    return i % 2 ? cos(1.0 / div) : sin(1.0 / div);
}

template<typename F>
static bool refuses(F f) {
    try { f(); return false; }
    catch (const runtime_error &e) { return true; }
}

PBT_PROP(positions, 24000, 240000, "two or more tokens, an odd dimension or a token narrower than it") {
    size_t length = g.size(1, 40), dim = g.size(1, 40);
    RotaryPositionalEmbedder e(length, dim);
    pbt::check(e.getSequenceLength() == length && e.getDimensionality() == dim, "sizes");
    pbt::check(e.calculate_result_shape() == vector<size_t>({length, dim}), "result_shape");
    pbt::check(e.get_padding_token_embedding() == vector<float>(dim, 0.f) && e.get_unknown_token_embedding() == vector<float>(dim, 0.f), "padding");
    auto table = e.get_positional_encoding();
    pbt::check(table.size() == length, "table_length");
    for (size_t p = 0; p < length; p++) {
        pbt::check(table[p].size() >= dim, "table_width");
        for (size_t i = 0; i < dim; i++) {
            double angle = (double) p * constant(i), want = i % 2 ? cos(angle) : sin(angle);
            pbt::check(fabs(table[p][i] - want) < 1e-5 + 1e-6 * (double) p, "table", pbt::str("position ", p, " element ", i, " is ", table[p][i], " instead of ", want));
        }
    }
    size_t n = g.size(0, 50), width = g.chance(1, 2) ? dim : g.size(1, dim);
    vector<vector<float>> tokens(n, vector<float>(width));
    for (auto &t: tokens) for (auto &x: t) x = g.chance(1, 2) ? 0.f : g.value(2.f);
    g.note(n, " tokens of ", width, ", length ", length, ", dimension ", dim);
    g.is_nontrivial = n > 1 && (dim % 2 || width < dim);
    auto all = e.embed_tokens(tokens);
    pbt::check(all.size() == min(n, length), "embedded_count", pbt::str(all.size(), " for ", n, " tokens and a length of ", length));
    for (size_t p = 0; p < all.size(); p++) {
        pbt::check(all[p].size() == dim, "embedded_width");
        for (size_t i = 0; i < dim; i++) {
            float want = i < width ? tokens[p][i] + table[p][i] : 0.f;
            pbt::check(fabs(all[p][i] - want) < 1e-6, "embedded", pbt::str("position ", p, " element ", i, " is ", all[p][i], " instead of ", want));
        }
        pbt::check(e.embed_token(tokens[p], p) == all[p], "embedded_alone");
    }
    pbt::check(e.embed_tokens(tokens) == all, "not_repeatable");
    pbt::check(RotaryPositionalEmbedder(length, dim).get_positional_encoding() == table, "not_repeatable_table");
    vector<float> one(width, 0.f), wide(dim + 1, 0.f);
    pbt::check(refuses([&] { e.embed_token(one, length + g.draw(3)); }), "beyond_length");
    pbt::check(refuses([&] { e.embed_token(wide, 0); }), "too_wide");
}

PBT_PROP(text, 6000, 60000, "a text of three or more codes embedded with a trained tokenizer") {
    auto bpe = make_shared<BytePairEncoderModel>("m", false);
    vector<string> data;
    for (size_t n = g.size(0, 8); n > 0; n--) data.push_back(bytes(g, 10));
    bpe->train(data);
    string t = g.flip() && !data.empty() ? g.pick(data) + bytes(g, 8) : bytes(g, 20);
    vector<size_t> flat;
    for (auto &u: bpe->encode(string_to_tokens(t))) for (auto c: u) flat.push_back(c);
    g.note(pbt::quote(t));
    g.is_nontrivial = flat.size() > 2 && !bpe->getBpeCodes().empty();
    size_t length = g.size(1, 30), dim = bpe->getLargestCode() + g.draw(3);
    auto e = make_shared<RotaryPositionalEmbedder>(length, dim);
    auto rows = text_to_tensor_bpe_rotary(t, bpe, e);
    auto table = e->get_positional_encoding();
    pbt::check(rows.size() == min(length, flat.size()), "text_rows", pbt::str(rows.size(), " rows for ", flat.size(), " codes"));
    for (size_t p = 0; p < rows.size(); p++) {
        pbt::check(rows[p].size() == dim, "text_width");
        for (size_t i = 0; i < bpe->getLargestCode(); i++) {
            float want = table[p][i] + (flat[p] == i ? 1.f : 0.f);
            pbt::check(fabs(rows[p][i] - want) < 1e-6, "text_embedded", pbt::str("position ", p, " element ", i, " is ", rows[p][i], " instead of ", want));
        }
    }
}
