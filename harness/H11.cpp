// H11: value encoders and decoders are mutually consistent
#include "ml/happyml_dsl.hpp"
#include "lang/statements/create_dataset_statement.hpp"
#include "lang/statements/print_statement.hpp"
#include "pbt.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;

struct Capture {
    stringstream out;
    streambuf *old;
    Capture() : old(cout.rdbuf(out.rdbuf())) {}
    ~Capture() { cout.rdbuf(old); }
};

template<typename F>
static bool refuses(F f) {
    try { f(); return false; }
    catch (const runtime_error &e) { pbt::check(string(e.what()).size() > 3, "no_message", "refused without a message"); return true; }
}

// ---- numbers as text
static bool is_number(const string &s, double &v) {
    size_t i = 0, digits = 0;
    if (i < s.size() && s[i] == '-') i++;
    while (i < s.size() && isdigit((unsigned char) s[i])) { i++; digits++; }
    if (i < s.size() && s[i] == '.') {
        i++;
        while (i < s.size() && isdigit((unsigned char) s[i])) { i++; digits++; }
    }
    if (!digits) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        i++;
        if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
        size_t e = 0;
        while (i < s.size() && isdigit((unsigned char) s[i])) { i++; e++; }
        if (!e) return false;
    }
    if (i != s.size()) return false;
    v = (double) strtof(s.c_str(), nullptr);
    return isfinite(v);
}

static string number_word(Gen &g) {
    string s = g.chance(1, 3) ? "-" : "";
    size_t n = g.size(1, 6);
    for (size_t i = 0; i < n; i++) s += (char) ('0' + g.draw(10));
    if (g.flip()) {
        s += '.';
        n = g.size(0, 7);
        for (size_t i = 0; i < n; i++) s += (char) ('0' + g.draw(10));
    }
    if (g.chance(1, 4)) s += pbt::str(g.pick({"e", "E"}), g.pick({"", "-", "+"}), g.range(0, 12));
    return s;
}

static string damage(Gen &g, string s) {
    static const string junk = "x1-+.eE ,f%_\"d0$";
    size_t n = g.size(1, 3);
    for (size_t i = 0; i < n; i++) {
        size_t at = g.draw(s.size() + 1);
        switch (g.draw(3)) {
            case 0: s.insert(at, 1, junk[g.draw(junk.size())]); break;
            case 1: if (at < s.size()) s.erase(at, 1); break;
            default: if (at < s.size()) s[at] = junk[g.draw(junk.size())];
        }
    }
    return s;
}

static string blanks(Gen &g) {
    string s;
    for (size_t n = g.chance(1, 2) ? 0 : g.size(1, 3); n > 0; n--) s += g.pick({' ', '\t', '\n', '\r', '\v', '\f'});
    return s;
}

PBT_PROP(number_text, 600000, 6000000, "text that is not a plain integer") {
    string s = number_word(g);
    if (g.flip()) s = damage(g, s);
    double want = 0;
    bool good = is_number(s, want);
    g.note(pbt::quote(s));
    g.is_nontrivial = s.find_first_not_of("0123456789") != string::npos;
    string before = blanks(g), after = blanks(g);
    string core = s;
    while (!core.empty() && isspace((unsigned char) core.back())) core.pop_back();
    pbt::check(trimEnd(before + s + after) == (core.empty() ? string() : before + core), "trimEnd", pbt::quote(before + s + after));
    while (!core.empty() && isspace((unsigned char) core[0])) core.erase(0, 1);
    pbt::check(strip(before + s + after) == core, "strip", pbt::quote(before + s + after));
    double inner = 0;
    bool inner_good = is_number(core, inner);
    size_t mantissa_end = core.find_first_of("eE");
    if (core.substr(0, mantissa_end).find_first_of("123456789") != string::npos && fabs(strtod(core.c_str(), nullptr)) < 1e-37) return; // underflow: either way
    if (s.empty()) return;
    pbt::check(isFloat(s) == good, "isFloat", pbt::str(pbt::quote(s), good ? " is" : " is not", " a number"));
    float got = 0;
    bool ok = stringToFloat(s, got);
    pbt::check(ok == good && (!ok || (double) got == want), "stringToFloat2", pbt::str(pbt::quote(s), " gave ", ok, " ", got, " instead of ", want));
    if (good) pbt::check((double) stringToFloat(s) == want, "stringToFloat", pbt::str(pbt::quote(s), " instead of ", want));
    else pbt::check(refuses([&] { (void) stringToFloat(s); }), "malformed_accepted", pbt::quote(s));
    HappyMLVariant v(before + s + after);
    if (inner_good) pbt::check((double) v.as_float() == inner, "variant_float", pbt::str(pbt::quote(s), " gave ", v.as_float(), " instead of ", inner));
    else if (!core.empty()) pbt::check(refuses([&] { (void) v.as_float(); }), "variant_malformed_accepted", pbt::quote(before + s + after));
    pbt::check(v.to_string() == before + s + after, "variant_text");
}

// ---- encoders of a data set file and of a script, against the definition
struct Column {
    char purpose;
    size_t r, c, ch;
    vector<string> labels;
    bool standardized = false, normalized = false;
    float mean = 0, deviation = 1, low = 0, high = 1;
    shared_ptr<BinaryColumnMetadata> metadata() const {
        auto m = make_shared<BinaryColumnMetadata>();
        m->purpose = purpose;
        m->is_standardized = standardized;
        m->is_normalized = normalized;
        m->mean = mean;
        m->standard_deviation = deviation;
        m->min_value = low;
        m->max_value = high;
        m->source_column_count = purpose == 'L' ? r : r * c * ch;
        m->rows = r;
        m->columns = c;
        m->channels = ch;
        m->ordered_labels = labels;
        m->name = "column";
        return m;
    }
};

static Column gen_column(Gen &g) {
    Column x;
    x.purpose = g.pick({'N', 'L', 'I'});
    x.r = g.size(1, 4);
    x.c = g.size(1, 4);
    x.ch = g.chance(1, 2) ? 1 : g.size(1, 3);
    if (x.purpose == 'L') {
        x.ch = 1;
        vector<string> all{"a", "b", "A", "aa", "x y", "", "0", "1", "1.0", "-1", "it's", "q\"q", "p,q", "\xc3\xa9", "\t", "<d>", "None", "true", "zebra", "a-"};
        g.shuffle(all);
        x.c = g.size(1, 12);
        x.labels.assign(all.begin(), all.begin() + (long) x.c);
    } else if (x.purpose == 'N') {
        x.standardized = g.flip();
        x.normalized = g.flip();
        x.mean = g.value(100.f);
        x.deviation = fabs(g.value(20.f)) + 0.25f;
        x.low = g.value(5.f);
        x.high = x.low + fabs(g.value(8.f)) + 0.5f;
    }
    return x;
}

static size_t words_of(const Column &x) { return x.purpose == 'L' ? x.r : x.r * x.c * x.ch; }

static shared_ptr<DataEncoder> encoder_of(const Column &x, Gen &g) {
    if (x.purpose == 'I') return make_shared<TextToPixelEncoder>();
    if (x.purpose == 'N') return make_shared<TextToScalarEncoder>();
    if (g.flip()) return make_shared<TextToUniqueCategoryEncoder>(x.labels);
    map<string, size_t> m;
    for (size_t i = 0; i < x.labels.size(); i++) m[x.labels[i]] = i;
    return make_shared<TextToUniqueCategoryEncoder>(m);
}

PBT_PROP(encoders, 160000, 1600000, "a column of two or more values") {
    Column x = gen_column(g);
    size_t n = words_of(x);
    g.is_nontrivial = n > 1;
    bool trim = g.flip();
    vector<string> words, padded;
    vector<double> want;
    vector<size_t> code;
    for (size_t i = 0; i < n; i++) {
        string w;
        if (x.purpose == 'L') {
            code.push_back(g.draw(x.labels.size()));
            w = x.labels[code.back()];
            if (trim && w == "\t") g.discard();
        } else if (x.purpose == 'I') {
            want.push_back((double) g.draw(256));
            w = pbt::str(want.back(), g.pick({"", "", ".0", "e0"}));
        } else {
            w = number_word(g);
            double v = 0;
            if (!is_number(w, v)) g.discard();
            want.push_back(v);
        }
        words.push_back(w);
        padded.push_back(trim ? blanks(g) + w + blanks(g) : w);
    }
    g.note(x.purpose, " ", x.r, "x", x.c, "x", x.ch, ": ", pbt::join(words, "|").substr(0, 200));
    auto enc = encoder_of(x, g);
    auto shape = enc->calculate_output_shape(x.r, x.purpose == 'L' ? 1 : x.c, x.ch);
    pbt::check(shape == vector<size_t>({x.r, x.c, x.ch}), "announced_shape", pbt::join(shape));
    shared_ptr<BaseTensor> t = enc->encode(padded, x.r, x.c, x.ch, trim);
    // the same values given to a task
    vector<HappyMLVariant> given;
    for (size_t i = 0; i < n; i++) {
        if (x.purpose != 'L' && g.chance(1, 3) && want[i] == floor(want[i]) && fabs(want[i]) < 1e6) given.push_back(g.flip() ? HappyMLVariant((int) want[i]) : HappyMLVariant((float) want[i]));
        else if (x.purpose != 'L' && (want[i] == 0 || want[i] == 1) && g.chance(1, 2)) given.push_back(HappyMLVariant(want[i] == 1));
        else if (x.purpose == 'L' && words[i] == pbt::str(atoi(words[i].c_str())) && g.chance(1, 2)) given.push_back(HappyMLVariant(atoi(words[i].c_str())));
        else if (x.purpose != 'L' && g.chance(1, 2)) given.push_back(HappyMLVariant(blanks(g) + words[i] + blanks(g)));
        else given.push_back(HappyMLVariant(words[i]));
    }
    HappyMLVariantEncoder venc(x.metadata());
    pbt::check(venc.get_name() == "column", "column_name");
    auto u = venc.encode(given);
    for (auto &y: {t, u}) pbt::check(y->rowCount() == x.r && y->columnCount() == x.c && y->channelCount() == x.ch, y == t ? "file_shape" : "script_shape", pbt::str(y->rowCount(), "x", y->columnCount(), "x", y->channelCount()));
    auto decoder = build_decoder(false, x.metadata());
    auto raw = build_decoder(true, x.metadata());
    auto back = decoder->decode(u);
    size_t at = 0;
    for (size_t k = 0; k < x.ch; k++) for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++, at++) {
        double a = t->getValue(i, j, k), b = u->getValue(i, j, k);
        string where = pbt::str("at ", i, ",", j, ",", k, " the file holds ", a, " and the script gives ", b);
        if (x.purpose == 'L') {
            double e = code[i] == j ? 1 : 0;
            pbt::check(a == e, "file_label", where);
            pbt::check(b == e, "script_label", where);
        } else if (x.purpose == 'I') {
            pbt::check(fabs(a - want[at] / 255) < 1e-6, "file_pixel", where + pbt::str(" instead of ", want[at] / 255));
            pbt::check(fabs(b - want[at] / 255) < 1e-6, "script_pixel", where + pbt::str(" instead of ", want[at] / 255));
        } else {
            pbt::check(a == want[at], "file_number", where + pbt::str(" instead of ", want[at]));
            double e = want[at], mag = fabs(e);
            if (x.standardized) { e = (e - x.mean) / x.deviation; mag = (mag + fabs(x.mean)) / x.deviation; }
            if (x.normalized) { e = (e - x.low) / (x.high - x.low); mag = (mag + fabs(x.low)) / (x.high - x.low); }
            pbt::check(fabs(b - e) <= 1e-5 * mag + 1e-30, "script_number", where + pbt::str(" instead of ", e));
            double span = (x.normalized ? x.high - x.low : 1), tol = 1e-5 * (fabs(want[at]) + (x.standardized ? fabs(x.mean) + fabs(x.deviation) : 0) + (x.normalized ? (span + fabs(x.low)) * (x.standardized ? x.deviation : 1) : 0));
            pbt::check(fabs(back->getValue(i, j, k) - want[at]) <= tol, "number_round_trip", pbt::str("decodes as ", back->getValue(i, j, k), " instead of ", want[at]));
        }
        pbt::check(raw->decode(u)->getValue(i, j, k) == u->getValue(i, j, k), "raw_decoder");
    }
    pbt::check(decoder->isText() == (x.purpose == 'L') && decoder->isImage() == (x.purpose == 'I') && !raw->isText() && !raw->isImage(), "decoder_kind");
    if (x.purpose == 'L' && x.r == 1) {
        pbt::check(decoder->decodeBest(t) == words[0] && decoder->decodeBest(u) == words[0], "label_round_trip", pbt::str(pbt::quote(words[0]), " decodes as ", pbt::quote(decoder->decodeBest(t))));
        auto top = decoder->decodeTop(t, 1);
        pbt::check(top.size() == 1 && top[0] == words[0], "label_round_trip_top");
    }
    if (x.purpose == 'I') {
        auto art = decoder->decodeImage(t);
        pbt::check(art.size() == (x.r + 1) / 2, "image_lines", pbt::str(art.size(), " lines for ", x.r, " rows"));
        for (auto &l: art) pbt::check(l.size() == x.c, "image_columns");
        static const string ramp{' ', (char) 176, (char) 177, (char) 178, (char) 219};
        if (x.ch == 1 || x.ch == 3) for (size_t i = 0; i + 1 < x.r; i += 2) for (size_t i2 = 0; i2 + 1 < x.r; i2 += 2) for (size_t j = 0; j < x.c; j++) for (size_t j2 = 0; j2 < x.c; j2++) {
            auto light = [&](size_t a, size_t b) { // of two rows
                double s = 0, w[3] = {0.299, 0.587, 0.114};
                for (size_t k = 0; k < x.ch; k++) s += (x.ch == 1 ? 1 : w[k]) * (want[(k * x.r + a) * x.c + b] + want[(k * x.r + a + 1) * x.c + b]);
                return s;
            };
            size_t p = ramp.find(art[i / 2][j]), q = ramp.find(art[i2 / 2][j2]);
            pbt::check(p != string::npos && q != string::npos, "image_character");
            if (light(i, j) > light(i2, j2) + 0.01) pbt::check(p >= q, "image_shades", "a lighter place is drawn darker");
            if (light(i, j) == 0) pbt::check(p == 0, "image_black");
        }
    }
}

PBT_PROP(refused, 120000, 1200000, "a defect among two or more values") {
    Column x = gen_column(g);
    size_t n = words_of(x);
    g.is_nontrivial = n > 1;
    vector<string> words;
    for (size_t i = 0; i < n; i++) words.push_back(x.purpose == 'L' ? g.pick(x.labels) : x.purpose == 'I' ? pbt::str(g.draw(256)) : pbt::str(g.value()));
    int what = (int) g.draw(x.purpose == 'L' ? 4 : 2);
    size_t r = x.r, c = x.c, ch = x.ch;
    bool script = true;
    switch (what) {
        case 0: // another number of values
            if (g.flip()) words.resize(g.draw(words.size()));
            else for (size_t k = g.size(1, 5); k > 0; k--) words.push_back(words[0]);
            break;
        case 1: // a value that does not belong
            words[g.draw(n)] = x.purpose == 'L' ? g.pick({string("unknown"), string("aA"), string("a "), string("01")}) : g.pick({string("abc"), string("1x"), string("1 2"), string("--1"), string("1.5.2"), string("0x10"), string("e5"), string("."), string("1,5"), string("1e"), string("five"), string("1-2")});
            break;
        case 2: c += g.flip() ? 1 : c - 1 ? (size_t) -1 : 1; script = false; break;
        default: ch++; script = false;
    }
    g.note(x.purpose, " ", r, "x", c, "x", ch, ": ", pbt::join(words, "|").substr(0, 200));
    auto enc = encoder_of(x, g);
    pbt::check(refuses([&] { auto t = enc->encode(words, r, c, ch, false); (void) t->getValue(0, 0, 0); }), "file_accepted", pbt::str("defect ", what, " of a ", x.purpose, " column"));
    if (!script) return;
    vector<HappyMLVariant> given;
    for (auto &w: words) given.push_back(HappyMLVariant(w));
    if (g.chance(1, 6) && !given.empty() && x.purpose != 'L') given[g.draw(given.size())] = HappyMLVariant();
    HappyMLVariantEncoder venc(x.metadata());
    pbt::check(refuses([&] { auto t = venc.encode(given); (void) t->getValue(0, 0, 0); }), "script_accepted", pbt::str("defect ", what, " of a ", x.purpose, " column"));
}

PBT_PROP(best_labels, 300000, 3000000, "three or more labels") {
    size_t n = g.size(1, 12);
    vector<string> labels;
    vector<float> scores;
    bool ties = g.chance(1, 4);
    for (size_t i = 0; i < n; i++) {
        labels.push_back(pbt::str("l", i));
        scores.push_back(ties ? (float) g.range(0, 2) : g.value());
    }
    g.note(pbt::join(scores, " "));
    g.is_nontrivial = n > 2;
    BestTextCategoryDecoder d(labels);
    shared_ptr<BaseTensor> t = tensor({{scores}});
    float best = *max_element(scores.begin(), scores.end());
    auto index = [&](const string &l) {
        auto it = find(labels.begin(), labels.end(), l);
        pbt::check(it != labels.end(), "not_a_label", l);
        return (size_t) (it - labels.begin());
    };
    pbt::check(scores[index(d.decodeBest(t))] == best, "decode_best", pbt::str("score ", scores[index(d.decodeBest(t))], " is not the best ", best));
    size_t k = g.size(0, n + 2);
    auto top = d.decodeTop(t, k);
    auto sorted = scores;
    sort(sorted.rbegin(), sorted.rend());
    pbt::check(top.size() == min(k, n), "top_count", pbt::str(top.size(), " of ", n, " for the best ", k));
    set<string> distinct(top.begin(), top.end());
    pbt::check(distinct.size() == top.size(), "top_repeated");
    for (size_t i = 0; i < top.size(); i++) pbt::check(scores[index(top[i])] == sorted[i], "decode_top", pbt::str("place ", i, " has score ", scores[index(top[i])], " instead of ", sorted[i]));
    // a tensor with more positions than there are labels
    if (g.chance(1, 3)) {
        scores.push_back(best + 1);
        shared_ptr<BaseTensor> wide = tensor({{scores}});
        pbt::check(refuses([&] { (void) d.decodeBest(wide); }), "best_beyond_labels");
        pbt::check(refuses([&] { (void) d.decodeTop(wide, 1); }), "top_beyond_labels");
    }
}

// ---- the whole way: a data set file made from text against values given to a task with that data set's columns
PBT_PROP(script_like_file, 24000, 240000, "two or more rows and columns with numbers") {
    filesystem::remove_all("../happyml_repo");
    size_t nc = g.size(1, 4), at = 0, nr = g.size(1, 8);
    vector<Column> cols;
    vector<size_t> starts;
    vector<shared_ptr<ColumnGroup>> groups;
    vector<vector<float>> pools;
    for (size_t i = 0; i < nc; i++) {
        Column x;
        x.purpose = g.pick({'N', 'N', 'L', 'I'});
        x.r = x.purpose == 'L' ? 1 : g.size(1, 3);
        x.c = x.purpose == 'L' ? 1 : g.size(1, 3);
        x.ch = x.purpose == 'L' || g.flip() ? 1 : g.size(1, 2);
        x.low = g.pick({-50.f, 0.f, 1000.f, 0.5f});
        x.high = g.pick({0.25f, 1.f, 7.f, 125.f});
        if (x.purpose == 'L') for (size_t k = g.size(1, 5); k > 0; k--) x.labels.push_back(pbt::str("v", k));
        starts.push_back(at);
        size_t w = x.r * x.c * x.ch;
        groups.push_back(make_shared<ColumnGroup>(i + 1, at, w, "given", x.purpose == 'N' ? "number" : x.purpose == 'L' ? "label" : "image", pbt::str("c", i), x.r, x.c, x.ch));
        at += w;
        cols.push_back(x);
    }
    groups.push_back(make_shared<ColumnGroup>(nc + 1, at, 1, "expected", "number", "out", 1, 1, 1));
    vector<vector<string>> rows;
    string text;
    for (size_t i = 0; i < nr; i++) {
        vector<string> row;
        for (auto &x: cols) for (size_t k = x.r * x.c * x.ch; k > 0; k--) {
            if (x.purpose == 'L') row.push_back(g.pick(x.labels));
            else if (x.purpose == 'I') row.push_back(pbt::str(g.draw(256)));
            else row.push_back(pbt::str(x.low + x.high * (float) g.draw(6)));
        }
        row.push_back("1");
        rows.push_back(row);
        text += pbt::join(row, ",") + "\n";
    }
    g.note(pbt::quote(text.substr(0, 400)));
    for (auto &x: cols) g.note(x.purpose, " ", x.r, "x", x.c, "x", x.ch);
    g.is_nontrivial = nr > 1 && nc > 1 && any_of(cols.begin(), cols.end(), [](const Column &x) { return x.purpose == 'N'; });
    string path = pbt::case_dir() + "/s.csv";
    ofstream(path) << text;
    {
        Capture quiet;
        CreateDatasetStatement s("d", "file://" + path, false, groups, false);
        auto res = s.execute(make_shared<ExecutionContext>());
        pbt::check(res->isSuccessful(), "create_failed", res->getMessage());
    }
    BinaryDatasetReader reader(ExecutionContext::get_dataset_path("d") + "/dataset.bin");
    auto encoders = build_given_encoders(reader);
    auto decoders = build_given_decoders(false, reader);
    pbt::check(encoders.size() == nc && decoders.size() == nc, "columns");
    vector<vector<shared_ptr<BaseTensor>>> stored;
    for (size_t i = 0; i < reader.rowCount(); i++) stored.push_back(reader.readRow(i).first);
    set<size_t> met;
    for (auto &row: rows) {
        vector<shared_ptr<BaseTensor>> mine;
        for (size_t c = 0; c < nc; c++) {
            pbt::check(encoders[c]->get_name() == pbt::str("c", c), "encoder_name");
            vector<HappyMLVariant> given;
            for (size_t k = 0; k < cols[c].r * cols[c].c * cols[c].ch; k++) {
                string w = row[starts[c] + k];
                if (cols[c].purpose != 'L' && g.chance(1, 3)) given.push_back(HappyMLVariant(strtof(w.c_str(), nullptr)));
                else given.push_back(HappyMLVariant(w));
            }
            mine.push_back(encoders[c]->encode(given));
            // and back again
            if (cols[c].purpose == 'L') pbt::check(decoders[c]->decodeBest(mine[c]) == row[starts[c]], "label_back");
            if (cols[c].purpose == 'N') {
                auto back = decoders[c]->decode(mine[c]);
                size_t k = starts[c];
                for (size_t z = 0; z < cols[c].ch; z++) for (size_t y = 0; y < cols[c].r; y++) for (size_t q = 0; q < cols[c].c; q++, k++) {
                    double w = atof(row[k].c_str());
                    pbt::check(fabs(back->getValue(y, q, z) - w) < 1e-5 * (fabs(cols[c].low) + 8 * cols[c].high), "number_back", pbt::str(row[k], " comes back as ", back->getValue(y, q, z)));
                }
            }
        }
        bool found = false;
        for (size_t i = 0; i < stored.size() && !found; i++) {
            bool same = true;
            for (size_t c = 0; c < nc && same; c++) {
                auto &a = stored[i][c], &b = mine[c];
                pbt::check(a->rowCount() == b->rowCount() && a->columnCount() == b->columnCount() && a->channelCount() == b->channelCount(), "shapes_differ", pbt::str("column ", c));
                for (size_t z = 0; z < a->channelCount() && same; z++) for (size_t y = 0; y < a->rowCount() && same; y++) for (size_t q = 0; q < a->columnCount() && same; q++)
                    if (!(fabs(a->getValue(y, q, z) - b->getValue(y, q, z)) <= 1e-4)) same = false;
            }
            if (same) { found = true; met.insert(i); }
        }
        pbt::check(found, "encoded_otherwise", "the values of a row given to a task are not encoded as in the data set: " + pbt::join(row, ","));
    }
    pbt::check(met.size() == stored.size(), "record_unmatched", pbt::str(met.size(), " of ", stored.size(), " records met"));
}


// ---- a delimited file read into memory with encoders of the caller's choice
PBT_PROP(loaded, 60000, 600000, "two or more records of two or more values, given or expected") {
    Column cols[2]; // given, expected
    for (auto &x: cols) {
        x = gen_column(g);
        x.standardized = x.normalized = false;
        if (x.purpose == 'L') for (auto &l: x.labels) if (l == "\t") l = "tab";
    }
    bool trim = g.flip(), header = g.flip(), expected_first = g.flip();
    char delim = g.pick({',', ',', '\t', ';'});
    size_t n = g.size(0, 6), n0 = words_of(cols[0]), n1 = words_of(cols[1]);
    string path = pbt::case_dir() + "/values.txt";
    vector<vector<double>> want[2];
    vector<vector<string>> records;
    size_t bad = n > 0 && g.chance(1, 5) ? g.draw(n) : n;
    for (size_t i = 0; i < n; i++) {
        vector<string> part[2];
        for (int k = 0; k < 2; k++) {
            auto &x = cols[k];
            vector<double> w;
            for (size_t j = words_of(x); j > 0; j--) {
                if (x.purpose == 'L') {
                    size_t code = g.draw(x.labels.size());
                    for (size_t q = 0; q < x.c; q++) w.push_back(q == code ? 1 : 0);
                    part[k].push_back(x.labels[code]);
                } else {
                    double v = x.purpose == 'I' ? (double) g.draw(256) : (double) g.range(-4000, 4000) / 8;
                    w.push_back(v);
                    part[k].push_back(pbt::str(v));
                }
            }
            want[k].push_back(w);
        }
        auto &first = part[expected_first], &second = part[!expected_first];
        first.insert(first.end(), second.begin(), second.end());
        records.push_back(first);
    }
    string defect;
    if (bad < n) {
        auto &r = records[bad];
        switch (g.draw(4)) {
            case 0: defect = "too few values"; r.resize(g.size(1, r.size() - 1)); break;
            case 1: defect = "too many values"; r.push_back("1"); break;
            default: {
                size_t at = g.draw(r.size());
                defect = "an unreadable value";
                r[at] = g.pick({string("1x"), string("unheard"), string("--2")});
            }
        }
    }
    {
        DelimitedTextFileWriter w(path, delim);
        if (header) w.writeRecord(vector<string>(n0 + n1, "name"));
        for (auto &r: records) {
            auto q = r;
            if (trim) for (auto &x: q) x = blanks(g) + x;
            w.writeRecord(q);
        }
        w.close();
    }
    g.is_nontrivial = n > 1 && n0 + n1 > 2;
    g.label(defect.empty() ? expected_first ? "expected first" : "given first" : defect);
    for (auto &x: cols) g.note(x.purpose, " ", x.r, "x", x.c, "x", x.ch);
    g.note(header ? "header, " : "", expected_first ? "expected first, " : "", defect, " ", pbt::quote(pbt::read_file_text(path, 300)));
    vector<size_t> shape[2];
    shared_ptr<DataEncoder> enc[2];
    for (int k = 0; k < 2; k++) {
        shape[k] = {cols[k].r, cols[k].c, cols[k].ch};
        enc[k] = encoder_of(cols[k], g);
    }
    auto load = [&] { return loadDelimitedValuesDataset(path, delim, header, trim, expected_first, n1, n0, shape[1], shape[0], enc[1], enc[0]); };
    if (!defect.empty()) {
        pbt::check(refuses([&] { (void) load(); }), "defect_accepted", defect);
        return;
    }
    auto d = load();
    pbt::check(d->recordCount() == n, "record_count", pbt::str(d->recordCount(), " instead of ", n));
    d->restart();
    for (size_t i = 0; i < n; i++) {
        auto p = d->nextRecord();
        pbt::check(p != nullptr, "ends_early");
        for (int k = 0; k < 2; k++) {
            auto all = k ? p->getExpected() : p->getGiven();
            pbt::check(all.size() == 1, "tensors");
            auto &t = all[0];
            auto &x = cols[k];
            pbt::check(t->rowCount() == x.r && t->columnCount() == x.c && t->channelCount() == x.ch, "loaded_shape");
            size_t at = 0;
            for (size_t z = 0; z < x.ch; z++) for (size_t y = 0; y < x.r; y++) for (size_t q = 0; q < x.c; q++, at++) {
                double w = want[k][i][at] / (x.purpose == 'I' ? 255 : 1);
                pbt::check(fabs(t->getValue(y, q, z) - w) <= 1e-6 * max(1., fabs(w)), k ? "loaded_expected" : "loaded_given", pbt::str("record ", i, " holds ", t->getValue(y, q, z), " instead of ", w, " at ", y, ",", q, ",", z));
            }
        }
    }
    pbt::check(d->nextRecord() == nullptr, "goes_on");
}
