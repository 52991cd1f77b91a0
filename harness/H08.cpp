// H08: binary data set files give back every record written
#include "types/base_tensors.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "util/dataset_utils.hpp"
#include "dense.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;
typedef shared_ptr<BaseTensor> T;
typedef vector<shared_ptr<BinaryColumnMetadata>> Meta;

static shared_ptr<BinaryColumnMetadata> gen_column(Gen &g, bool scaled) {
    auto m = make_shared<BinaryColumnMetadata>();
    m->purpose = g.pick({'N', 'N', 'L', 'I', 'T'});
    m->rows = g.chance(1, 2) ? 1 : g.size(1, 4);
    m->columns = g.size(1, 5);
    m->channels = g.chance(2, 3) ? 1 : g.size(1, 3);
    m->source_column_count = g.chance(1, 5) ? g.draw(1000000000000ull) : m->rows * m->columns * m->channels;
    m->is_standardized = scaled && g.flip();
    m->is_normalized = scaled && g.flip();
    m->mean = g.value(100);
    m->standard_deviation = g.chance(1, 8) ? 0.f : fabs(g.value(20)) + 0.1f;
    m->min_value = g.value(50);
    m->max_value = g.chance(1, 8) ? m->min_value : m->min_value + fabs(g.value(30)) + 0.1f;
    size_t labels = m->purpose == 'L' || g.chance(1, 6) ? g.size(0, 5) : 0;
    for (size_t i = 0; i < labels; i++) m->ordered_labels.push_back(g.pick({string("a"), string(""), string("two words"), string("\xc3\xa9"), string("x\ny"), string(300, 'q'), string("a\0b", 3)}));
    if (m->purpose == 'L' && g.flip()) { // as data sets have them: a label for each position
        m->channels = 1;
        m->columns = g.size(1, 6);
        vector<string> pool = {"a", "", "two words", "\xc3\xa9", "x\ny", string(300, 'q'), "A", "a ", "b", "10"};
        g.shuffle(pool);
        m->ordered_labels.assign(pool.begin(), pool.begin() + m->columns);
    }
    m->name = g.pick({string("column"), string(""), string("a b:c"), string(70, 'n'), string("\xe2\x82\xac")});
    return m;
}

static Dense gen_record(Gen &g, const BinaryColumnMetadata &m, bool wild) {
    Dense d(m.rows, m.columns, m.channels);
    if (m.purpose == 'L') {
        d.v[g.draw(d.v.size())] = 1;
        return d;
    }
    for (auto &x: d.v) {
        if (m.purpose == 'I') x = g.chance(1, 4) ? (float) g.draw(2) : g.chance(1, 4) ? (float) (g.draw(256) / 255.0) : (float) g.unit();
        else if (wild && g.chance(1, 8)) x = g.pick({1e-30f, 2e-30f, -0.0f, 3e38f, 1e-44f, 16777217.f, 0.1f, 1e-16f});
        else x = g.chance(1, 3) ? (float) g.draw(3) : g.value(100);
    }
    return d;
}

static string key_of(const vector<Dense> &ds) { // as the tensors present themselves to the writer
    string s;
    for (auto &d: ds) for (double x: d.v) { float f = (float) x; s.append((char *) &f, 4); }
    return s;
}

static vector<T> tensors(const vector<Dense> &ds, const Meta &m, Gen &g) {
    vector<T> r;
    for (size_t i = 0; i < ds.size(); i++) {
        T t = make_shared<FullTensor>(nested(ds[i]));
        if (m[i]->purpose == 'I' && g.flip()) t = make_shared<PixelTensor>(t);
        else if (g.chance(1, 4)) t = make_shared<TransposeTensorView>(make_shared<TransposeTensorView>(t)); // not stored
        r.push_back(t);
    }
    return r;
}

static void check_tensors(const vector<T> &got, const vector<Dense> &want, const Meta &m, const string &where) {
    pbt::check(got.size() == want.size(), "column_count", pbt::str(where, ": ", got.size(), " columns instead of ", want.size()));
    for (size_t c = 0; c < want.size(); c++) {
        const Dense &d = want[c];
        pbt::check(got[c]->rowCount() == d.r && got[c]->columnCount() == d.c && got[c]->channelCount() == d.ch, "shape", where + ": a column has another shape");
        for (size_t k = 0; k < d.ch; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) {
            float w = (float) d.get(i, j, k), v = got[c]->getValue(i, j, k);
            bool ok = m[c]->purpose == 'I' ? fabs(v - w) <= 1.001 / 255 : (v == w && signbit(v) == signbit(w));
            if (!ok) pbt::fail(m[c]->purpose == 'I' ? "image_value" : "value", pbt::str(where, ", column ", c, " (", m[c]->purpose, ") at ", i, ",", j, ",", k, ": ", v, " instead of ", w));
        }
    }
}

static void check_meta(const shared_ptr<BinaryColumnMetadata> &a, const shared_ptr<BinaryColumnMetadata> &b, const string &where) {
    pbt::check(a->purpose == b->purpose, "purpose", where);
    pbt::check(a->is_standardized == b->is_standardized && a->is_normalized == b->is_normalized, "flags", where);
    pbt::check(a->mean == b->mean, "mean", where);
    pbt::check(a->standard_deviation == b->standard_deviation, "deviation", where);
    pbt::check(a->min_value == b->min_value && a->max_value == b->max_value, "range", where);
    pbt::check(a->source_column_count == b->source_column_count, "source_columns", where);
    pbt::check(a->rows == b->rows && a->columns == b->columns && a->channels == b->channels, "dimensions", where);
    pbt::check(a->ordered_labels == b->ordered_labels, "labels", where);
    pbt::check(a->name == b->name, "name", where);
}

struct File {
    Meta gm, em;
    vector<vector<Dense>> given, expected; // the records that were accepted
};

// writes generated records, checking which ones the writer accepts
static File write_file(Gen &g, const string &path, bool scaled, bool wild, size_t max_records) {
    File f;
    size_t ng = g.size(1, 3), ne = g.size(0, 3);
    for (size_t i = 0; i < ng; i++) f.gm.push_back(gen_column(g, scaled));
    for (size_t i = 0; i < ne; i++) f.em.push_back(gen_column(g, scaled));
    size_t n = g.size(0, max_records);
    size_t cache = g.pick({(size_t) 100000, (size_t) 100000, (size_t) 0, (size_t) 1, (size_t) 3});
    g.note(ng, " given columns, ", ne, " expected columns, ", n, " records offered, remembering ", cache);
    unique_ptr<BinaryDatasetWriter> w(ne == 0 && g.flip() ? new BinaryDatasetWriter(path, f.gm, cache) : new BinaryDatasetWriter(path, f.gm, f.em, cache));
    pbt::check(w->is_open(), "open");
    list<string> remembered;
    vector<vector<Dense>> offered;
    for (size_t i = 0; i < n; i++) {
        vector<Dense> a, b;
        if (!offered.empty() && g.chance(1, 5)) a = g.pick(offered);
        else for (auto &m: f.gm) a.push_back(gen_record(g, *m, wild));
        if (!offered.empty() && g.chance(1, 5)) { // barely another record
            a = g.pick(offered);
            size_t at = g.draw(a.size());
            auto &d = a[at];
            size_t o = g.draw(d.v.size());
            if (f.gm[at]->purpose != 'L') d.v[o] = d.v[o] == 0 ? 1e-20 : (double) nextafterf((float) d.v[o], 0);
        }
        for (auto &m: f.em) b.push_back(gen_record(g, *m, wild));
        offered.push_back(a);
        auto ta = tensors(a, f.gm, g);
        // what the writer is offered (pixels are already rounded)
        vector<Dense> seen = a;
        for (size_t c = 0; c < a.size(); c++) for (size_t k = 0; k < a[c].ch; k++) for (size_t r = 0; r < a[c].r; r++) for (size_t j = 0; j < a[c].c; j++) seen[c].set(r, j, k, ta[c]->getValue(r, j, k));
        string key = key_of(seen);
        bool known = find(remembered.begin(), remembered.end(), key) != remembered.end();
        bool written = ne == 0 && g.flip() ? w->writeRow(ta) : w->writeRow(ta, tensors(b, f.em, g));
        if (known) pbt::check(!written, "duplicate_written", "a record with the same inputs as a remembered one was written again");
        else pbt::check(written, "dropped", "a record with new inputs was not written");
        if (!known && cache > 0) {
            remembered.push_front(key);
            if (remembered.size() > cache) remembered.pop_back();
        }
        if (written) {
            f.given.push_back(seen);
            f.expected.push_back(b);
        }
    }
    if (g.flip()) w->close();
    return f;
}

PBT_PROP(records, 60000, 800000, "two or more records in two or more columns") {
    string path = pbt::case_dir() + "/data.bin";
    File f = write_file(g, path, true, true, 12);
    g.is_nontrivial = f.given.size() > 1 && f.gm.size() + f.em.size() > 1;
    BinaryDatasetReader r(path);
    pbt::check(r.is_open(), "open");
    pbt::check(r.rowCount() == f.given.size(), "row_count", pbt::str(r.rowCount(), " records instead of ", f.given.size()));
    pbt::check(r.get_given_column_count() == f.gm.size() && r.get_expected_column_count() == f.em.size(), "columns");
    vector<string> names;
    for (size_t i = 0; i < f.gm.size(); i++) {
        auto &m = f.gm[i];
        check_meta(r.get_given_metadata(i), m, "given");
        check_meta(r.get_given_metadata()[i], m, "given");
        pbt::check(r.getGivenTensorPurpose(i) == m->purpose && r.get_given_name((int) i) == m->name && r.getGivenTensorOrderedLabels((int) i) == m->ordered_labels && r.getGivenTensorDims(i) == vector<size_t>{m->rows, m->columns, m->channels}, "given_getters");
        names.push_back(m->name);
    }
    pbt::check(r.get_given_names() == names, "given_names");
    names.clear();
    for (size_t i = 0; i < f.em.size(); i++) {
        auto &m = f.em[i];
        check_meta(r.get_expected_metadata(i), m, "expected");
        check_meta(r.get_expected_metadata()[i], m, "expected");
        pbt::check(r.getExpectedTensorPurpose(i) == m->purpose && r.get_expected_name((int) i) == m->name && r.getExpectedTensorOrderedLabels((int) i) == m->ordered_labels && r.getExpectedTensorDims(i) == vector<size_t>{m->rows, m->columns, m->channels} && r.is_normalized(i) == m->is_normalized && r.is_standardized(i) == m->is_standardized, "expected_getters");
        names.push_back(m->name);
    }
    pbt::check(r.get_expected_names() == names, "expected_names");
    vector<size_t> order;
    for (size_t i = 0; i < f.given.size(); i++) order.push_back(i);
    if (g.flip()) g.shuffle(order);
    for (size_t i = 0; !order.empty() && i < 3; i++) order.push_back(g.pick(order));
    for (size_t i: order) {
        if (g.chance(1, 6)) {
            bool refused = false;
            try { r.readRow(f.given.size() + g.draw(3)); } catch (const runtime_error &) { refused = true; }
            pbt::check(refused, "past_end", "reading past the last record was not refused");
        }
        auto row = r.readRow(i);
        check_tensors(row.first, f.given[i], f.gm, pbt::str("record ", i, ", inputs"));
        check_tensors(row.second, f.expected[i], f.em, pbt::str("record ", i, ", outputs"));
    }
    bool refused = false;
    try { r.get_given_metadata(f.gm.size()); } catch (const runtime_error &) { refused = true; }
    pbt::check(refused, "no_such_column");
    r.close();
}

// value -> value under the other parameters, with the size of the intermediate numbers
static void rescale(double &x, double &mag, const BinaryColumnMetadata &a, const BinaryColumnMetadata &b) {
    mag = fabs(x);
    auto grow = [&](double k) { mag = max(mag * fabs(k), fabs(x)); };
    auto range = [](const BinaryColumnMetadata &m) { double r = (float) (m.max_value - m.min_value); return r == 0 ? 1 : r; };
    auto dev = [](const BinaryColumnMetadata &m) { return m.standard_deviation == 0 ? 1.0 : m.standard_deviation; };
    if (a.is_normalized) { x = x * range(a) + a.min_value; mag = mag * range(a) + fabs(a.min_value); }
    if (a.is_standardized) { x = x * dev(a) + a.mean; mag = mag * dev(a) + fabs(a.mean); }
    if (b.is_standardized) { x = (x - b.mean) / dev(b); mag = (mag + fabs(b.mean)) / dev(b); }
    if (b.is_normalized) { x = (x - b.min_value) / range(b); mag = (mag + fabs(b.min_value)) / range(b); }
    (void) grow;
}

static bool one_per_label(const BinaryColumnMetadata &m) {
    set<string> different(m.ordered_labels.begin(), m.ordered_labels.end());
    return m.purpose == 'L' && m.channels == 1 && m.ordered_labels.size() == m.columns && different.size() == m.columns;
}

// a column that takes the place of another one: other parameters, labels in other positions
static shared_ptr<BinaryColumnMetadata> gen_other(Gen &g, const BinaryColumnMetadata &own) {
    auto m = gen_column(g, true);
    m->purpose = own.purpose;
    m->rows = own.rows; m->columns = own.columns; m->channels = own.channels;
    m->ordered_labels = own.ordered_labels;
    if (one_per_label(own) && g.chance(3, 4)) {
        if (g.chance(1, 6)) m->ordered_labels.erase(m->ordered_labels.begin() + g.draw(m->ordered_labels.size()));
        for (int more = (int) g.size(0, 2); more > 0; more--) m->ordered_labels.push_back("new " + to_string(more));
        if (m->ordered_labels.empty()) m->ordered_labels.push_back("only");
        g.shuffle(m->ordered_labels);
        m->columns = m->ordered_labels.size();
    }
    return m;
}

PBT_PROP(rescaled, 60000, 800000, "two or more columns of which one or more is rescaled or has its labels elsewhere, and a record") {
    string path = pbt::case_dir() + "/data.bin";
    File f = write_file(g, path, true, false, 5);
    Meta gm, em;
    int which = (int) g.draw(4); // 0: neither, 1: inputs, 2: outputs, 3: both
    bool any_scaled = false;
    auto differs = [](const BinaryColumnMetadata &a, const BinaryColumnMetadata &b) { return b.is_normalized || b.is_standardized || a.ordered_labels != b.ordered_labels; };
    if (which & 1) for (auto &m: f.gm) { gm.push_back(gen_other(g, *m)); any_scaled = any_scaled || differs(*m, *gm.back()); }
    if (which & 2) for (auto &m: f.em) { em.push_back(gen_other(g, *m)); any_scaled = any_scaled || differs(*m, *em.back()); }
    g.is_nontrivial = any_scaled && f.gm.size() + f.em.size() > 1 && !f.given.empty();
    if (g.chance(1, 20)) {
        auto wrong = gm.empty() ? f.gm : gm;
        wrong.push_back(gen_column(g, true));
        bool refused = false;
        try { BinaryDatasetReader r(path, wrong, {}); } catch (const runtime_error &) { refused = true; }
        pbt::check(refused, "other_columns", "parameters for another number of columns were not refused");
        auto wrong_e = em.empty() ? f.em : em;
        wrong_e.push_back(gen_column(g, true));
        refused = false;
        try { BinaryDatasetReader r(path, {}, wrong_e); } catch (const runtime_error &) { refused = true; }
        pbt::check(refused, "other_columns", "parameters for another number of columns were not refused");
    }
    BinaryDatasetReader r(path, gm, em);
    if (g.flip()) for (int side = 0; side < 2; side++) for (size_t c = 0; c < (side ? em : gm).size(); c++) {
        auto &m = (side ? em : gm)[c];
        auto dims = side ? r.getExpectedTensorDims(c) : r.getGivenTensorDims(c);
        pbt::check(dims == vector<size_t>{m->rows, m->columns, m->channels}, "rescaled_dimensions", "the shape of a column read for another one");
    }
    for (size_t i = 0; i < f.given.size(); i++) {
        // a label the other column lacks can't be given
        bool lacking = false;
        vector<vector<int>> places[2];
        for (int side = 0; side < 2; side++) {
            auto &own = side ? f.em : f.gm;
            auto &to = side ? em : gm;
            for (size_t c = 0; c < own.size(); c++) {
                vector<int> place; // of each position
                for (size_t j = 0; j < own[c]->columns; j++) place.push_back((int) j);
                if (!to.empty() && one_per_label(*own[c]) && own[c]->ordered_labels != to[c]->ordered_labels) {
                    auto &labels = to[c]->ordered_labels;
                    auto &d = (side ? f.expected : f.given)[i][c];
                    for (size_t j = 0; j < place.size(); j++) {
                        auto at = find(labels.begin(), labels.end(), own[c]->ordered_labels[j]);
                        place[j] = at == labels.end() ? -1 : (int) (at - labels.begin());
                        for (size_t rr = 0; rr < own[c]->rows; rr++) if (at == labels.end() && d.get(rr, j, 0) != 0) lacking = true;
                    }
                }
                places[side].push_back(place);
            }
        }
        if (lacking) {
            bool refused = false;
            try { r.readRow(i); } catch (const runtime_error &) { refused = true; }
            pbt::check(refused, "unknown_label", pbt::str("record ", i, " has a label that is not among the labels it is read for, and was not refused"));
            g.label("unknown label");
            continue;
        }
        auto row = r.readRow(i);
        for (int side = 0; side < 2; side++) {
            auto &got = side ? row.second : row.first;
            auto &own = side ? f.em : f.gm;
            auto &to = side ? em : gm;
            for (size_t c = 0; c < own.size(); c++) {
                const Dense &stored = (side ? f.expected : f.given)[i][c];
                Dense want = stored;
                if (!to.empty() && own[c]->columns != to[c]->columns) want = Dense(own[c]->rows, to[c]->columns, own[c]->channels);
                else want = Dense(own[c]->rows, own[c]->columns, own[c]->channels);
                for (size_t k = 0; k < want.ch; k++) for (size_t rr = 0; rr < want.r; rr++) for (size_t j = 0; j < stored.c; j++) if (places[side][c][j] >= 0) want.set(rr, places[side][c][j], k, stored.get(rr, j, k));
                pbt::check(got[c]->rowCount() == want.r && got[c]->columnCount() == want.c && got[c]->channelCount() == want.ch, "rescaled_shape", pbt::str("record ", i, side ? ", output " : ", input ", c, " has another shape"));
                for (size_t k = 0; k < want.ch; k++) for (size_t rr = 0; rr < want.r; rr++) for (size_t j = 0; j < want.c; j++) {
                    double x = (float) want.get(rr, j, k), mag = 1;
                    if (own[c]->purpose == 'I') x = floor(x * 255.0 + 1e-4) / 255.0; // stored by pixel steps
                    double scale = 1;
                    if (!to.empty()) {
                        double y = x + 1.0 / 255, ignored;
                        rescale(x, mag, *own[c], *to[c]);
                        rescale(y, ignored, *own[c], *to[c]);
                        scale = fabs(y - x);
                    } else { mag = fabs(x); scale = 1.0 / 255; }
                    double tol = 1e-6 * mag + 1e-9 + (own[c]->purpose == 'I' ? 1.01 * scale : 0);
                    double v = got[c]->getValue(rr, j, k);
                    if (!(fabs(v - x) <= tol)) pbt::fail("rescaled_value", pbt::str("record ", i, side ? ", output " : ", input ", c, " of ", own.size(), " at ", rr, ",", j, ",", k, ": ", v, " instead of ", x, " (purpose ", own[c]->purpose, ", stored ", want.get(rr, j, k), ", at ", c < to.size() ? "new parameters" : "its own parameters", ")"));
                }
            }
        }
    }
}

PBT_PROP(copied, 40000, 400000, "a numeric column among two or more columns, and two or more records") {
    string dir = pbt::case_dir(), path = dir + "/raw.bin", out = dir + "/out";
    filesystem::create_directories(out);
    File f;
    size_t ng = g.size(1, 3), ne = g.size(0, 3), n = g.size(1, 10);
    bool numbers = false;
    struct Style { double offset, scale; };
    vector<Style> sg, se;
    auto style = [&]() { return Style{g.chance(1, 2) ? 0.0 : (double) g.value(g.flip() ? 10.f : 100000.f), g.pick({0.0, 0.01, 1.0, 30.0, 5000.0})}; };
    for (size_t i = 0; i < ng + ne; i++) {
        auto m = gen_column(g, false);
        m->mean = m->standard_deviation = m->min_value = m->max_value = 0;
        numbers = numbers || m->purpose == 'N';
        (i < ng ? f.gm : f.em).push_back(m);
        (i < ng ? sg : se).push_back(style());
    }
    g.note(ng, " given columns, ", ne, " expected columns, ", n, " records");
    g.is_nontrivial = numbers && ng + ne > 1 && n > 1;
    {
        BinaryDatasetWriter w(path, f.gm, f.em, 0);
        for (size_t i = 0; i < n; i++) {
            vector<Dense> a, b;
            for (size_t c = 0; c < ng + ne; c++) {
                auto &m = c < ng ? f.gm[c] : f.em[c - ng];
                auto &s = c < ng ? sg[c] : se[c - ng];
                Dense d = gen_record(g, *m, false);
                if (m->purpose == 'N') for (auto &x: d.v) x = (float) (s.offset + s.scale * ((double) g.draw(2001) / 1000 - 1));
                (c < ng ? a : b).push_back(d);
            }
            w.writeRow(tensors(a, f.gm, g), tensors(b, f.em, g));
            f.given.push_back(a);
            f.expected.push_back(b);
        }
    }
    normalize_and_standardize_dataset(path, out);
    BinaryDatasetReader r(out + "/dataset.bin");
    pbt::check(r.rowCount() == n, "copied_row_count", pbt::str(r.rowCount(), " records instead of ", n));
    pbt::check(r.get_given_column_count() == ng && r.get_expected_column_count() == ne, "copied_columns");
    for (int side = 0; side < 2; side++) for (size_t c = 0; c < (side ? ne : ng); c++) {
        auto &own = side ? f.em[c] : f.gm[c];
        auto m = side ? r.get_expected_metadata(c) : r.get_given_metadata(c);
        auto &values = side ? f.expected : f.given;
        string where = pbt::str(side ? "output " : "input ", c);
        pbt::check(m->purpose == own->purpose && m->name == own->name && m->ordered_labels == own->ordered_labels && m->rows == own->rows && m->columns == own->columns && m->channels == own->channels, "copied_description", where);
        double sum = 0, count = 0, mn = INFINITY, mx = -INFINITY, var = 0, ma = 0;
        for (auto &rec: values) for (double x: rec[c].v) { sum += x; count++; mn = min(mn, x); mx = max(mx, x); ma = max(ma, fabs(x)); }
        for (auto &rec: values) for (double x: rec[c].v) var += (x - sum / count) * (x - sum / count);
        double mean = sum / count, sd = sqrt(var / count);
        if (own->purpose != 'N') pbt::check(!m->is_standardized && !m->is_normalized, "copied_flags", where + " is no number but is marked as rescaled");
        else {
            pbt::check(m->is_normalized, "copied_flags", where + " is a number and not normalized");
            if (fabs(sd - 1) > 1e-3) pbt::check(m->is_standardized == (sd > 1), "copied_flags", pbt::str(where, " has a deviation of ", sd, " and is ", m->is_standardized ? "" : "not ", "standardized"));
            pbt::check(fabs(m->mean - mean) <= 1e-6 * ma + 1e-30, "copied_mean", pbt::str(where, ": mean ", m->mean, " instead of ", mean));
            pbt::check(fabs(m->standard_deviation - sd) <= 1e-6 * ma + 1e-5 * sd, "copied_deviation", pbt::str(where, ": deviation ", m->standard_deviation, " instead of ", sd));
        }
        for (size_t i = 0; i < n; i++) {
            auto row = r.readRow(i);
            T t = (side ? row.second : row.first)[c], undone = t;
            unstandardize_and_denormalize(undone, m);
            Dense &d = values[i][c];
            for (size_t k = 0; k < d.ch; k++) for (size_t rr = 0; rr < d.r; rr++) for (size_t j = 0; j < d.c; j++) {
                double x = (float) d.get(rr, j, k), v = t->getValue(rr, j, k), u = undone->getValue(rr, j, k);
                if (own->purpose == 'I') { pbt::check(fabs(v - x) <= 1.001 / 255, "copied_image", pbt::str(where, ": ", v, " instead of ", x)); continue; }
                if (own->purpose != 'N') { pbt::check(v == x, "copied_value", pbt::str(where, ": ", v, " instead of ", x)); continue; }
                double lo = m->is_standardized ? (mn - mean) / sd : mn, hi = m->is_standardized ? (mx - mean) / sd : mx, y = m->is_standardized ? (x - mean) / sd : x;
                double eps = 1e-6 * ma / (m->is_standardized ? sd : 1) + 2e-6 * fabs(y); // what the stored parameters cannot tell apart
                double range = hi - lo;
                if (mx > mn && eps < 0.01 * range) {
                    double want = (y - lo) / range;
                    pbt::check(fabs(v - want) <= 4 * eps / range + 1e-5, "normalized_value", pbt::str(where, ", record ", i, ": ", v, " instead of ", want));
                }
                pbt::check(fabs(u - x) <= 2e-6 * ma + 2e-6 * sd + 1e-30, "undone_value", pbt::str(where, ", record ", i, ": undone to ", u, " instead of ", x));
            }
        }
    }
}
