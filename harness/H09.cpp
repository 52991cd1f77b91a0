// H09: data set passes visit each record exactly once
#include "types/base_tensors.hpp"
#include "types/tensor_impls/uniform_tensor.hpp"
#include "training_data/training_dataset.hpp"
#include "pbt.hpp"

using namespace happyml;
using namespace std;
using pbt::Gen;
typedef shared_ptr<BaseTensor> T;

// record i has inputs 1000*(i+1)+column and outputs -(1000*(i+1)+column)
struct Shape { size_t r, c, ch; };

static T filled(const Shape &s, float v) { return make_shared<UniformTensor>(s.r, s.c, s.ch, v); }

static vector<T> side(const vector<Shape> &shapes, size_t i, float sign) {
    vector<T> r;
    for (size_t c = 0; c < shapes.size(); c++) r.push_back(filled(shapes[c], sign * (float) (1000 * (i + 1) + c)));
    return r;
}

static vector<Shape> gen_shapes(Gen &g, size_t lo) {
    vector<Shape> r;
    size_t n = g.size(lo, 3);
    for (size_t i = 0; i < n; i++) r.push_back({g.size(1, 2), g.size(1, 3), g.size(1, 2)});
    return r;
}

// which record this is, checking that its inputs and outputs belong together
static size_t identify(const shared_ptr<TrainingPair> &p, const vector<Shape> &gs, const vector<Shape> &es, size_t n) {
    auto a = p->getGiven(), b = p->getExpected();
    pbt::check(a.size() == gs.size() && p->getGivenSize() == gs.size(), "inputs", pbt::str(a.size(), " inputs instead of ", gs.size()));
    pbt::check(b.size() == es.size() && p->getExpectedSize() == es.size(), "outputs", pbt::str(b.size(), " outputs instead of ", es.size()));
    auto id = (size_t) (a[0]->getValue(0, 0, 0) / 1000) - 1;
    pbt::check(id < n, "unknown_record", pbt::str("there is no record with ", a[0]->getValue(0, 0, 0)));
    for (int s = 0; s < 2; s++) {
        auto &shapes = s ? es : gs;
        auto &t = s ? b : a;
        for (size_t c = 0; c < shapes.size(); c++) {
            pbt::check(t[c]->rowCount() == shapes[c].r && t[c]->columnCount() == shapes[c].c && t[c]->channelCount() == shapes[c].ch, "record_shape");
            float want = (s ? -1.f : 1.f) * (float) (1000 * (id + 1) + c);
            for (size_t k = 0; k < shapes[c].ch; k++) for (size_t i = 0; i < shapes[c].r; i++) for (size_t j = 0; j < shapes[c].c; j++)
                pbt::check(t[c]->getValue(i, j, k) == want, "record_torn", pbt::str("record ", id, s ? " output " : " input ", c, " holds ", t[c]->getValue(i, j, k), " instead of ", want));
        }
    }
    return id;
}

static void write_file(const string &path, size_t n, const vector<Shape> &gs, const vector<Shape> &es) {
    auto meta = [](const vector<Shape> &ss) {
        vector<shared_ptr<BinaryColumnMetadata>> r;
        for (auto &s: ss) {
            auto m = make_shared<BinaryColumnMetadata>();
            m->purpose = 'N';
            m->rows = s.r;
            m->columns = s.c;
            m->channels = s.ch;
            r.push_back(m);
        }
        return r;
    };
    BinaryDatasetWriter w(path, meta(gs), meta(es), 0);
    for (size_t i = 0; i < n; i++) w.writeRow(side(gs, i, 1), side(es, i, -1));
}

static shared_ptr<TrainingDataSet> in_memory(Gen &g, size_t n, const vector<Shape> &gs, const vector<Shape> &es) {
    auto d = make_shared<InMemoryTrainingDataSet>();
    for (size_t i = 0; i < n; i++) {
        if (gs.size() == 1 && es.size() == 1 && g.flip()) d->addTrainingData(side(gs, i, 1)[0], side(es, i, -1)[0]);
        else if (gs.size() == 1 && es.size() == 1 && es[0].r == 1 && es[0].c == 1 && es[0].ch == 1 && g.flip()) d->addTrainingData(side(gs, i, 1)[0], -(float) (1000 * (i + 1)));
        else d->addTrainingData(side(gs, i, 1), side(es, i, -1));
    }
    return d;
}

static vector<size_t> pass(const shared_ptr<TrainingDataSet> &d, const vector<Shape> &gs, const vector<Shape> &es, size_t n) {
    vector<size_t> order;
    d->restart();
    while (auto p = d->nextRecord()) {
        order.push_back(identify(p, gs, es, n));
        pbt::check(order.size() <= d->recordCount(), "endless", pbt::str("more than ", d->recordCount(), " records in a pass"));
    }
    pbt::check(d->nextRecord() == nullptr && d->nextRecord() == nullptr, "after_end", "there was a record after the end");
    return order;
}

static void exactly_once(vector<size_t> order, size_t first, size_t n, const string &what) {
    sort(order.begin(), order.end());
    for (size_t i = 0; i < order.size() || i < n; i++)
        if (i >= order.size() || i >= n || order[i] != first + i)
            pbt::fail("not_once", pbt::str(what, " visits ", pbt::join(order, ","), " (sorted) instead of each of ", first, "..", first + n - 1, " once"));
}

PBT_PROP(passes, 60000, 800000, "three or more records, and a pass in shuffled order or one cut short") {
    size_t n = g.chance(1, 20) ? g.size(0, 80) : g.size(0, 12);
    auto gs = gen_shapes(g, 1), es = gen_shapes(g, 1);
    bool binary = g.flip();
    string path = pbt::case_dir() + "/data.bin";
    auto make = [&]() -> shared_ptr<TrainingDataSet> {
        if (!binary) return in_memory(g, n, gs, es);
        write_file(path, n, gs, es);
        return make_shared<BinaryDataSet>(path);
    };
    auto d = make();
    g.note(binary ? "file" : "memory", " with ", n, " records, ", gs.size(), " inputs, ", es.size(), " outputs");
    pbt::check(d->recordCount() == n, "record_count", pbt::str(d->recordCount(), " records instead of ", n));
    if (n > 0 || binary) for (int s = 0; s < 2; s++) {
        auto &ss = s ? es : gs;
        auto got = s ? d->getExpectedShapes() : d->getGivenShapes();
        pbt::check(got.size() == ss.size(), "shapes");
        for (size_t c = 0; c < ss.size(); c++) pbt::check(got[c] == vector<size_t>{ss[c].r, ss[c].c, ss[c].ch}, "shapes", "the reported shape is not that of the records");
        pbt::check((s ? d->getExpectedShape() : d->getGivenShape()) == got[0], "first_shape");
    }
    shared_ptr<Shuffler> sh;
    vector<size_t> last;   // the order of the last whole pass, if nothing was shuffled since
    bool have_last = false;
    size_t ops = g.size(1, 10);
    for (size_t o = 0; o < ops; o++) switch (g.draw(6)) {
        case 0: case 1: {
            g.note("pass");
            auto order = pass(d, gs, es, n);
            exactly_once(order, 0, n, "a pass");
            if (!sh && !binary) pbt::check(is_sorted(order.begin(), order.end()), "insertion_order", "an unshuffled data set is not in the order its records were added");
            if (have_last) pbt::check(order == last, "order_changed", "the order changed without shuffling");
            last = order;
            have_last = true;
            if (sh && n > 2) g.nontrivial();
            break;
        }
        case 2: {
            d->restart();
            size_t k = g.size(0, n + 2);
            g.note("first ", k, " records");
            set<size_t> seen;
            for (size_t i = 0; i < k; i++) {
                auto p = d->nextRecord();
                pbt::check((p != nullptr) == (i < n), "early_end", pbt::str("record ", i, " of ", n, p ? " exists" : " is missing"));
                if (p) {
                    size_t id = identify(p, gs, es, n);
                    pbt::check(seen.insert(id).second, "twice", pbt::str("record ", id, " twice in a pass"));
                    if (have_last) pbt::check(last[i] == id, "order_changed", "the order changed without shuffling");
                }
            }
            if (k && k < n && n > 2) g.nontrivial();
            break;
        }
        case 3: {
            g.note("shuffler");
            if (g.chance(1, 6)) {
                d->setShuffler(nullptr);
                sh = nullptr;
            } else {
                sh = make_shared<Shuffler>(n);
                pbt::check(sh->getSize() == n, "shuffler_size");
                d->setShuffler(sh);
            }
            have_last = false;
            break;
        }
        case 4:
            if (sh) {
                g.note("shuffle");
                if (g.chance(1, 3)) sh->shuffle_predictably();
                else sh->shuffle();
                vector<size_t> p;
                for (size_t i = 0; i < n; i++) p.push_back(sh->getShuffledIndex(i));
                exactly_once(p, 0, n, "the shuffler");
                pbt::check(sh->getSize() == n, "shuffler_size");
                have_last = false;
            }
            break;
        default: {
            g.note("refusals");
            bool refused = false;
            try { d->setShuffler(make_shared<Shuffler>(n + 1 + g.draw(3))); } catch (const runtime_error &) { refused = true; }
            pbt::check(refused, "shuffler_of_other_size", "a shuffler for another number of records was not refused");
            if (n > 0) {
                refused = false;
                try { d->setShuffler(make_shared<Shuffler>(g.draw(n))); } catch (const runtime_error &) { refused = true; }
                pbt::check(refused, "shuffler_of_other_size", "a shuffler for another number of records was not refused");
            }
            if (sh && !binary) {
                refused = false;
                try { static_pointer_cast<InMemoryTrainingDataSet>(d)->addTrainingData(side(gs, n, 1), side(es, n, -1)); } catch (const runtime_error &) { refused = true; }
                pbt::check(refused && d->recordCount() == n, "added_while_shuffled", "a record was added to a data set with a shuffler");
            }
        }
    }
}

// one shuffler keeps the matching records of two data sets together
PBT_PROP(shared_shuffler, 30000, 300000, "three or more records") {
    size_t n = g.size(1, 20);
    g.is_nontrivial = n > 2;
    auto gs = gen_shapes(g, 1), es = gen_shapes(g, 1), gs2 = gen_shapes(g, 1), es2 = gen_shapes(g, 1);
    auto a = in_memory(g, n, gs, es);
    shared_ptr<TrainingDataSet> b;
    bool binary = g.flip();
    if (binary) {
        string path = pbt::case_dir() + "/data.bin";
        write_file(path, n, gs2, es2);
        b = make_shared<BinaryDataSet>(path);
    } else b = in_memory(g, n, gs2, es2);
    g.note(n, " records, the second ", binary ? "in a file" : "in memory");
    auto sh = make_shared<Shuffler>(n);
    a->setShuffler(sh);
    b->setShuffler(sh);
    auto plain_a = pass(a, gs, es, n), plain_b = pass(b, gs2, es2, n);
    if (g.flip()) sh->shuffle();
    else sh->shuffle_predictably();
    auto x = pass(a, gs, es, n), y = pass(b, gs2, es2, n);
    exactly_once(x, 0, n, "the first data set");
    exactly_once(y, 0, n, "the second data set");
    for (size_t i = 0; i < n; i++) pbt::check(plain_a[sh->getShuffledIndex(i)] == x[i], "not_as_shuffled", "a pass does not follow the shuffler");
    if (plain_a == plain_b) pbt::check(x == y, "separated", "two data sets sharing a shuffler deliver their records in different orders");
    auto one = make_shared<Shuffler>(n), two = make_shared<Shuffler>(n);
    one->shuffle_predictably();
    two->shuffle_predictably();
    for (size_t i = 0; i < n; i++) pbt::check(one->getShuffledIndex(i) == two->getShuffledIndex(i), "unpredictable", "predictable shuffles differ");
}

PBT_PROP(splits, 40000, 500000, "both parts hold a record") {
    size_t n = g.chance(1, 30) ? g.size(0, 300) : g.size(0, 40);
    vector<Shape> gs{{1, 1, 1}}, es{{1, 1, 1}};
    string path = pbt::case_dir() + "/data.bin";
    write_file(path, n, gs, es);
    int den = g.pick({10, 10, 100, 100, 1000, 20, 8, 3}), num = (int) g.range(1, den - 1);
    float split = (float) num / (float) den, rest;
    switch (g.draw(3)) {
        case 0: rest = (float) (den - num) / (float) den; break;
        case 1: rest = 1.0f - split; break;
        default: rest = (float) (1.0 - (double) num / den);
    }
    g.note(n, " records split ", split, " and ", -rest);
    bool with_metadata = g.flip();
    vector<shared_ptr<BinaryColumnMetadata>> none;
    auto a = with_metadata ? make_shared<BinaryDataSet>(path, none, none, split) : make_shared<BinaryDataSet>(path, split);
    auto b = with_metadata ? make_shared<BinaryDataSet>(path, none, none, -rest) : make_shared<BinaryDataSet>(path, -rest);
    size_t na = a->recordCount(), nb = b->recordCount();
    g.is_nontrivial = na && nb;
    pbt::check(na + nb == n, "sizes", pbt::str("parts of ", na, " and ", nb, " records of ", n));
    pbt::check(fabs((double) na - (double) n * num / den) <= 1.000001, "proportion", pbt::str(na, " of ", n, " records for a share of ", split));
    for (int round = 0; round < 3; round++) {
        if (round == 1) {
            auto s1 = make_shared<Shuffler>(na), s2 = make_shared<Shuffler>(nb);
            s1->shuffle();
            s2->shuffle();
            a->setShuffler(s1);
            b->setShuffler(s2);
        }
        auto x = pass(a, gs, es, n), y = pass(b, gs, es, n);
        pbt::check(x.size() == na && y.size() == nb, "delivered", pbt::str(x.size(), " and ", y.size(), " records delivered, ", na, " and ", nb, " reported"));
        x.insert(x.end(), y.begin(), y.end());
        exactly_once(x, 0, n, "the two parts");
    }
    auto whole = make_shared<BinaryDataSet>(path, g.flip() ? 1.0f : -1.0f);
    exactly_once(pass(whole, gs, es, n), 0, n, "the whole");
}
