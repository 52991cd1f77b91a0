// H03: lazy tensor expressions equal their dense evaluation
#include "util/tensor_utils.hpp"
#include "types/tensor_impls/tensor_from_function.hpp"
#include "types/tensor_impls/uniform_tensor.hpp"
#include "types/tensor_impls/identity_tensor.hpp"
#include "types/tensor_views/absolute_tensor_view.hpp"
#include "types/tensor_views/add_tensor_view.hpp"
#include "types/tensor_views/channel_to_tensor_view.hpp"
#include "types/tensor_views/clip_tensor_view.hpp"
#include "types/tensor_views/column_flatten_tensor_view.hpp"
#include "types/tensor_views/concat_wide_tensor_view.h"
#include "types/tensor_views/denormalize_tensor_view.hpp"
#include "types/tensor_views/diagonal_tensor_view.hpp"
#include "types/tensor_views/dot_product_tensor_view.hpp"
#include "types/tensor_views/element_wise_divide_tensor_view.hpp"
#include "types/tensor_views/element_wise_inverse_tensor_view.hpp"
#include "types/tensor_views/element_wise_multiply_tensor_view.hpp"
#include "types/tensor_views/exponential_tensor_view.hpp"
#include "types/tensor_views/inverse_tensor_view.hpp"
#include "types/tensor_views/less_than_scalar_tensor_view.hpp"
#include "types/tensor_views/log2_tensor_view.hpp"
#include "types/tensor_views/log_tensor_view.hpp"
#include "types/tensor_views/masked_select_tensor_view.hpp"
#include "types/tensor_views/matrix_divide_tensor_view.hpp"
#include "types/tensor_views/matrix_multiply_tensor_view.hpp"
#include "types/tensor_views/noop_tensor_view.hpp"
#include "types/tensor_views/normalize_tensor_view.hpp"
#include "types/tensor_views/outer_product_tensor_view.hpp"
#include "types/tensor_views/power_tensor_view.hpp"
#include "types/tensor_views/reshape_tensor_view.hpp"
#include "types/tensor_views/rotate_180_tensor_view.hpp"
#include "types/tensor_views/round_tensor_view.hpp"
#include "types/tensor_views/row_flatten_tensor_view.hpp"
#include "types/tensor_views/scalar_add_tensor_view.hpp"
#include "types/tensor_views/scalar_divide_tensor_view.hpp"
#include "types/tensor_views/scalar_multiply_tensor_view.hpp"
#include "types/tensor_views/scalar_subtract_tensor_view.hpp"
#include "types/tensor_views/sqrt_tensor_view.hpp"
#include "types/tensor_views/standardize_tensor_view.hpp"
#include "types/tensor_views/subtract_tensor_view.hpp"
#include "types/tensor_views/sum_to_channel_tensor_view.hpp"
#include "types/tensor_views/sum_channels_tensor_view.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "types/tensor_views/unstandardize_tensor_view.hpp"
#include "types/tensor_views/value_transform_tensor_view.hpp"
#include "types/tensor_views/value_transform_with_double_tensor_view.hpp"
#include "types/tensor_views/window_tensor_view.hpp"
#include "types/tensor_views/zero_pad_tensor_view.hpp"
#include "pbt.hpp"
#include "dense.hpp"

using namespace happyml;
using pbt::Gen;
using T = shared_ptr<BaseTensor>;

struct Node {
    T t;
    Dense d;          // the library's own values, read once row by row when the node was made
    double cost = 1;  // element reads below one element
    int depth = 0;
    vector<int> kids; // pool indices
};

struct Pool {
    vector<Node> n;
};

static Dense snapshot(const T &t) {
    Dense d(t->rowCount(), t->columnCount(), t->channelCount());
    for (size_t k = 0; k < d.ch; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) d.set(i, j, k, t->getValue(i, j, k));
    return d;
}

static size_t small_dim(Gen &g) { return g.size(1, 5); }

static int leaf(Gen &g, Pool &p, size_t r, size_t c, size_t ch) {
    Node n;
    n.d = Dense(r, c, ch);
    switch (g.draw(8)) {
        case 1: {
            float v = g.value(5);
            n.t = make_shared<UniformTensor>(r, c, ch, v);
            for (size_t i = 0; i < n.d.v.size(); i++) n.d.m[i] = fabs(n.d.v[i] = v);
            g.note("t", p.n.size(), " = constant ", v, " ", r, "x", c, "x", ch);
            break;
        }
        case 2: {
            n.t = make_shared<IdentityTensor>(r, c, ch);
            for (size_t k = 0; k < ch; k++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) n.d.set(i, j, k, i == j);
            g.note("t", p.n.size(), " = identity ", r, "x", c, "x", ch);
            break;
        }
        case 3: {
            int a = (int) g.range(1, 9), b = (int) g.range(1, 9), e = (int) g.range(1, 9);
            auto f = [a, b, e](size_t i, size_t j, size_t k) { return (float) ((int) (a * i + b * j + e * k) % 7) - 3.f; };
            n.t = make_shared<TensorFromFunction>(f, r, c, ch);
            for (size_t k = 0; k < ch; k++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) n.d.set(i, j, k, f(i, j, k));
            g.note("t", p.n.size(), " = function ", n.d.text());
            break;
        }
        default: {
            n.d = gen_dense(g, r, c, ch, 6.f);
            n.t = make_shared<FullTensor>(nested(n.d));
            g.note("t", p.n.size(), " = ", n.d.text());
        }
    }
    p.n.push_back(n);
    return (int) p.n.size() - 1;
}

static int pick_node(Gen &g, Pool &p) {
    if (p.n.size() > 1 && g.chance(2, 3)) return (int) p.n.size() - 1; // grow deep expressions
    return (int) g.draw(p.n.size());
}

static void add(Gen &g, Pool &p, const string &op, const T &t, Dense ref, vector<int> kids, double fan, double rel = 2e-6) {
    g.note("t", p.n.size(), " = ", op);
    expect_equal(t, ref, op.substr(0, op.find(' ')), op, rel, 1e-30);
    Node n;
    n.t = t;
    n.d = snapshot(t);
    n.kids = kids;
    n.cost = 0;
    for (int k: kids) {
        n.cost += p.n[k].cost;
        n.depth = std::max(n.depth, p.n[k].depth + 1);
    }
    n.cost = n.cost * fan + 1;
    p.n.push_back(n);
}

// applies an elementwise function; the reference works in double on the child's own values
template<typename F>
static Dense mapd(const Dense &a, F f) {
    Dense o(a.r, a.c, a.ch);
    for (size_t i = 0; i < a.v.size(); i++) {
        o.v[i] = f(a.v[i]);
        o.m[i] = std::fabs(o.v[i]);
    }
    return o;
}

template<typename F>
static Dense build(size_t r, size_t c, size_t ch, F f) {
    Dense o(r, c, ch);
    for (size_t k = 0; k < ch; k++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) {
        double m = 0;
        double v = f(i, j, k, m);
        o.set(i, j, k, v, m);
    }
    return o;
}

static bool small(const Dense &d, double lim) { return d.finite() && d.maxabs() <= lim; }

static bool allpos(const Dense &d, double lo) {
    for (double x: d.v) if (!(x >= lo)) return false;
    return true;
}

static void unary_elementwise(Gen &g, Pool &p) {
    int a = pick_node(g, p);
    T t = p.n[a].t;
    const Dense d = p.n[a].d;
    string A = pbt::str("t", a);
    float s = g.value(4);
    if (s == 0) s = 0.5f;
    double S = s;
    switch (g.draw(24)) {
        case 0: return add(g, p, "absolute " + A, make_shared<AbsoluteTensorView>(t), mapd(d, [](double x) { return fabs(x); }), {a}, 1);
        case 1: {
            float lo = g.value(4), hi = lo + fabs(g.value(4));
            return add(g, p, pbt::str("clip ", A, " ", lo, "..", hi), make_shared<ClipTensorView>(t, lo, hi), mapd(d, [=](double x) { return min((double) hi, max((double) lo, x)); }), {a}, 1);
        }
        case 2:
            if (!small(d, 15)) g.discard();
            return add(g, p, "exponential " + A, make_shared<ExponentialTensorView>(t), mapd(d, [](double x) { return exp(x); }), {a}, 1, 5e-6);
        case 3: return add(g, p, pbt::str("less_than ", A, " ", s), make_shared<LessThanScalarTensorView>(t, s), mapd(d, [=](double x) { return x < S ? 1. : 0.; }), {a}, 1);
        case 4: {
            if (!small(d, 1e6)) g.discard();
            // the operand is first brought inside (0,1), where the natural logarithm is defined and not clamped
            T u = make_shared<ScalarAddTensorView>(make_shared<ScalarMultiplyTensorView>(make_shared<AbsoluteTensorView>(t), 1e-7f), 0.01f);
            return add(g, p, "log of 0.01+|" + A + "|/1e7", make_shared<LogTensorView>(u), mapd(d, [](double x) { return log(fabs(x) * 1e-7 + 0.01); }), {a}, 1, 5e-6);
        }
        case 5: {
            T u = make_shared<ScalarAddTensorView>(make_shared<AbsoluteTensorView>(t), 2.f);
            return add(g, p, "log2 of 2+|" + A + "|", make_shared<Log2TensorView>(u), mapd(d, [](double x) { return log2(fabs(x) + 2); }), {a}, 1, 5e-6);
        }
        case 6: return add(g, p, "noop " + A, make_shared<TensorNoOpView>(t), d, {a}, 1, 0);
        case 7: {
            if (!small(d, 1000)) g.discard();
            int e = (int) g.range(1, 3);
            return add(g, p, pbt::str("power ", A, " ^", e), make_shared<PowerTensorView>(t, (float) e), mapd(d, [=](double x) { return pow(x, e); }), {a}, 1);
        }
        case 8: return add(g, p, "round " + A, make_shared<RoundTensorView>(t), mapd(d, [](double x) { return round(x); }), {a}, 1, 0);
        case 9: return add(g, p, pbt::str("scalar_add ", A, " ", s), make_shared<ScalarAddTensorView>(t, s), build(d.r, d.c, d.ch, [&](size_t i, size_t j, size_t k, double &m) { m = fabs(S) + d.mag(i, j, k); return d.get(i, j, k) + S; }), {a}, 1);
        case 10: return add(g, p, pbt::str("scalar_subtract ", A, " - ", s), make_shared<ScalarSubtractTensorView>(t, s), build(d.r, d.c, d.ch, [&](size_t i, size_t j, size_t k, double &m) { m = fabs(S) + d.mag(i, j, k); return d.get(i, j, k) - S; }), {a}, 1);
        case 11: return add(g, p, pbt::str("scalar_subtract ", s, " - ", A), make_shared<ScalarSubtractTensorView>(s, t), build(d.r, d.c, d.ch, [&](size_t i, size_t j, size_t k, double &m) { m = fabs(S) + d.mag(i, j, k); return S - d.get(i, j, k); }), {a}, 1);
        case 12: return add(g, p, pbt::str("scalar_multiply ", A, " * ", s), make_shared<ScalarMultiplyTensorView>(t, s), mapd(d, [=](double x) { return x * S; }), {a}, 1);
        case 13: return add(g, p, pbt::str("scalar_multiply ", s, " * ", A), make_shared<ScalarMultiplyTensorView>(s, t), mapd(d, [=](double x) { return x * S; }), {a}, 1);
        case 14: return add(g, p, pbt::str("scalar_divide ", A, " / ", s), make_shared<ScalarDivideTensorView>(t, s), mapd(d, [=](double x) { return x / S; }), {a}, 1);
        case 15:
            for (double x: d.v) if (fabs(x) < 1e-3) g.discard();
            return add(g, p, pbt::str("scalar_divide ", s, " / ", A), make_shared<ScalarDivideTensorView>(s, t), mapd(d, [=](double x) { return S / x; }), {a}, 1);
        case 16: {
            T u = make_shared<AbsoluteTensorView>(t);
            return add(g, p, "sqrt |" + A + "|", make_shared<SqrtTensorView>(u), mapd(d, [](double x) { return sqrt(fabs(x)); }), {a}, 1);
        }
        case 17: return add(g, p, pbt::str("transform ", A, " x/2+1"), make_shared<ValueTransformTensorView>(t, [](float x) { return x / 2 + 1; }), build(d.r, d.c, d.ch, [&](size_t i, size_t j, size_t k, double &m) { m = 1 + d.mag(i, j, k); return d.get(i, j, k) / 2 + 1; }), {a}, 1);
        case 18: return add(g, p, pbt::str("transform_with_constant ", A, " x*", s), make_shared<ValueTransformWithDoubleTensorView>(t, [](float x, double y) { return (float) (x * y); }, S), mapd(d, [=](double x) { return x * S; }), {a}, 1);
        case 19: {
            if (!allpos(d, 1e-3) && !allpos(mapd(d, [](double x) { return -x; }), 1e-3)) g.discard();
            return add(g, p, "elementwise_inverse " + A, make_shared<ElementWiseInverseTensorView>(t), mapd(d, [](double x) { return 1 / x; }), {a}, 1, 2e-5);
        }
        case 20: {
            float lo = g.value(4), hi = lo + fabs(g.value(4)) + 0.25f;
            double R = (double) (float) (hi - lo);
            return add(g, p, pbt::str("normalize ", A, " ", lo, "..", hi), make_shared<NormalizeTensorView>(t, lo, hi), build(d.r, d.c, d.ch, [&](size_t i, size_t j, size_t k, double &m) { m = (d.mag(i, j, k) + fabs(lo)) / R; return (d.get(i, j, k) - lo) / R; }), {a}, 1);
        }
        case 21: {
            float lo = g.value(4), hi = lo + fabs(g.value(4)) + 0.25f;
            double R = (double) (float) (hi - lo);
            return add(g, p, pbt::str("denormalize ", A, " ", lo, "..", hi), make_shared<DenormalizeTensorView>(t, lo, hi), build(d.r, d.c, d.ch, [&](size_t i, size_t j, size_t k, double &m) { m = d.mag(i, j, k) * R + fabs(lo); return d.get(i, j, k) * R + lo; }), {a}, 1);
        }
        case 22: {
            float sd = fabs(s);
            float mu = g.value(4);
            return add(g, p, pbt::str("standardize ", A, " ", mu, ",", sd), make_shared<StandardizeTensorView>(t, mu, sd), build(d.r, d.c, d.ch, [&](size_t i, size_t j, size_t k, double &m) { m = (d.mag(i, j, k) + fabs(mu)) / sd; return (d.get(i, j, k) - mu) / sd; }), {a}, 1);
        }
        default: {
            float sd = fabs(s);
            float mu = g.value(4);
            return add(g, p, pbt::str("unstandardize ", A, " ", mu, ",", sd), make_shared<UnstandardizeTensorView>(t, mu, sd), build(d.r, d.c, d.ch, [&](size_t i, size_t j, size_t k, double &m) { m = d.mag(i, j, k) * sd + fabs(mu); return d.get(i, j, k) * sd + mu; }), {a}, 1);
        }
    }
}

static void shape_op(Gen &g, Pool &p) {
    int a = pick_node(g, p);
    T t = p.n[a].t;
    const Dense d = p.n[a].d;
    string A = pbt::str("t", a);
    g.label("shape operation");
    switch (g.draw(10)) {
        case 0: return add(g, p, "transpose " + A, make_shared<TransposeTensorView>(t), build(d.c, d.r, d.ch, [&](size_t i, size_t j, size_t k, double &) { return d.get(j, i, k); }), {a}, 1, 0);
        case 1: {
            vector<size_t> div;
            for (size_t i = 1; i <= d.r * d.c; i++) if (d.r * d.c % i == 0) div.push_back(i);
            size_t nr = g.pick(div), nc = d.r * d.c / nr;
            T v = g.flip() ? (T) make_shared<ReshapeTensorView>(t, nr, nc, d.ch) : (T) make_shared<ReshapeTensorView>(t, nr, nc);
            return add(g, p, pbt::str("reshape ", A, " to ", nr, "x", nc), v, build(nr, nc, d.ch, [&](size_t i, size_t j, size_t k, double &) { return d.v[k * d.r * d.c + i * nc + j]; }), {a}, 1, 0);
        }
        case 2: return add(g, p, "row_flatten " + A, make_shared<RowFlattenTensorView>(t), build(1, d.v.size(), 1, [&](size_t, size_t j, size_t, double &) { return d.v[j]; }), {a}, 1, 0);
        case 3: return add(g, p, "column_flatten " + A, make_shared<ColumnFlattenTensorView>(t), build(d.v.size(), 1, 1, [&](size_t i, size_t, size_t, double &) { return d.v[i]; }), {a}, 1, 0);
        case 4: {
            size_t tp = g.range(0, 2), bt = g.range(0, 2), l = g.range(0, 2), r = g.range(0, 2);
            return add(g, p, pbt::str("pad ", A, " top ", tp, " bottom ", bt, " left ", l, " right ", r), make_shared<ZeroPadTensorView>(t, tp, bt, l, r),
                       build(d.r + tp + bt, d.c + l + r, d.ch, [&](size_t i, size_t j, size_t k, double &) { return i < tp || i >= tp + d.r || j < l || j >= l + d.c ? 0. : d.get(i - tp, j - l, k); }), {a}, 1, 0);
        }
        case 5: {
            size_t s = g.range(0, (int64_t) d.c - 1), e = g.range((int64_t) s + 1, (int64_t) d.c);
            return add(g, p, pbt::str("window ", A, " columns ", s, "..", e), make_shared<WindowTensorView>(t, s, e), build(d.r, e - s, d.ch, [&](size_t i, size_t j, size_t k, double &) { return d.get(i, j + s, k); }), {a}, 1, 0);
        }
        case 6: {
            size_t s = g.draw(d.ch);
            return add(g, p, pbt::str("channel ", s, " of ", A), make_shared<ChannelToTensorView>(t, s), build(d.r, d.c, 1, [&](size_t i, size_t j, size_t, double &) { return d.get(i, j, s); }), {a}, 1, 0);
        }
        case 7:
        case 8: {
            size_t total = g.range(1, 3), idx = g.draw(total);
            bool plain = g.flip();
            if (plain) {
                total = 1;
                idx = 0;
            }
            T v = plain ? (T) make_shared<SumChannelsTensorView>(t) : (T) make_shared<SumToChannelTensorView>(t, idx, total);
            return add(g, p, pbt::str("sum_channels of ", A, " into channel ", idx, " of ", total), v, build(d.r, d.c, total, [&](size_t i, size_t j, size_t k, double &m) {
                double s = 0;
                if (k == idx) for (size_t q = 0; q < d.ch; q++) {
                    s += d.get(i, j, q);
                    m += d.mag(i, j, q);
                }
                return s;
            }), {a}, (double) d.ch);
        }
        default: return add(g, p, "rotate180 " + A, make_shared<Rotate180TensorView>(t), build(d.r, d.c, d.ch, [&](size_t i, size_t j, size_t k, double &) { return d.get(d.r - 1 - i, d.c - 1 - j, k); }), {a}, 1, 0);
    }
}

// a pool node of the wanted shape, or a new leaf
static int with_shape(Gen &g, Pool &p, size_t r, size_t c, size_t ch) {
    vector<int> ok;
    for (size_t i = 0; i < p.n.size(); i++) if (p.n[i].d.r == r && p.n[i].d.c == c && p.n[i].d.ch == ch) ok.push_back((int) i);
    if (!ok.empty() && g.chance(1, 2)) return g.pick(ok);
    return leaf(g, p, r, c, ch);
}

static void binary_op(Gen &g, Pool &p) {
    int a = pick_node(g, p);
    g.label("several operands");
    switch (g.draw(10)) {
        case 0:
        case 1:
        case 2:
        case 3: {
            const Dense da = p.n[a].d;
            int b = with_shape(g, p, da.r, da.c, da.ch);
            T ta = p.n[a].t, tb = p.n[b].t;
            const Dense db = p.n[b].d;
            string A = pbt::str("t", a), B = pbt::str("t", b);
            switch (g.draw(4)) {
                case 0: return add(g, p, "add " + A + " " + B, make_shared<AddTensorView>(ta, tb), build(da.r, da.c, da.ch, [&](size_t i, size_t j, size_t k, double &m) { m = da.mag(i, j, k) + db.mag(i, j, k); return da.get(i, j, k) + db.get(i, j, k); }), {a, b}, 1);
                case 1: return add(g, p, "subtract " + A + " " + B, make_shared<SubtractTensorView>(ta, tb), build(da.r, da.c, da.ch, [&](size_t i, size_t j, size_t k, double &m) { m = da.mag(i, j, k) + db.mag(i, j, k); return da.get(i, j, k) - db.get(i, j, k); }), {a, b}, 1);
                case 2: return add(g, p, "multiply " + A + " " + B, make_shared<ElementWiseMultiplyTensorView>(ta, tb), build(da.r, da.c, da.ch, [&](size_t i, size_t j, size_t k, double &) { return da.get(i, j, k) * db.get(i, j, k); }), {a, b}, 1);
                default:
                    for (double x: db.v) if (fabs(x) < 1e-3) g.discard();
                    return add(g, p, "divide " + A + " " + B, make_shared<ElementWiseDivideTensorView>(ta, tb), build(da.r, da.c, da.ch, [&](size_t i, size_t j, size_t k, double &) { return da.get(i, j, k) / db.get(i, j, k); }), {a, b}, 1);
            }
        }
        case 4:
        case 5: {
            const Dense da = p.n[a].d;
            int b = with_shape(g, p, da.c, small_dim(g), da.ch);
            const Dense db = p.n[b].d;
            if (!small(da, 1e6) || !small(db, 1e6)) g.discard();
            return add(g, p, pbt::str("matmul t", a, " t", b), make_shared<MatrixMultiplyTensorView>(p.n[a].t, p.n[b].t), build(da.r, db.c, da.ch, [&](size_t i, size_t j, size_t k, double &m) {
                double s = 0;
                for (size_t q = 0; q < da.c; q++) {
                    s += da.get(i, q, k) * db.get(q, j, k);
                    m += fabs(da.get(i, q, k) * db.get(q, j, k));
                }
                return s;
            }), {a, b}, (double) da.c);
        }
        case 6: {
            const Dense da = p.n[a].d;
            int b = with_shape(g, p, da.r, small_dim(g), da.ch);
            const Dense db = p.n[b].d;
            return add(g, p, pbt::str("concat t", a, " t", b), make_shared<ConcatWideTensorView>(p.n[a].t, p.n[b].t), build(da.r, da.c + db.c, da.ch, [&](size_t i, size_t j, size_t k, double &) { return j < da.c ? da.get(i, j, k) : db.get(i, j - da.c, k); }), {a, b}, 1, 0);
        }
        case 7: {
            size_t n = g.size(1, 8);
            a = with_shape(g, p, 1, n, 1);
            int b = with_shape(g, p, 1, n, 1);
            const Dense da = p.n[a].d, db = p.n[b].d;
            if (!small(da, 1e6) || !small(db, 1e6)) g.discard();
            return add(g, p, pbt::str("dot t", a, " t", b), make_shared<DotProductTensorView>(p.n[a].t, p.n[b].t), build(1, 1, 1, [&](size_t, size_t, size_t, double &m) {
                double s = 0;
                for (size_t q = 0; q < n; q++) {
                    s += da.v[q] * db.v[q];
                    m += fabs(da.v[q] * db.v[q]);
                }
                return s;
            }), {a, b}, (double) n);
        }
        case 8: {
            if (g.flip()) {
                size_t n = small_dim(g);
                a = g.flip() ? with_shape(g, p, 1, n, small_dim(g)) : with_shape(g, p, n, 1, small_dim(g));
                const Dense da = p.n[a].d;
                return add(g, p, pbt::str("diagonal t", a), make_shared<DiagonalTensorView>(p.n[a].t), build(n, n, da.ch, [&](size_t i, size_t j, size_t k, double &) { return i != j ? 0. : da.v[k * n + i]; }), {a}, 1, 0);
            }
            size_t ch = g.size(1, 3);
            a = with_shape(g, p, small_dim(g), 1, ch);
            int b = with_shape(g, p, 1, small_dim(g), ch);
            const Dense da = p.n[a].d, db = p.n[b].d;
            return add(g, p, pbt::str("outer t", a, " t", b), make_shared<OuterProductTensorView>(p.n[a].t, p.n[b].t), build(da.r, db.c, ch, [&](size_t i, size_t j, size_t k, double &) { return da.get(i, 0, k) * db.get(0, j, k); }), {a, b}, 1);
        }
        default: {
            const Dense da = p.n[a].d;
            int b = with_shape(g, p, da.r, da.c, da.ch), c = with_shape(g, p, da.r, da.c, da.ch);
            const Dense db = p.n[b].d, dc = p.n[c].d;
            bool dflt = g.flip();
            float lim = dflt ? 0.f : g.value(3);
            T v = dflt ? make_shared<MaskedSelectTensorView>(p.n[a].t, p.n[b].t, p.n[c].t) : make_shared<MaskedSelectTensorView>(p.n[a].t, p.n[b].t, p.n[c].t, lim);
            return add(g, p, pbt::str("masked_select t", a, ">", lim, " t", b, " t", c), v, build(da.r, da.c, da.ch, [&](size_t i, size_t j, size_t k, double &) { return da.get(i, j, k) > (double) lim ? db.get(i, j, k) : dc.get(i, j, k); }), {a, b, c}, 1, 0);
        }
    }
}

PBT_PROP(expression, 400000, 6000000, "at least three operations, on tensors of more than one element") {
    Pool p;
    leaf(g, p, small_dim(g), small_dim(g), g.size(1, 3));
    size_t ops = g.size(1, 9);
    for (size_t i = 0; i < ops; i++) {
        switch (g.draw(3)) {
            case 0: unary_elementwise(g, p); break;
            case 1: shape_op(g, p); break;
            default: binary_op(g, p);
        }
        Node &n = p.n.back();
        if (!n.d.finite() || n.d.maxabs() > 1e9 || n.d.v.size() > 150 || n.cost > 3000) break;
    }
    Node &last = p.n.back();
    if (ops >= 3 && last.d.v.size() > 1) g.nontrivial();
    if (last.depth >= 4) g.label("depth 4 or more");
    if (!last.d.finite()) g.discard();
    // the same numbers again: in another order, by offset, by row, stored, and for every shared operand
    for (size_t q = 0; q < p.n.size(); q++) {
        Node &n = p.n[q];
        for (int rep = 0; rep < 6; rep++) {
            size_t at = g.draw(n.d.v.size());
            size_t k = at / (n.d.r * n.d.c), i = at % (n.d.r * n.d.c) / n.d.c, j = at % n.d.c;
            float x = n.t->getValue(i, j, k);
            float want = (float) n.d.v[at];
            if (memcmp(&x, &want, 4)) pbt::fail("again", pbt::str("t", q, " read again at row ", i, " column ", j, " channel ", k, " gives ", x, ", the first time it was ", want));
            x = n.t->getValue(at);
            if (memcmp(&x, &want, 4)) pbt::fail("offset", pbt::str("t", q, " read at offset ", at, " gives ", x, " instead of ", want));
        }
        if (n.d.finite()) {
            T m = g.flip() ? materializeTensor(n.t) : materializeTensor(n.t, 32);
            expect_equal(m, n.d, "stored", pbt::str("t", q, " stored"), 0, 0);
        }
        size_t row = g.draw(n.d.r), k = g.draw(n.d.ch);
        auto rv = n.t->getRowValues(row, k);
        pbt::check(rv.size() == n.d.c, "row", "a row has the wrong length");
        for (size_t j = 0; j < rv.size(); j++) if (rv[j] != (float) n.d.get(row, j, k)) pbt::fail("row", pbt::str("t", q, ": row ", row, " channel ", k, " holds ", rv[j], " instead of ", n.d.get(row, j, k), " at column ", j));
        // an expression contains itself and everything it was built from
        pbt::check(n.t->contains(n.t), "contains", "an expression does not contain itself");
        for (int c: n.kids) pbt::check(n.t->contains(p.n[c].t), "contains", pbt::str("t", q, " does not contain its operand t", c));
        for (size_t c = q + 1; c < p.n.size(); c++) pbt::check(!n.t->contains(p.n[c].t), "contains", pbt::str("t", q, " contains t", c, ", which was made later"));
    }
    if (g.chance(1, 8)) { // two readers at once
        g.label("two concurrent readers");
        T t = last.t;
        size_t n = last.d.v.size();
        vector<float> r1(n), r2(n);
        thread th([&] { for (size_t i = 0; i < n; i++) r1[i] = t->getValue(i); });
        for (size_t i = n; i-- > 0;) r2[i] = t->getValue(i);
        th.join();
        for (size_t i = 0; i < n; i++) pbt::check(r1[i] == (float) last.d.v[i] && r2[i] == (float) last.d.v[i], "concurrent", pbt::str("concurrent readers see ", r1[i], " and ", r2[i], " instead of ", last.d.v[i]));
    }
}

PBT_PROP(inverse, 40000, 600000, "matrix of two or more rows") {
    size_t n = g.size(1, 6), ch = g.size(1, 3);
    Dense d(n, n, ch);
    bool perm = g.flip();
    g.label(perm ? "scaled permutation" : "diagonally dominant");
    for (size_t k = 0; k < ch; k++) {
        if (perm) {
            vector<size_t> o(n);
            iota(o.begin(), o.end(), 0);
            g.shuffle(o);
            for (size_t i = 0; i < n; i++) d.set(i, o[i], k, g.pick({1.f, -1.f, 2.f, 0.5f, -4.f}));
        } else {
            for (size_t i = 0; i < n; i++) {
                double s = 0;
                for (size_t j = 0; j < n; j++) if (i != j) {
                    d.set(i, j, k, g.value(3));
                    s += fabs(d.get(i, j, k));
                }
                d.set(i, i, k, (float) ((g.flip() ? 1 : -1) * (s + 1 + fabs(g.value(3)))));
            }
        }
    }
    if (n >= 2) g.nontrivial();
    g.note("matrix ", d.text());
    T t = make_shared<FullTensor>(nested(d));
    T inv = make_shared<InverseTensorView>(t);
    pbt::check(inv->rowCount() == n && inv->columnCount() == n && inv->channelCount() == ch, "shape", "the inverse has another shape");
    for (size_t k = 0; k < ch; k++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        double s = 0, m = 0;
        for (size_t q = 0; q < n; q++) {
            s += d.get(i, q, k) * inv->getValue(q, j, k);
            m += fabs(d.get(i, q, k) * inv->getValue(q, j, k));
        }
        pbt::check(fabs(s - (i == j)) <= 1e-4 * (1 + m), "value", pbt::str("matrix times inverse is ", s, " at row ", i, " column ", j, " channel ", k));
    }
    // dividing A by B is A times the inverse of B, so (A/B)*B is A
    Dense a = gen_dense(g, n, n, ch, 5);
    T q = make_shared<MatrixDivideTensorView>(make_shared<FullTensor>(nested(a)), t);
    T back = make_shared<MatrixMultiplyTensorView>(q, t);
    double scale = 1 + a.maxabs() * (1 + d.maxabs());
    pbt::check(back->rowCount() == n && back->columnCount() == n, "divide_shape");
    for (size_t k = 0; k < ch; k++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
        pbt::check(fabs(back->getValue(i, j, k) - a.get(i, j, k)) <= 1e-4 * scale, "divide", pbt::str("dividing ", a.text(), " and multiplying again gives ", back->getValue(i, j, k), " instead of ", a.get(i, j, k)));
    if (n >= 2 && g.chance(1, 2)) { // a matrix with two equal rows or a zero column has no inverse
        Dense s = gen_dense(g, n, n, 1, 3);
        for (auto &x: s.v) x = round(x);
        size_t r1 = g.draw(n);
        bool z = g.flip();
        for (size_t j = 0; j < n; j++) z ? s.set(r1, j, 0, 0) : s.set(j, r1, 0, 0);
        bool refused = false;
        try { InverseTensorView v(make_shared<FullTensor>(nested(s))); } catch (const exception &) { refused = true; }
        pbt::check(refused, "singular", "a singular matrix was inverted: " + s.text());
    }
}

template<typename F>
static void refused(const string &what, F f) {
    bool ok = false;
    try { f(); } catch (const exception &) { ok = true; }
    pbt::check(ok, what.substr(0, what.find(' ')), what + " was not refused");
}

PBT_PROP(refusal, 60000, 600000, "every case: the two shapes differ in at least one dimension that must agree") {
    size_t r = small_dim(g), c = small_dim(g), ch = g.size(1, 3), r2 = small_dim(g), c2 = small_dim(g), ch2 = g.size(1, 3);
    // change only some dimensions, most often one
    switch (g.draw(5)) {
        case 0: c2 = c; ch2 = ch; break;
        case 1: r2 = r; ch2 = ch; break;
        case 2: r2 = r; c2 = c; break;
        case 3: r2 = c; c2 = r; ch2 = ch; break;
        default:;
    }
    auto A = [&] { return (T) make_shared<UniformTensor>(r, c, ch, 1.5f); };
    auto B = [&] { return (T) make_shared<UniformTensor>(r2, c2, ch2, 2.5f); };
    T a = A(), b = B();
    string shapes = pbt::str(" of ", r, "x", c, "x", ch, " and ", r2, "x", c2, "x", ch2);
    g.note(shapes);
    bool same = r == r2 && c == c2 && ch == ch2, any = false;
    if (!same) {
        any = true;
        refused("add" + shapes, [&] { AddTensorView v(a, b); });
        refused("subtract" + shapes, [&] { SubtractTensorView v(a, b); });
        refused("multiply" + shapes, [&] { ElementWiseMultiplyTensorView v(a, b); });
        refused("divide" + shapes, [&] { ElementWiseDivideTensorView v(a, b); });
        refused("mask" + shapes, [&] { MaskedSelectTensorView v(a, a, b); });
        refused("mask" + shapes, [&] { MaskedSelectTensorView v(a, b, a); });
        refused("mask" + shapes, [&] { MaskedSelectTensorView v(b, a, a); });
    }
    if (c != r2 || ch != ch2) { any = true; refused("matmul" + shapes, [&] { MatrixMultiplyTensorView v(a, b); }); }
    if (r != r2 || ch != ch2) { any = true; refused("concat" + shapes, [&] { ConcatWideTensorView v(a, b); }); }
    if (r != 1 || r2 != 1 || c != c2 || ch != 1 || ch2 != 1) { any = true; refused("dot" + shapes, [&] { DotProductTensorView v(a, b); }); }
    if (c != 1 || r2 != 1 || ch != ch2) { any = true; refused("outer" + shapes, [&] { OuterProductTensorView v(a, b); }); }
    if (r != c) { any = true; refused("inverse" + shapes, [&] { InverseTensorView v(make_shared<FullTensor>(nested(gen_dense(g, r, c, ch, 3)))); }); }
    if (!same) refused("matrix_divide" + shapes, [&] { MatrixDivideTensorView v(a, make_shared<IdentityTensor>(r2, c2, ch2)); });
    if (r * c != r2 * c2) {
        any = true;
        refused(pbt::str("reshape of ", r, "x", c, " to ", r2, "x", c2), [&] { ReshapeTensorView v(a, r2, c2); });
        refused(pbt::str("reshape of ", r, "x", c, " to ", r2, "x", c2), [&] { ReshapeTensorView v(a, r2, c2, ch); });
    }
    if (ch != ch2) refused("reshape to other channels", [&] { ReshapeTensorView v(a, r, c, ch2); });
    size_t s = g.draw(8), e = g.draw(8);
    if (s >= e || e > c) { any = true; refused(pbt::str("window ", s, "..", e, " of ", c, " columns"), [&] { WindowTensorView v(a, s, e); }); }
    if (any) g.nontrivial();
    // and what is compatible is accepted
    if (same) {
        T x = make_shared<AddTensorView>(a, b);
        pbt::check(x->getValue(r - 1, c - 1, ch - 1) == 4.f, "accepts");
    }
}
