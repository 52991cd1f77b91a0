// H05: convolutions and cross-correlations match the sliding-window definition
#include "ml/happyml_dsl.hpp"
#include "types/tensor_views/rotate_180_tensor_view.hpp"
#include "types/tensor_views/full_2d_convolve_tensor_view.hpp"
#include "pbt.hpp"
#include "dense.hpp"

using namespace happyml;
using pbt::Gen;
using T = shared_ptr<BaseTensor>;

static Dense ref_valid(const Dense &a, const Dense &k) {
    Dense o(a.r - k.r + 1, a.c - k.c + 1, a.ch);
    for (size_t q = 0; q < a.ch; q++) for (size_t i = 0; i < o.r; i++) for (size_t j = 0; j < o.c; j++) {
        double s = 0, m = 0;
        for (size_t y = 0; y < k.r; y++) for (size_t x = 0; x < k.c; x++) {
            s += a.get(i + y, j + x, q) * k.get(y, x, q);
            m += fabs(a.get(i + y, j + x, q) * k.get(y, x, q));
        }
        o.set(i, j, q, s, m);
    }
    return o;
}

// every overlap of the kernel with the input, the input continued by zeros; flip: convolution instead of correlation
static Dense ref_full(const Dense &a, const Dense &k, bool flip) {
    Dense o(a.r + k.r - 1, a.c + k.c - 1, a.ch);
    for (size_t q = 0; q < a.ch; q++) for (size_t i = 0; i < o.r; i++) for (size_t j = 0; j < o.c; j++) {
        double s = 0, m = 0;
        for (size_t y = 0; y < k.r; y++) for (size_t x = 0; x < k.c; x++) {
            long ai = (long) i - (long) k.r + 1 + (long) y, aj = (long) j - (long) k.c + 1 + (long) x;
            if (ai < 0 || aj < 0 || ai >= (long) a.r || aj >= (long) a.c) continue;
            double kv = flip ? k.get(k.r - 1 - y, k.c - 1 - x, q) : k.get(y, x, q);
            s += a.get(ai, aj, q) * kv;
            m += fabs(a.get(ai, aj, q) * kv);
        }
        o.set(i, j, q, s, m);
    }
    return o;
}

static T make(Gen &g, const Dense &d) {
    T t = make_shared<FullTensor>(nested(d));
    if (g.chance(1, 4)) return make_shared<Rotate180TensorView>(make_shared<Rotate180TensorView>(t));
    return t;
}

PBT_PROP(correlation, 300000, 4000000, "kernel of more than one element, smaller than the input in some direction") {
    size_t ch = g.size(1, 3), kr = g.size(1, 6), kc = g.chance(1, 2) ? kr : g.size(1, 6);
    Dense a = gen_dense(g, g.size(1, 9), g.size(1, 9), ch, 5), k = gen_dense(g, kr, kc, ch, 3);
    T ta = make(g, a), tk = make(g, k);
    g.note("input ", a.text(), "\nkernel ", k.text());
    g.label(pbt::str("kernel of ", kr, " rows"));
    if (ch > 1) g.label("several channels");
    if (kr != kc) g.label("kernel not square");
    g.is_nontrivial = kr * kc > 1 && (kr < a.r || kc < a.c);
    if (kr > a.r || kc > a.c) {
        g.label("kernel larger than the input");
        bool refused = false;
        try { Valid2DCrossCorrelationTensorView v(ta, tk); } catch (const exception &) { refused = true; }
        pbt::check(refused, "not_refused", "a valid cross-correlation with a kernel larger than its input was not refused");
    } else {
        T v = make_shared<Valid2DCrossCorrelationTensorView>(ta, tk);
        expect_equal(v, ref_valid(a, k), "valid", "valid cross-correlation");
        // convolving is correlating with the rotated kernel
        T rk = make_shared<Rotate180TensorView>(tk);
        Dense kk(kr, kc, ch);
        for (size_t q = 0; q < ch; q++) for (size_t i = 0; i < kr; i++) for (size_t j = 0; j < kc; j++) kk.set(i, j, q, k.get(kr - 1 - i, kc - 1 - j, q));
        expect_equal((T) make_shared<Valid2DCrossCorrelationTensorView>(ta, rk), ref_valid(a, kk), "valid_rotated", "valid cross-correlation with the rotated kernel");
    }
    expect_equal((T) make_shared<Full2DCrossCorrelationTensorView>(ta, tk), ref_full(a, k, false), "full", "full cross-correlation");
    expect_equal((T) make_shared<Full2DConvolveTensorView>(ta, tk), ref_full(a, k, true), "convolution", "full convolution");
    T x = make_shared<Full2DConvolveTensorView>(ta, tk), y = make_shared<Full2DCrossCorrelationTensorView>(ta, make_shared<Rotate180TensorView>(tk));
    T mx = materializeTensor(x);
    for (size_t i = 0; i < x->size(); i++) pbt::check(mx->getValue(i) == y->getValue(i), "rotation", "convolving differs from correlating with the rotated kernel");
}

PBT_PROP(layer, 60000, 1000000, "kernel of more than one element and more than one filter or input channel") {
    size_t ch = g.size(1, 3), filters = g.size(1, 4), k = g.size(1, 4), r = k + g.size(0, 5), c = k + g.size(0, 5);
    string dir = pbt::case_dir();
    vector<Dense> w;
    for (size_t f = 0; f < filters; f++) {
        w.push_back(gen_dense(g, k, k, ch, 2));
        make_shared<FullTensor>(nested(w[f]))->save(dir + "/conv_" + to_string(f) + ".tensor");
        g.note("filter ", f, " ", w[f].text());
    }
    Dense in = gen_dense(g, r, c, ch, 4);
    g.note("input ", in.text());
    g.is_nontrivial = k > 1 && (filters > 1 || ch > 1);
    g.label(pbt::str(filters, " filters"));
    g.label(pbt::str("kernel ", k, "x", k));
    Convolution2dValidFunction layer("conv", {r, c, ch}, filters, k, 32, 0, true, 0.02f);
    layer.loadKnowledge(dir);
    bool training = g.flip();
    T out = layer.forward({make_shared<FullTensor>(nested(in))}, training);
    Dense want(r - k + 1, c - k + 1, filters);
    for (size_t f = 0; f < filters; f++) {
        Dense one = ref_valid(in, w[f]);
        for (size_t i = 0; i < want.r; i++) for (size_t j = 0; j < want.c; j++) {
            double s = 0, m = 0;
            for (size_t q = 0; q < ch; q++) {
                s += one.get(i, j, q);
                m += one.mag(i, j, q);
            }
            want.set(i, j, f, s, m);
        }
    }
    expect_equal(out, want, "output", "convolution layer output");
    pbt::check(layer.get_parameter_count() == filters * k * k * ch, "parameter_count", pbt::str("parameter count ", layer.get_parameter_count()));
}
