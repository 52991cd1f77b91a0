// H01: reduced-precision floats and portable bytes
#include "types/quarter_float.hpp"
#include "types/half_float.hpp"
#include "util/portable_bytes.hpp"
#include "pbt.hpp"

using namespace happyml;
using pbt::Gen;

static float bits_f(uint32_t b) {
    float f;
    memcpy(&f, &b, 4);
    return f;
}

static uint32_t f_bits(float f) {
    uint32_t b;
    memcpy(&b, &f, 4);
    return b;
}

// decode of a canonical 8-bit code, from the format description
static double ref_decode(int q, int bias_arg) {
    int bias = bias_arg == 0 ? 1 : bias_arg;
    if (q == 0x80) return ldexp(1.0 + ldexp(2.0, -23), -1 - bias); // "half of the current smallest value"
    int e = (q >> 3) & 15, m = q & 7;
    if (e == 0 && m == 0) return 0;
    double v = ldexp(1.0 + m / 8.0, e - bias);
    return (q & 0x80) ? -v : v;
}

static bool canonical(int q) { return ((q >> 3) & 15) != 15; }

static int gen_bias(Gen &g) {
    switch (g.draw(3)) {
        case 0:
            return g.pick({1, 4, 8, 14, -4, 0});
        default:
            return (int) g.range(0, 24) - 8;
    }
}

// a float of interest for a given bias: around representable values, midpoints, extremes, or any pattern
static float gen_float(Gen &g, int bias_arg) {
    int bias = bias_arg == 0 ? 1 : bias_arg;
    switch (g.draw(6)) {
        case 0: { // representable value and its neighbourhood
            int e = (int) g.range(0, 15);
            int m = (int) g.range(0, 16);
            float v = (float) ldexp(1.0 + m / 16.0, e - bias);
            int d = (int) g.range(0, 6) - 3;
            v = bits_f(f_bits(v) + d);
            return g.flip() ? -v : v;
        }
        case 1: { // in range
            int e = (int) g.range(0, 14);
            float v = (float) ldexp(1.0 + g.unit(), e - bias);
            return g.flip() ? -v : v;
        }
        case 2: { // saturating
            int e = (int) g.range(14, 20);
            float v = (float) ldexp(1.0 + g.unit(), e - bias);
            return g.flip() ? -v : v;
        }
        case 3: { // underflowing
            int e = (int) g.range(0, 20);
            float v = (float) ldexp(1.0 + g.unit(), -e - bias);
            return g.flip() ? -v : v;
        }
        case 4:
            return (float) ((int) g.range(0, 200) - 100);
        default: {
            uint32_t b = (uint32_t) g.draw(1ULL << 32);
            if (((b >> 23) & 0xff) == 0xff) b &= 0xbfffffff;
            return bits_f(b);
        }
    }
}

PBT_PROP(quarter_conversion, 400000, 8000000, "a bias and two finite floats near codes, midpoints, limits or of any bit pattern; non-trivial: at least one lies inside the format's normal range") {
    int bias_arg = gen_bias(g);
    int bias = bias_arg == 0 ? 1 : bias_arg;
    g.label(bias_arg == 0 ? "bias 0" : bias_arg < 0 ? "negative bias" : "positive bias");
    float x = gen_float(g, bias_arg), y = g.chance(1, 3) ? bits_f(f_bits(x) + 1) : gen_float(g, bias_arg);
    if (!std::isfinite(x) || !std::isfinite(y)) g.discard();
    g.note("bias ", bias_arg, " x ", x, " (0x", std::hex, f_bits(x), ") y ", std::dec, y);
    // the smallest value of the format's regular range; below it lies the documented special zone around zero
    const double smallest = ldexp(1.125, -bias), largest = ldexp(1.875, 14 - bias);
    const double lim = ldexp(1.0625, -bias);
    auto conv = [&](float f) {
        quarter q = floatToQuarter(f, bias_arg);
        pbt::check(canonical(q), "special code for a finite value", pbt::str("finite ", f, " became code ", (int) q));
        float d = quarterToFloat(q, bias_arg);
        pbt::check((double) d == (double) (float) ref_decode(q, bias_arg), "decode differs from the format", pbt::str("code ", (int) q, " decoded as ", d, " instead of ", ref_decode(q, bias_arg)));
        return d;
    };
    float dx = conv(x), dy = conv(y);
    auto one = [&](float f, float d) {
        double a = std::fabs((double) f);
        if (a == 0) {
            pbt::check(d == 0 , "zero", pbt::str("zero became ", d));
        } else if (a >= largest) {
            g.label("saturating");
            pbt::check(std::fabs(d) == (float) largest && (d < 0) == (f < 0), "saturation", pbt::str(f, " should saturate to ", largest, " but became ", d));
        } else if (a >= lim) {
            g.label("in range");
            g.nontrivial();
            int e;
            frexp(a, &e);
            e--; // a = 1.x * 2^e
            double m = a / ldexp(1.0, e); // [1,2)
            double bound = m >= 1.875 ? ldexp(0.125, e) : ldexp(0.0625, e);
            if (a < smallest) bound = ldexp(0.0625, e);
            pbt::check((d < 0) == (f < 0) && std::fabs((double) d - f) <= bound * (1 + 1e-9), "precision", pbt::str(f, " became ", d, ", allowed error ", bound));
        } else {
            g.label("underflow zone");
            // nearer to zero than the format's regular range: zero, or the documented extra code, of the same sign
            pbt::check(d == 0 || std::fabs(d) <= (float) smallest, "underflow magnitude", pbt::str(f, " became ", d));
            pbt::check(d == 0 || (d < 0) == (f < 0), "underflow sign", pbt::str(f, " became ", d));
        }
        // converting again changes nothing (regular range)
        if (a >= lim || a == 0) {
            float again = quarterToFloat(floatToQuarter(d, bias_arg), bias_arg);
            pbt::check(again == d, "idempotence", pbt::str(f, " -> ", d, " -> ", again));
            float neg = quarterToFloat(floatToQuarter(-f, bias_arg), bias_arg);
            pbt::check(neg == -d, "sign symmetry", pbt::str(f, " -> ", d, " but ", -f, " -> ", neg));
        }
    };
    one(x, dx);
    one(y, dy);
    auto ordered = [&](float a, float da, float b, float db) {
        if (a <= b) pbt::check(da <= db, "order", pbt::str(a, " <= ", b, " but they became ", da, " and ", db));
    };
    // order is kept; inside the underflow zone only between values of the same sign
    ordered(x, dx, y, dy);
    ordered(y, dy, x, dx);
}

PBT_PROP(quarter_codes, 3000, 60000, "every code of a bias: decode matches the format, canonical codes survive a round trip, codes are ordered; always non-trivial") {
    int bias = g.chance(1, 8) ? (int) g.range(15, 30) : gen_bias(g);
    g.nontrivial();
    g.note("bias ", bias);
    float prev = -1;
    for (int q = 0; q < 256; q++) {
        float d = quarterToFloat((quarter) q, bias);
        if (q == 0x78) pbt::check(std::isinf(d) && d > 0, "code of +infinity");
        else if (q == 0xF8) pbt::check(std::isinf(d) && d < 0, "code of -infinity");
        else if (q == 0xFF) pbt::check(std::isnan(d), "code of nan");
        if (!canonical(q)) continue;
        pbt::check(d == (float) ref_decode(q, bias), "decode", pbt::str("bias ", bias, " code ", q, " decodes to ", d, " not ", ref_decode(q, bias)));
        if (q < 0x80) {
            pbt::check(d > prev, "codes ordered", pbt::str("bias ", bias, " code ", q));
            prev = d;
        }
        if (q != 0x80) {
            int back = floatToQuarter(d, bias);
            pbt::check(back == q, "round trip of a code", pbt::str("bias ", bias, " code ", q, " -> ", d, " -> code ", back));
        }
    }
    pbt::check(floatToQuarter(INFINITY, bias) == 0x78 && floatToQuarter(-INFINITY, bias) == 0xF8, "infinity");
    float one = quarterToFloat(floatToQuarter(1.f, bias), bias);
    if (bias >= -13 && bias <= 14 && bias != 0 && ldexp(1.0, 0) >= ldexp(1.0625, -bias))
        pbt::check(one == 1.f, "one", pbt::str("bias ", bias, " one became ", one));
    // range reported for a bias
    double want = 2 * ldexp(1.875, 14 - (bias == 0 ? 1 : bias));
    pbt::check(std::fabs(calculateBiasRange(bias) - want) <= want * 1e-6, "range of a bias", pbt::str(calculateBiasRange(bias), " instead of ", want));
}

PBT_PROP(nan_is_kept, 20000, 40000, "any NaN bit pattern converted to 8 and 16 bits; always non-trivial") {
    uint32_t b = 0x7f800000u | (uint32_t) g.range(1, 0x7fffff) | (g.flip() ? 0x80000000u : 0);
    if (g.chance(1, 4)) b = g.pick({0x7fc00000u, 0xffc00000u});
    int bias = gen_bias(g);
    g.nontrivial();
    g.note("NaN pattern 0x", std::hex, b, " bias ", std::dec, bias);
    float f = bits_f(b);
    pbt::check(std::isnan(quarterToFloat(floatToQuarter(f, bias), bias)), "nan to 8 bits", pbt::str("NaN became ", quarterToFloat(floatToQuarter(f, bias), bias)));
    pbt::check(std::isnan(halfToFloat(floatToHalf(f))), "nan to 16 bits", pbt::str("NaN became ", halfToFloat(floatToHalf(f))));
}

PBT_PROP(quarter_arithmetic, 200000, 4000000, "two codes with their own biases and a result bias, all four operations; non-trivial: result in the result format's range") {
    int ab = gen_bias(g), bb = gen_bias(g), rb = gen_bias(g);
    auto code = [&]() {
        int q = (int) g.range(0, 255);
        if (!canonical(q)) q &= 0xF7;
        return (quarter) q;
    };
    quarter a = code(), b = code();
    double da = ref_decode(a, ab), db = ref_decode(b, bb);
    g.note("codes ", (int) a, " bias ", ab, ", ", (int) b, " bias ", bb, ", result bias ", rb);
    struct {
        const char *n;
        double v;
        quarter q;
    } ops[] = {{"multiply", da * db, quarterMultiply(a, ab, b, bb, rb)},
               {"add",      da + db, quarterAdd(a, ab, b, bb, rb)},
               {"subtract", da - db, quarterSubtract(a, ab, b, bb, rb)},
               {"divide",   db != 0 ? da / db : 0, db != 0 ? quarterDivide(a, ab, b, bb, rb) : quarter(0)}};
    for (auto &o: ops) {
        if (!std::isfinite(o.v)) continue;
        float f = (float) o.v;
        if (f != 0 && std::fabs(f) < ldexp(1.0, 14 - (rb == 0 ? 1 : rb)) && std::fabs(f) > ldexp(1.0, -(rb == 0 ? 1 : rb))) g.nontrivial();
        quarter want = floatToQuarter(f == 0 ? 0.f : f, rb);
        float dw = quarterToFloat(want, rb), dg = quarterToFloat(o.q, rb);
        // the conversion of the exact result (a rounding of the exact result to float may move one step)
        float lo = quarterToFloat(floatToQuarter(bits_f(f_bits(f) - (f != 0)), rb), rb), hi = quarterToFloat(floatToQuarter(bits_f(f_bits(f) + (f != 0)), rb), rb);
        pbt::check(dg == dw || dg == lo || dg == hi, o.n, pbt::str(o.n, " of ", da, " and ", db, " gave ", dg, ", expected ", dw));
    }
}

PBT_PROP(half_conversion, 300000, 8000000, "two finite floats of any bit pattern; non-trivial: normal numbers not exactly representable") {
    auto gen = [&]() {
        uint32_t b;
        switch (g.draw(3)) {
            case 0:
                b = f_bits(g.value(1000.f));
                break;
            case 1:
                b = ((uint32_t) g.draw(65536) << 16) + (uint32_t) g.range(0, 4) - 2;
                break;
            default:
                b = (uint32_t) g.draw(1ULL << 32);
        }
        if (((b >> 23) & 0xff) == 0xff) b &= 0xbfffffff;
        return bits_f(b);
    };
    float x = gen(), y = g.flip() ? gen() : bits_f(f_bits(x) + 1);
    if (!std::isfinite(x) || !std::isfinite(y)) g.discard();
    g.note("x ", x, " y ", y);
    auto one = [&](float f) {
        half h = floatToHalf(f);
        float d = halfToFloat(h);
        double a = std::fabs((double) f);
        pbt::check(std::isfinite(d), "finite stays finite", pbt::str(f, " became ", d));
        double bound = a < ldexp(1.0, -126) ? ldexp(1.0, -133) : 0;
        if (bound == 0) {
            int e;
            frexp(a, &e);
            bound = ldexp(1.0, e - 1 - 7);
            if (d != f) g.nontrivial();
        }
        pbt::check(std::fabs((double) d - f) < bound || d == f, "precision", pbt::str(f, " became ", d));
        pbt::check(d == 0 || (d < 0) == (f < 0), "sign", pbt::str(f, " became ", d));
        pbt::check(floatToHalf(d) == h, "idempotence", pbt::str(f, " -> ", d));
        pbt::check(halfToFloat(floatToHalf(-f)) == -d, "sign symmetry", pbt::str(f));
        return d;
    };
    float dx = one(x), dy = one(y);
    if (x <= y) pbt::check(dx <= dy, "order", pbt::str(x, " <= ", y, " became ", dx, ", ", dy));
    if (y <= x) pbt::check(dy <= dx, "order", pbt::str(y, " <= ", x, " became ", dy, ", ", dx));
    pbt::check(halfToFloat(floatToHalf(INFINITY)) == INFINITY && halfToFloat(floatToHalf(-INFINITY)) == -INFINITY, "infinity");
    // every 16 bit pattern that is a number survives
    half h = (half) g.draw(65536);
    float f = halfToFloat(h);
    if (!std::isnan(f)) pbt::check(floatToHalf(f) == h, "round trip of a code", pbt::str("code ", h));
    uint32_t want = (uint32_t) h << 16;
    pbt::check(f_bits(f) == want || std::isnan(f), "decode", pbt::str("code ", h, " decodes to ", f));
}

PBT_PROP(portable_bytes, 100000, 400000, "any 16, 32 and 64 bit values; non-trivial: not a palindrome of bytes") {
    uint64_t v = g.draw(0);
    uint32_t w = (uint32_t) g.draw(1ULL << 32);
    uint16_t s = (uint16_t) g.draw(65536);
    if (w != __builtin_bswap32(w)) g.nontrivial();
    g.note("values ", v, " ", w, " ", s);
    uint64_t pv = portableBytes(v);
    uint32_t pw = portableBytes(w);
    uint16_t ps = portableBytes(s);
    auto big = [](const void *p, size_t n) {
        uint64_t r = 0;
        for (size_t i = 0; i < n; i++) r = r << 8 | ((const unsigned char *) p)[i];
        return r;
    };
    pbt::check(big(&pv, 8) == v, "64 bit order", pbt::str(v));
    pbt::check(big(&pw, 4) == w, "32 bit order", pbt::str(w));
    pbt::check(big(&ps, 2) == s, "16 bit order", pbt::str(s));
    pbt::check(portableBytes(pv) == v && portableBytes(pw) == w && portableBytes(ps) == s, "involution", pbt::str(v, " ", w, " ", s));
    float f = g.value(1e6f);
    uint32_t fb;
    memcpy(&fb, &f, 4);
    pbt::check(portableFloat(portableBytes(fb)) == f, "float", pbt::str(f));
    pbt::check(asString((int64_t) v) == std::to_string((int64_t) v) && asString(v) == std::to_string(v) && asString(w) == std::to_string(w) && asString((int32_t) w) == std::to_string((int32_t) w), "integer text", pbt::str(v, " ", w));
    pbt::check(asBool(asString(true)) && !asBool(asString(false)), "bool text");
    double d = (double) f;
    pbt::check(std::fabs(std::stod(asString(d)) - d) <= 1e-15 * 2, "double text", asString(d));
}
