// A dense reference tensor (double precision) and generators shared by the tensor harnesses
#ifndef DENSE_HPP
#define DENSE_HPP
#include "pbt.hpp"

struct Dense {
    size_t r = 0, c = 0, ch = 0;
    std::vector<double> v;   // value
    std::vector<double> m;   // magnitude of the terms that made the value (for the tolerance)
    Dense() = default;
    Dense(size_t r_, size_t c_, size_t ch_) : r(r_), c(c_), ch(ch_), v(r_ * c_ * ch_, 0.0), m(r_ * c_ * ch_, 0.0) {}
    size_t at(size_t i, size_t j, size_t k) const { return (k * r + i) * c + j; }
    double get(size_t i, size_t j, size_t k) const { return v[at(i, j, k)]; }
    double mag(size_t i, size_t j, size_t k) const { return m[at(i, j, k)]; }
    void set(size_t i, size_t j, size_t k, double x) { v[at(i, j, k)] = x; m[at(i, j, k)] = std::fabs(x); }
    void set(size_t i, size_t j, size_t k, double x, double mg) { v[at(i, j, k)] = x; m[at(i, j, k)] = std::max(mg, std::fabs(x)); }
    bool finite() const { for (double x: v) if (!std::isfinite(x)) return false; return true; }
    double maxabs() const { double a = 0; for (double x: v) a = std::max(a, std::fabs(x)); return a; }
    std::string text() const {
        std::string s = pbt::str(r, "x", c, "x", ch, " [");
        for (size_t k = 0; k < ch; k++) for (size_t i = 0; i < r; i++) {
            s += (i || k) ? " | " : "";
            for (size_t j = 0; j < c; j++) s += (j ? "," : "") + pbt::str((float) get(i, j, k));
            if (s.size() > 400) return s + " ...]";
        }
        return s + "]";
    }
};

inline Dense gen_dense(pbt::Gen &g, size_t r, size_t c, size_t ch, float scale = 10.f) {
    Dense d(r, c, ch);
    int mode = (int) g.draw(5); // 0: general, 1: small integers with ties, 2: negative only, 3: positive only, 4: sparse
    for (size_t k = 0; k < ch; k++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) {
        float x;
        switch (mode) {
            case 1: x = (float) g.range(0, 6) - 3; break;
            case 2: x = -std::fabs(g.value(scale)) - 0.125f; break;
            case 3: x = std::fabs(g.value(scale)) + 0.125f; break;
            case 4: x = g.chance(1, 4) ? g.value(scale) : 0.f; break;
            default: x = g.value(scale);
        }
        if (x == 0) x = 0; // no negative zero
        d.set(i, j, k, x);
    }
    return d;
}

inline std::vector<std::vector<std::vector<float>>> nested(const Dense &d) {
    std::vector<std::vector<std::vector<float>>> o(d.ch, std::vector<std::vector<float>>(d.r, std::vector<float>(d.c)));
    for (size_t k = 0; k < d.ch; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) o[k][i][j] = (float) d.get(i, j, k);
    return o;
}

// compares a library tensor with the reference: rel is relative to the magnitude of the terms
template<typename T>
void expect_equal(const T &t, const Dense &d, const std::string &key, const std::string &what, double rel = 2e-5, double abs = 1e-6) {
    if (t->rowCount() != d.r || t->columnCount() != d.c || t->channelCount() != d.ch)
        pbt::fail(key + ":shape", pbt::str(what, ": shape ", t->rowCount(), "x", t->columnCount(), "x", t->channelCount(), " instead of ", d.r, "x", d.c, "x", d.ch));
    for (size_t k = 0; k < d.ch; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) {
        double want = d.get(i, j, k), got = t->getValue(i, j, k);
        if (!(std::fabs(got - want) <= rel * d.mag(i, j, k) + abs) && !(got == want) && !(std::isnan(got) && std::isnan(want)))
            pbt::fail(key + ":value", pbt::str(what, ": at row ", i, " column ", j, " channel ", k, ": ", got, " instead of ", want));
    }
}
#endif
