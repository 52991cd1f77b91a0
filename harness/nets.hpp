// Generated network specifications, their builder calls, and a reference evaluation (forward and backward) in double
// precision that carries a bound on the rounding error of the library's single precision evaluation.
#ifndef NETS_HPP
#define NETS_HPP
#include "pbt.hpp"
#include "dense.hpp"
#include <map>
#include <set>
#include <functional>

namespace nets {
using namespace happyml;
using pbt::Gen;
using T = shared_ptr<BaseTensor>;
typedef vector<size_t> Shape;

struct Val {
    size_t r = 0, c = 0, ch = 0;
    vector<double> v, e; // value and bound on the library's error
    Val() = default;
    Val(size_t r_, size_t c_, size_t ch_) : r(r_), c(c_), ch(ch_), v(r_ * c_ * ch_, 0.0), e(r_ * c_ * ch_, 0.0) {}
    explicit Val(const Shape &s) : Val(s[0], s[1], s[2]) {}
    size_t at(size_t i, size_t j, size_t k) const { return (k * r + i) * c + j; }
    size_t n() const { return v.size(); }
    string text() const { Dense d(r, c, ch); d.v = v; return d.text(); }
};

inline Val of(const Dense &d) { Val x(d.r, d.c, d.ch); x.v = d.v; return x; }
inline T tensor(const Val &x) { Dense d(x.r, x.c, x.ch); d.v = x.v; return make_shared<FullTensor>(nested(d)); }
inline Val read(const T &t) {
    Val x(t->rowCount(), t->columnCount(), t->channelCount());
    for (size_t k = 0; k < x.ch; k++) for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++) x.v[x.at(i, j, k)] = t->getValue(i, j, k);
    return x;
}

struct V { // a vertex
    LayerType type = full;
    ActivationType act = linear;
    vector<int> parents;      // in the order that was asked for
    vector<int> children;     // in the order the edges were added
    bool input = false, output = false;
    Shape in{1, 1, 1}, out{1, 1, 1};
    size_t filters = 0, kernel = 0;
    bool bias = false, norm = false, l2 = false, clip = false, materialized = false;
    int bits = 32;
    float strength = 0.02f, threshold = 5.f, dropout = 0.f;
    bool set_l2 = false;
    string text(int id) const {
        string s = pbt::str("\n  ", id, ": ", nodeTypeToString(type), " ", activationTypeToString(act), " in ", in[0], "x", in[1], "x", in[2], " out ", out[0], "x", out[1], "x", out[2]);
        if (filters) s += pbt::str(" filters ", filters, " kernel ", kernel);
        if (input) s += " input";
        if (output) s += " output";
        if (!parents.empty()) { s += " from"; for (int p: parents) s += pbt::str(" ", p + 1); }
        if (bias) s += " bias";
        if (norm) s += " norm";
        if (l2) s += pbt::str(" l2 ", strength);
        if (clip) s += pbt::str(" clip ", threshold);
        if (materialized) s += " materialized";
        if (bits != 32) s += pbt::str(" bits ", bits);
        if (type == LayerType::dropout) s += pbt::str(" rate ", dropout);
        return s;
    }
};

struct Spec {
    OptimizerType optimizer = OptimizerType::sgd;
    LossType loss = LossType::mse;
    float lr = 0.005f, blr = 0.001f;
    vector<V> v;              // index + 1 is the vertex id
    vector<int> heads() const { vector<int> h; for (int i = 0; i < (int) v.size(); i++) if (v[i].input) h.push_back(i); return h; }
    // outputs in the order in which they are reached from the inputs
    vector<int> outputs() const {
        vector<int> o;
        set<int> seen;
        function<void(int)> visit = [&](int i) {
            if (!seen.insert(i).second) return;
            if (v[i].output) o.push_back(i);
            for (int c: v[i].children) visit(c);
        };
        for (int h: heads()) visit(h);
        return o;
    }
    string text() const {
        string s = pbt::str("network ", optimizerTypeToString(optimizer), " ", lossTypeToString(loss), " ", lr, " ", blr);
        for (int i = 0; i < (int) v.size(); i++) s += v[i].text(i + 1);
        return s;
    }
};

struct Options {
    bool training = false;    // only what has a slope everywhere, and a loss that fits
    bool kinks = true;        // piecewise linear activations
    bool dropout = true, norms = true, convs = true, bits = false, clip = false, dead_ends = false;
    int max_vertices = 6;
};

inline ActivationType gen_act(Gen &g, const Options &o, bool hidden) {
    if (o.training) {
        if (o.kinks && g.chance(1, 3)) return g.pick({relu, leaky});
        return g.pick({linear, tanhDefault, sigmoid});
    }
    (void) hidden;
    return g.pick({linear, relu, leaky, tanhDefault, sigmoid, sigmoidApprox, tanhApprox, softmax});
}

inline void finish(Gen &g, const Options &o, V &x) {
    bool weights = x.type == full || x.type == convolution2dValid;
    if (!weights) return;
    x.bias = g.flip();
    x.l2 = x.type == full;
    if (o.norms && x.out[0] * x.out[1] * x.out[2] > 2 && g.chance(1, 5)) x.norm = true;
    if (g.chance(1, 3)) { x.set_l2 = true; x.l2 = g.flip(); }
    if (g.chance(1, 4)) x.strength = (float) g.range(0, 20) / 100.f;
    x.materialized = x.type == convolution2dValid;
    if (g.chance(1, 4)) x.materialized = g.flip();
    if (o.bits && g.chance(1, 3)) x.bits = g.pick({8, 16, 32});
    if (o.clip && g.chance(1, 4)) { x.clip = true; x.threshold = (float) g.range(1, 40) / 8.f; }
}

// a layer that can follow a value of the given shape
inline V gen_vertex(Gen &g, const Options &o, const Shape &in, bool input, bool output) {
    V x;
    x.in = in;
    x.input = input;
    x.output = output;
    size_t small = min(in[0], in[1]);
    int kind = (int) g.draw(output ? 2 : 12);
    if (output ? kind == 1 : (kind >= 6 && kind <= 7)) {
        if (o.convs && !(output && in[0] == 1 && in[2] == 1)) {
            x.type = convolution2dValid;
            x.kernel = g.size(1, (int) min<size_t>(small, 3));
            x.filters = g.size(1, 3);
            x.out = {in[0] - x.kernel + 1, in[1] - x.kernel + 1, x.filters};
            x.act = gen_act(g, o, !output);
            finish(g, o, x);
            return x;
        }
    }
    if (!output) {
        if (kind == 8) { x.type = flatten; x.out = {1, in[0] * in[1] * in[2], 1}; return x; }
        if (kind == 9 && o.dropout) { x.type = LayerType::dropout; x.out = in; x.dropout = (float) g.range(0, 9) / 10.f; return x; }
        if (kind == 10 && o.norms && in[0] * in[1] * in[2] > 2) { x.type = normalize; x.out = in; return x; }
    }
    x.type = full;
    x.out = {1, (size_t) g.size(1, 5), 1};
    if (g.chance(1, 6)) x.out = {(size_t) g.size(1, 3), (size_t) g.size(1, 4), (size_t) g.size(1, 2)};
    x.act = gen_act(g, o, !output);
    finish(g, o, x);
    return x;
}

inline Shape gen_shape(Gen &g) {
    if (g.flip()) return {1, (size_t) g.size(1, 6), 1};
    return {(size_t) g.size(1, 4), (size_t) g.size(1, 5), (size_t) g.size(1, 3)};
}

inline Spec gen_spec(Gen &g, const Options &o) {
    Spec s;
    auto link = [&](int from, int to) { s.v[from].children.push_back(to); s.v[to].parents.push_back(from); };
    int limit = g.size(1, o.max_vertices);
    if (g.chance(1, 5)) { // flattened inputs that are concatenated at once
        int n = g.size(2, 3);
        vector<int> in;
        size_t total = 0;
        for (int i = 0; i < n; i++) {
            V x;
            x.type = flatten;
            x.input = true;
            x.in = gen_shape(g);
            x.out = {1, x.in[0] * x.in[1] * x.in[2], 1};
            total += x.out[1];
            in.push_back((int) s.v.size());
            s.v.push_back(x);
        }
        V c;
        c.type = concatenate;
        c.out = {1, total, 1};
        s.v.push_back(c);
        for (int i: in) link(i, (int) s.v.size() - 1);
    } else {
        int n = g.chance(1, 3) ? g.size(1, 3) : 1;
        for (int i = 0; i < n; i++) s.v.push_back(gen_vertex(g, o, gen_shape(g), true, limit == 1 && n == 1 ? true : g.chance(1, 12)));
    }
    auto open = [&]() { vector<int> r; for (int i = 0; i < (int) s.v.size(); i++) if (!s.v[i].output) r.push_back(i); return r; };
    for (int step = 0; step < 12 && (int) s.v.size() < limit; step++) {
        auto from = open();
        if (from.empty()) break;
        if (from.size() > 1 && g.chance(1, 3)) { // concatenate values of the same rows and channels
            int a = g.pick(from);
            vector<int> same;
            for (int i: from) if (i != a && s.v[i].out[0] == s.v[a].out[0] && s.v[i].out[2] == s.v[a].out[2]) same.push_back(i);
            if (same.empty()) continue;
            g.shuffle(same);
            same.resize(g.size(1, (int) min<size_t>(same.size(), 3)));
            vector<int> p{a};
            p.insert(p.end(), same.begin(), same.end());
            if (g.flip()) g.shuffle(p);
            V c;
            c.type = concatenate;
            size_t w = 0;
            for (int i: p) w += s.v[i].out[1];
            c.out = {s.v[a].out[0], w, s.v[a].out[2]};
            s.v.push_back(c);
            for (int i: p) link(i, (int) s.v.size() - 1);
            continue;
        }
        int from_i = g.flip() ? from.back() : g.pick(from);
        s.v.push_back(gen_vertex(g, o, s.v[from_i].out, false, g.chance(1, 6)));
        link(from_i, (int) s.v.size() - 1);
    }
    // leaves become outputs
    int n = (int) s.v.size();
    bool any = false;
    for (int i = 0; i < n; i++) any |= s.v[i].output;
    bool dead = o.dead_ends && any && g.chance(1, 10);
    for (int i = 0; i < n; i++) if (s.v[i].children.empty() && !s.v[i].output && !dead) {
        s.v.push_back(gen_vertex(g, o, s.v[i].out, false, true));
        link(i, (int) s.v.size() - 1);
    }
    if (o.training) {
        // the loss fits the outputs
        switch (g.draw(5)) {
            case 0: s.loss = mse; break;
            case 1: s.loss = smae; break;
            case 2: s.loss = o.kinks ? mae : mse; break;
            case 3: s.loss = categoricalCrossEntropy; for (auto &x: s.v) if (x.output) x.act = softmax; break;
            default: s.loss = binaryCrossEntropy; for (auto &x: s.v) if (x.output) x.act = sigmoid;
        }
    } else s.loss = g.pick({mse, mae, smae, categoricalCrossEntropy, binaryCrossEntropy});
    return s;
}

// ---------------------------------------------------------------- the library's network
// after_each is called with each vertex that was made, before its settings are made
inline shared_ptr<HappymlDSL> describe(const Spec &s, const string &name, const string &repo, const function<void(size_t, const shared_ptr<HappymlDSL::NNVertex> &)> &after_each = nullptr) {
    auto dsl = neuralNetworkBuilder(s.optimizer, name, repo)->setLossFunction(s.loss)->setLearningRate(s.lr)->setBiasLearningRate(s.blr);
    vector<shared_ptr<HappymlDSL::NNVertex>> made(s.v.size());
    // flattened inputs that only feed one concatenation are made by one call
    size_t start = 0;
    while (start < s.v.size() && s.v[start].input && s.v[start].type == flatten && s.v[start].children.size() == 1) start++;
    if (start > 1 && start < s.v.size() && s.v[start].type == concatenate && s.v[start].parents.size() == start && is_sorted(s.v[start].parents.begin(), s.v[start].parents.end()) && s.v[start].parents.back() == (int) start - 1) {
        vector<Shape> shapes;
        for (size_t i = 0; i < start; i++) shapes.push_back(s.v[i].in);
        made[start] = dsl->add_concatenated_input_layer(shapes);
        start++;
    } else start = 0;
    for (size_t i = start; i < s.v.size(); i++) {
        const V &x = s.v[i];
        shared_ptr<HappymlDSL::NNVertex> p = x.parents.empty() ? nullptr : made[x.parents[0]], m;
        bool conv = x.type == convolution2dValid;
        if (x.type == concatenate) {
            vector<shared_ptr<HappymlDSL::NNVertex>> all;
            for (int k: x.parents) all.push_back(made[k]);
            m = dsl->add_concatenated_layer(all);
        } else if (x.input && x.output) {
            m = conv ? dsl->addInputOutputLayer(x.in, x.filters, x.kernel, x.type, x.act) : dsl->addInputOutputLayer(x.in, x.out, x.type, x.act);
        } else if (x.input) {
            m = conv ? dsl->addInputLayer(x.in, x.filters, x.kernel, x.type, x.act) : dsl->addInputLayer(x.in, x.out, x.type, x.act);
        } else if (x.output) {
            bool plain = x.out[0] == 1 && x.out[2] == 1;
            m = conv ? p->addOutput(x.out, x.kernel, x.type, x.act) : plain && i % 2 ? p->addOutput(x.out[1], x.act) : p->addOutputLayer(x.out, x.act);
        } else if (conv) {
            m = p->addLayer(x.filters, x.kernel, x.type, x.act);
        } else if (x.type == LayerType::dropout) {
            m = p->addDropoutLayer(x.dropout);
        } else if (x.type == normalize) {
            m = p->addNormalizationLayer();
        } else {
            m = p->addLayer(x.out, x.type, x.act);
        }
        if (after_each) after_each(i, m);
        if (x.type == LayerType::dropout && x.input) m->setDropoutRate(x.dropout);
        if (x.type == LayerType::dropout) pbt::check(m->getDropoutRate() == x.dropout, "dropout-rate", pbt::str("the builder keeps ", m->getDropoutRate(), " of ", x.dropout));
        if (x.type == full || conv) {
            m->setUseBias(x.bias)->setUseNormalization(x.norm)->setBits((uint8_t) x.bits)->setMaterialized(x.materialized)->setRegularizationStrength(x.strength);
            if (x.set_l2 || x.l2 != (x.type == full)) m->setUseL2Regularization(x.l2);
            if (x.clip) m->setNormClippingThreshold(x.threshold);
        }
        made[i] = m;
    }
    return dsl;
}
inline shared_ptr<NeuralNetworkForTraining> build(const Spec &s, const string &name, const string &repo) {
    auto n = describe(s, name, repo)->build();
    n->setSilentMode(true);
    return n;
}

// ---------------------------------------------------------------- parameters
typedef map<string, Val> Params;

inline map<string, Shape> param_shapes(const Spec &s) {
    map<string, Shape> r;
    for (size_t i = 0; i < s.v.size(); i++) {
        const V &x = s.v[i];
        string id = to_string(i + 1);
        if (x.type == full) r[id + "_full"] = {x.in[0] * x.in[1] * x.in[2], x.out[0] * x.out[1] * x.out[2], 1};
        if (x.type == convolution2dValid) for (size_t f = 0; f < x.filters; f++) r[id + "_c2dv_" + to_string(f)] = {x.kernel, x.kernel, x.in[2]};
        if (x.bias) r[id + "_bias"] = x.out;
    }
    return r;
}

inline Params gen_params(Gen &g, const Spec &s) {
    Params p;
    for (auto &[name, shape]: param_shapes(s)) {
        Val x(shape);
        double scale = name.find("_bias") != string::npos ? 1 : 2.0 / sqrt((double) (name.find("_full") != string::npos ? shape[0] : x.n()));
        for (auto &w: x.v) w = (float) ((g.unit() - 0.5) * 2 * scale);
        p[name] = x;
    }
    return p;
}

inline void write_params(const Params &p, const string &folder) {
    for (auto &[name, x]: p) tensor(x)->save(folder + "/" + name + ".tensor");
}

inline Params read_params(const Spec &s, const string &folder) {
    Params p;
    for (auto &[name, shape]: param_shapes(s)) {
        T t = make_shared<FullTensor>(folder + "/" + name + ".tensor");
        p[name] = read(t);
        auto &x = p[name];
        pbt::check(x.r == shape[0] && x.c == shape[1] && x.ch == shape[2], "knowledge:shape", pbt::str("the stored ", name, " has shape ", x.r, "x", x.c, "x", x.ch, " instead of ", shape[0], "x", shape[1], "x", shape[2]));
    }
    return p;
}

// the network's current parameters
inline Params current(const Spec &s, const shared_ptr<NeuralNetworkForTraining> &n, const string &repo, const string &label = "look") {
    n->saveKnowledge(label, true);
    auto p = read_params(s, repo + "/" + n->get_name() + "/" + label);
    n->removeKnowledge(label);
    return p;
}

// ---------------------------------------------------------------- reference forward
const double U = 1.2e-7;
const double LOST = 1e30; // the bound where nothing is known about the library's value

struct Step { Val in, core, biased, normed, out; double mean = 0, std = 1; bool constant = false; vector<double> mask; };
typedef vector<Step> Tape;

inline double act_value(ActivationType t, double v) {
    switch (t) {
        case relu: return v > 0 ? v : 0;
        case leaky: return v >= 0 ? v : 0.01 * v;
        case tanhDefault: case tanhApprox: return tanh(v);
        case sigmoid: return v >= 0 ? 1 / (1 + exp(-v)) : exp(v) / (1 + exp(v));
        case sigmoidApprox: return 0.5 * (v / (1 + fabs(v)) + 1);
        default: return v;
    }
}
inline double act_slope(ActivationType t, double v) {
    switch (t) {
        case relu: return v > 0;
        case leaky: return v > 0 ? 1 : 0.01;
        case tanhDefault: case tanhApprox: return 1 - tanh(v) * tanh(v);
        case sigmoid: { double s = act_value(t, v); return s * (1 - s); }
        case sigmoidApprox: { double s = act_value(t, v); return s * (1 - s); }
        default: return 1;
    }
}

inline Val activate(ActivationType t, const Val &x) {
    Val y = x;
    if (t == softmax) {
        double mx = *max_element(x.v.begin(), x.v.end()), sum = 0, me = 0;
        for (size_t i = 0; i < x.n(); i++) { y.v[i] = exp(x.v[i] - mx); sum += y.v[i]; me = max(me, x.e[i]); }
        for (size_t i = 0; i < x.n(); i++) { y.v[i] /= sum; y.e[i] = me >= 1 ? 1 : y.v[i] * (exp(2 * me) - 1) + 4e-6; }
        return y;
    }
    for (size_t i = 0; i < x.n(); i++) {
        double v = x.v[i], e = x.e[i];
        y.v[i] = act_value(t, v);
        switch (t) {
            case relu: y.e[i] = v < -e ? 0 : e; break;
            case leaky: y.e[i] = (v < -e ? 0.01 * e : e) + U * fabs(y.v[i]); break;
            case linear: break;
            case sigmoid: case sigmoidApprox: y.e[i] = min(0.5 * e, 1.0) + 3e-6; break;
            default: y.e[i] = min(e, 2.0) + 4e-6;
        }
    }
    return y;
}

// returns the mean and deviation in s
inline Val normalized(const Val &x, Step &s) {
    size_t n = x.n();
    double mean = 0, var = 0, em = 0, es = 0;
    for (double v: x.v) mean += v / (double) n;
    double mag = 0;
    for (size_t i = 0; i < n; i++) { var += (x.v[i] - mean) * (x.v[i] - mean) / (double) n; em += x.e[i] / (double) n; es += x.e[i] * x.e[i] / (double) n; mag = max(mag, fabs(x.v[i])); }
    bool same = true;
    double emax = 0;
    for (size_t i = 0; i < n; i++) { same &= x.v[i] == x.v[0]; emax = max(emax, x.e[i]); }
    s.constant = same;
    s.mean = mean;
    s.std = same ? 1 : sqrt(var);
    Val y = x;
    if (same) {
        for (size_t i = 0; i < n; i++) { y.v[i] = 0; y.e[i] = n == 1 ? 0 : emax == 0 ? 1e-6 * mag : LOST; }
        return y;
    }
    em += U * mag;
    es = sqrt(es) + U * (mag + s.std);
    for (size_t i = 0; i < n; i++) {
        y.v[i] = (x.v[i] - mean) / s.std;
        y.e[i] = es > 0.05 * s.std ? LOST : 1.1 * (x.e[i] + em + fabs(y.v[i]) * es + U * fabs(x.v[i])) / (s.std - es) + 2 * U * fabs(y.v[i]);
    }
    return y;
}

// evaluates one vertex; masks: dropout masks for training, or null
inline void eval(const Spec &s, const Params &p, int id, const Val &in, Step &st, const vector<double> *mask = nullptr) {
    const V &x = s.v[id];
    string name = to_string(id + 1);
    st.in = in;
    Val z(x.out);
    if (x.type == full) {
        const Val &w = p.at(name + "_full");
        size_t n = in.n(), m = w.c;
        for (size_t j = 0; j < m; j++) {
            double sum = 0, mag = 0, e = 0;
            for (size_t i = 0; i < n; i++) { double t = in.v[i] * w.v[i * m + j]; sum += t; mag += fabs(t); e += in.e[i] * fabs(w.v[i * m + j]); }
            z.v[j] = sum;
            z.e[j] = e + U * (double) (n + 1) * mag;
        }
    } else if (x.type == convolution2dValid) {
        for (size_t f = 0; f < x.filters; f++) {
            const Val &w = p.at(name + "_c2dv_" + to_string(f));
            for (size_t i = 0; i < x.out[0]; i++) for (size_t j = 0; j < x.out[1]; j++) {
                double sum = 0, mag = 0, e = 0;
                for (size_t k = 0; k < x.in[2]; k++) for (size_t a = 0; a < x.kernel; a++) for (size_t b = 0; b < x.kernel; b++) {
                    double wv = w.v[w.at(a, b, k)];
                    size_t q = in.at(i + a, j + b, k);
                    sum += wv * in.v[q];
                    mag += fabs(wv * in.v[q]);
                    e += fabs(wv) * in.e[q];
                }
                z.v[z.at(i, j, f)] = sum;
                z.e[z.at(i, j, f)] = e + U * (double) (w.n() + 2) * mag;
            }
        }
    } else if (x.type == normalize) {
        z = normalized(in, st);
    } else {
        z.v = in.v; // flattening is channel-major, row-major, as the values are stored
        z.e = in.e;
        if (x.type == LayerType::dropout && mask) for (size_t i = 0; i < z.n(); i++) { z.v[i] *= (*mask)[i]; z.e[i] = z.e[i] * (*mask)[i] + U * fabs(z.v[i]); }
        if (mask) st.mask = *mask;
    }
    st.core = z;
    if (x.bias) {
        const Val &b = p.at(name + "_bias");
        for (size_t i = 0; i < z.n(); i++) { z.v[i] += b.v[i]; z.e[i] += U * (fabs(z.v[i]) + fabs(b.v[i])); }
    }
    st.biased = z;
    if (x.norm) z = normalized(z, st);
    st.normed = z;
    st.out = x.type == full || x.type == convolution2dValid ? activate(x.act, z) : z;
}

inline Val concat(const vector<Val> &xs) {
    size_t w = 0;
    for (auto &x: xs) w += x.c;
    Val o(xs[0].r, w, xs[0].ch);
    size_t at = 0;
    for (auto &x: xs) {
        for (size_t k = 0; k < x.ch; k++) for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++) { o.v[o.at(i, at + j, k)] = x.v[x.at(i, j, k)]; o.e[o.at(i, at + j, k)] = x.e[x.at(i, j, k)]; }
        at += x.c;
    }
    return o;
}

inline Tape forward(const Spec &s, const Params &p, const vector<Val> &inputs, const map<int, vector<double>> *masks = nullptr) {
    Tape t(s.v.size());
    size_t head = 0;
    for (int i = 0; i < (int) s.v.size(); i++) {
        const V &x = s.v[i];
        Val in;
        if (x.input) in = inputs[head++];
        else if (x.type == concatenate) { vector<Val> xs; for (int k: x.parents) xs.push_back(t[k].out); in = concat(xs); }
        else in = t[x.parents[0]].out;
        const vector<double> *mask = masks && masks->count(i) ? &masks->at(i) : nullptr;
        eval(s, p, i, in, t[i], mask);
    }
    return t;
}

// ---------------------------------------------------------------- losses (summed over the elements for the slopes)
inline double loss_value(LossType l, const Val &p, const Val &t) {
    double sum = 0;
    for (size_t i = 0; i < p.n(); i++) {
        double d = p.v[i] - t.v[i], a = fabs(d);
        switch (l) {
            case mse: sum += d * d; break;
            case mae: sum += a; break;
            case smae: sum += a < 1 ? 0.5 * d * d : a - 0.5; break;
            case categoricalCrossEntropy: sum -= t.v[i] * log(min(max(p.v[i], 1e-8), 1 - 1e-8)); break;
            default: sum -= t.v[i] * log(max(p.v[i], 1e-8)) + (1 - t.v[i]) * log(max(1 - p.v[i], 1e-8));
        }
    }
    return sum;
}
// what the library reports: a mean for the distances, a sum for the cross-entropies
inline double loss_reported(LossType l, const Val &p, const Val &t) {
    double sum = loss_value(l, p, t);
    return l == mse || l == mae || l == smae ? sum / (double) p.n() : sum;
}

typedef map<string, vector<double>> Grads;

// adds the slope of the summed loss with respect to every parameter; outs in the order of the outputs.
// errs: if given, the magnitude of the terms (for the tolerance)
inline void norm_backward(const Val &y, double std, vector<double> &d, vector<double> &m) {
    double n = (double) d.size(), md = 0, mdy = 0, mm = 0, mmy = 0;
    for (size_t i = 0; i < d.size(); i++) { md += d[i] / n; mdy += d[i] * y.v[i] / n; mm += m[i] / n; mmy += m[i] * fabs(y.v[i]) / n; }
    for (size_t i = 0; i < d.size(); i++) { d[i] = (d[i] - md - y.v[i] * mdy) / std; m[i] = (m[i] + mm + fabs(y.v[i]) * mmy) / std; }
}
inline void clip(const V &x, vector<double> &d, vector<double> &m) {
    if (!x.clip) return;
    double n = 0;
    for (double v: d) n += v * v;
    n = sqrt(n);
    if (n > x.threshold) for (size_t i = 0; i < d.size(); i++) { d[i] *= x.threshold / n; m[i] *= x.threshold / n; }
}

// gm: the same with the magnitudes of all terms, which tell how large the rounding errors can be
inline void backward(const Spec &s, const Params &p, const Tape &t, const vector<Val> &truths, Grads &g, Grads &gm) {
    vector<vector<double>> err(s.v.size()), mag(s.v.size());
    for (size_t i = 0; i < s.v.size(); i++) { err[i].assign(t[i].out.n(), 0.0); mag[i] = err[i]; }
    auto outs = s.outputs();
    for (size_t o = 0; o < outs.size(); o++) {
        const Val &y = t[outs[o]].out, &w = truths[o];
        auto &e = err[outs[o]];
        auto &em = mag[outs[o]];
        for (size_t i = 0; i < y.n(); i++) {
            double d = y.v[i] - w.v[i];
            em[i] = s.loss == binaryCrossEntropy ? w.v[i] / max(y.v[i], 1e-8) + (1 - w.v[i]) / max(1 - y.v[i], 1e-8) : s.loss == mae ? 1 : 2 * (fabs(y.v[i]) + fabs(w.v[i]));
            switch (s.loss) {
                case mse: e[i] = 2 * d; break;
                case mae: e[i] = d > 0 ? 1 : d < 0 ? -1 : 0; break;
                case smae: e[i] = fabs(d) < 1 ? d : d > 0 ? 1 : -1; break;
                case categoricalCrossEntropy: e[i] = d; break; // already the slope for the input of softmax
                default: e[i] = -w.v[i] / max(y.v[i], 1e-8) + (1 - w.v[i]) / max(1 - y.v[i], 1e-8);
            }
        }
    }
    for (int id = (int) s.v.size() - 1; id >= 0; id--) {
        const V &x = s.v[id];
        const Step &st = t[id];
        string name = to_string(id + 1);
        vector<double> d = err[id], dm = mag[id];
        if (x.type == full || x.type == convolution2dValid) {
            if (x.act != softmax) for (size_t i = 0; i < d.size(); i++) {
                double a = act_slope(x.act, st.normed.v[i]);
                d[i] *= a;
                dm[i] *= x.act == tanhDefault ? 1 : x.act == sigmoid ? act_value(x.act, st.normed.v[i]) : a; // differences of close values
            }
            clip(x, d, dm);
            if (x.norm) { norm_backward(st.normed, st.std, d, dm); clip(x, d, dm); }
            if (x.bias) {
                auto &b = g[name + "_bias"], &bm = gm[name + "_bias"];
                b.resize(d.size());
                bm.resize(d.size());
                for (size_t i = 0; i < d.size(); i++) { b[i] += d[i]; bm[i] += dm[i]; }
                clip(x, d, dm);
            }
        }
        vector<double> e(st.in.n(), 0.0), em = e;
        if (x.type == full) {
            const Val &w = p.at(name + "_full");
            auto &gw = g[name + "_full"], &gwm = gm[name + "_full"];
            gw.resize(w.n());
            gwm.resize(w.n());
            for (size_t i = 0; i < w.r; i++) for (size_t j = 0; j < w.c; j++) {
                gw[i * w.c + j] += st.in.v[i] * d[j] + (x.l2 ? (double) x.strength * w.v[i * w.c + j] : 0);
                gwm[i * w.c + j] += fabs(st.in.v[i]) * dm[j];
                e[i] += d[j] * w.v[i * w.c + j];
                em[i] += dm[j] * fabs(w.v[i * w.c + j]);
            }
            clip(x, e, em);
        } else if (x.type == convolution2dValid) {
            for (size_t f = 0; f < x.filters; f++) {
                string pn = name + "_c2dv_" + to_string(f);
                const Val &w = p.at(pn);
                auto &gw = g[pn], &gwm = gm[pn];
                gw.resize(w.n());
                gwm.resize(w.n());
                for (size_t k = 0; k < x.in[2]; k++) for (size_t a = 0; a < x.kernel; a++) for (size_t b = 0; b < x.kernel; b++) {
                    size_t q = w.at(a, b, k);
                    for (size_t i = 0; i < x.out[0]; i++) for (size_t j = 0; j < x.out[1]; j++) {
                        double dd = d[st.core.at(i, j, f)], ddm = dm[st.core.at(i, j, f)];
                        gwm[q] += ddm * fabs(st.in.v[st.in.at(i + a, j + b, k)]);
                        em[st.in.at(i + a, j + b, k)] += ddm * fabs(w.v[q]);
                        gw[q] += dd * st.in.v[st.in.at(i + a, j + b, k)];
                        e[st.in.at(i + a, j + b, k)] += dd * w.v[q];
                    }
                    if (x.l2) gw[q] += (double) x.strength * w.v[q];
                }
            }
            clip(x, e, em);
        } else if (x.type == normalize) {
            norm_backward(st.core, st.std, d, dm);
            e = d;
            em = dm;
        } else if (x.type == LayerType::dropout) {
            for (size_t i = 0; i < d.size(); i++) { e[i] = d[i] * (st.mask.empty() ? 1 : st.mask[i]); em[i] = dm[i] * (st.mask.empty() ? 1 : st.mask[i]); }
        } else { e = d; em = dm; }
        if (x.input) continue;
        if (x.type == concatenate) {
            size_t at = 0;
            for (int k: x.parents) {
                const Val &o = t[k].out;
                for (size_t c = 0; c < o.ch; c++) for (size_t i = 0; i < o.r; i++) for (size_t j = 0; j < o.c; j++) {
                    err[k][o.at(i, j, c)] += e[st.in.at(i, at + j, c)];
                    mag[k][o.at(i, j, c)] += em[st.in.at(i, at + j, c)];
                }
                at += o.c;
            }
        } else for (size_t i = 0; i < e.size(); i++) { err[x.parents[0]][i] += e[i]; mag[x.parents[0]][i] += em[i]; }
    }
}

// compares the library's outputs with the reference; returns how many values were compared with a useful bound
inline size_t compare(const vector<T> &got, const vector<Val> &want, const string &key, const string &what) {
    pbt::check(got.size() == want.size(), key + ":count", pbt::str(what, ": ", got.size(), " outputs instead of ", want.size()));
    size_t useful = 0;
    for (size_t o = 0; o < got.size(); o++) {
        const Val &w = want[o];
        pbt::check(got[o]->rowCount() == w.r && got[o]->columnCount() == w.c && got[o]->channelCount() == w.ch, key + ":shape",
                   pbt::str(what, ": output ", o, " has shape ", got[o]->rowCount(), "x", got[o]->columnCount(), "x", got[o]->channelCount(), " instead of ", w.r, "x", w.c, "x", w.ch));
        for (size_t k = 0; k < w.ch; k++) for (size_t i = 0; i < w.r; i++) for (size_t j = 0; j < w.c; j++) {
            size_t q = w.at(i, j, k);
            if (w.e[q] > 0.02 * (1 + fabs(w.v[q]))) continue;
            useful++;
            double v = got[o]->getValue(i, j, k);
            if (!(fabs(v - w.v[q]) <= 2 * w.e[q] + 1e-6 * fabs(w.v[q]) + 1e-7))
                pbt::fail(key + ":value", pbt::str(what, ": output ", o, " at row ", i, " column ", j, " channel ", k, " is ", v, " instead of ", w.v[q], " (bound ", w.e[q], ")"));
        }
    }
    return useful;
}

inline vector<Val> outputs(const Spec &s, const Tape &t) {
    vector<Val> r;
    for (int i: s.outputs()) r.push_back(t[i].out);
    return r;
}

inline vector<Val> gen_inputs(Gen &g, const Spec &s, float scale = 3.f) {
    vector<Val> r;
    for (int h: s.heads()) r.push_back(of(gen_dense(g, s.v[h].in[0], s.v[h].in[1], s.v[h].in[2], scale)));
    return r;
}
inline vector<T> tensors(const vector<Val> &xs) { vector<T> r; for (auto &x: xs) r.push_back(tensor(x)); return r; }

inline void labels(Gen &g, const Spec &s) {
    int convs = 0, concats = 0, forks = 0;
    for (auto &x: s.v) {
        convs += x.type == convolution2dValid;
        concats += x.type == concatenate;
        forks += x.children.size() > 1;
        if (x.norm || x.type == normalize) g.label("normalization");
        if (x.type == LayerType::dropout) g.label("dropout");
        if (x.type == flatten) g.label("flatten");
        if (x.act == softmax && x.type == full) g.label("softmax");
    }
    if (convs) g.label("convolution");
    if (concats) g.label("concatenation");
    if (forks) g.label("fork");
    if (s.heads().size() > 1) g.label("several inputs");
    if (s.outputs().size() > 1) g.label("several outputs");
}

// ---------------------------------------------------------------- training
// a data set that records in which order its records were given out
class OrderedDataSet : public InMemoryTrainingDataSet {
public:
    vector<shared_ptr<TrainingPair>> log;
    size_t restarts = 0;
    void restart() override { restarts++; InMemoryTrainingDataSet::restart(); }
    shared_ptr<TrainingPair> nextRecord() override {
        auto r = InMemoryTrainingDataSet::nextRecord();
        if (r) log.push_back(r);
        return r;
    }
};

struct Record { vector<Val> given, expected; };

// a truth that fits the loss
inline Val gen_truth(Gen &g, const Spec &s, const Shape &shape) {
    Val t(shape);
    if (s.loss == categoricalCrossEntropy) {
        if (g.flip()) t.v[g.draw(t.n())] = 1;
        else {
            double sum = 0;
            for (auto &v: t.v) sum += v = 1 + (double) g.draw(8);
            for (auto &v: t.v) v = (float) (v / sum);
        }
    } else if (s.loss == binaryCrossEntropy) for (auto &v: t.v) v = g.chance(1, 3) ? (float) g.unit() : (float) g.draw(2);
    else for (auto &v: t.v) v = (float) ((g.unit() - 0.5) * 4);
    return t;
}

inline vector<Record> gen_records(Gen &g, const Spec &s, int count, float scale = 2.f) {
    vector<Record> r;
    for (int i = 0; i < count; i++) {
        Record x;
        x.given = gen_inputs(g, s, scale);
        for (int o: s.outputs()) x.expected.push_back(gen_truth(g, s, s.v[o].out));
        r.push_back(x);
    }
    return r;
}

inline shared_ptr<OrderedDataSet> data_set(const vector<Record> &rs) {
    auto d = make_shared<OrderedDataSet>();
    for (auto &r: rs) d->addTrainingData(tensors(r.given), tensors(r.expected));
    return d;
}

// mean over the records of the gradient of the summed loss (with weight decay)
inline Grads batch_gradient(const Spec &s, const Params &p, const vector<Record> &rs, Grads *mags = nullptr) {
    Grads g, m;
    for (auto &r: rs) backward(s, p, forward(s, p, r.given), r.expected, g, m);
    for (auto &x: g) for (double &v: x.second) v /= (double) rs.size();
    for (auto &x: m) for (double &v: x.second) v /= (double) rs.size();
    if (mags) *mags = m;
    return g;
}

// is the library's evaluation of this record too close to a kink, or too uncertain, to say what the slope is?
inline bool uncertain(const Spec &s, const Params &p, const Record &r) {
    Tape t = forward(s, p, r.given);
    auto outs = s.outputs();
    for (size_t i = 0; i < s.v.size(); i++) {
        const V &x = s.v[i];
        if ((x.norm || x.type == normalize) && (t[i].constant || t[i].std < 1e-2)) return true;
        for (size_t q = 0; q < t[i].out.n(); q++) if (!(t[i].out.e[q] < 1e-3 * (1 + fabs(t[i].out.v[q])))) return true;
        bool kink = (x.type == full || x.type == convolution2dValid) && (x.act == relu || x.act == leaky);
        if (kink) for (size_t q = 0; q < t[i].normed.n(); q++) if (fabs(t[i].normed.v[q]) <= 4 * t[i].normed.e[q] + 1e-6) return true;
    }
    for (size_t o = 0; o < outs.size(); o++) {
        const Val &y = t[outs[o]].out;
        for (size_t q = 0; q < y.n(); q++) {
            double d = y.v[q] - r.expected[o].v[q];
            if (s.loss == mae && fabs(d) <= 4 * y.e[q] + 1e-6) return true;
            if ((s.loss == binaryCrossEntropy || s.loss == categoricalCrossEntropy) && (y.v[q] < 2e-3 || (s.loss == binaryCrossEntropy && y.v[q] > 1 - 2e-3))) return true;
        }
    }
    return false;
}

inline double total_loss(const Spec &s, const Params &p, const vector<Record> &rs) {
    double sum = 0;
    auto outs = s.outputs();
    for (auto &r: rs) {
        Tape t = forward(s, p, r.given);
        for (size_t o = 0; o < outs.size(); o++) sum += loss_value(s.loss, t[outs[o]].out, r.expected[o]) / (double) rs.size();
    }
    for (size_t i = 0; i < s.v.size(); i++) if (s.v[i].l2) {
        string id = to_string(i + 1) + "_";
        for (auto &[name, w]: p) if (name.rfind(id, 0) == 0 && name.find("_bias") == string::npos)
            for (double v: w.v) sum += 0.5 * (double) s.v[i].strength * v * v;
    }
    return sum;
}
} // namespace nets
#endif
