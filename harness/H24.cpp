// H24: activation and loss functions equal their definitions, and their derivatives are their slopes
#include "ml/happyml_dsl.hpp"
#include "pbt.hpp"
#include "dense.hpp"

using namespace happyml;
using pbt::Gen;
using T = shared_ptr<BaseTensor>;

// a tensor of the given values: whole, reduced precision where exact, or as a view
static T make(Gen &g, const Dense &d) {
    T t = make_shared<FullTensor>(nested(d));
    switch (g.draw(8)) {
        case 6: return make_shared<TransposeTensorView>(make_shared<TransposeTensorView>(t));
        case 7: return make_shared<ScalarAddTensorView>(make_shared<ScalarMultiplyTensorView>(t, 1.0f), 0.0f);
        default: return t;
    }
}

static float input_value(Gen &g) {
    switch (g.draw(10)) {
        case 0: return 0.f;
        case 1: return (float) g.range(-3, 3);
        case 2: return (g.flip() ? 1.f : -1.f) * (float) (g.unit() * 1e-4);
        case 3: return (g.flip() ? 1.f : -1.f) * (float) (10 + g.unit() * 100); // saturated
        case 4: return (g.flip() ? 1.f : -1.f) * (float) (100 + g.unit() * 9900);
        case 5: return (g.flip() ? 1.f : -1.f) * (float) (85 + g.unit() * 8); // where exp overflows a float
        default: return (float) ((g.unit() - 0.5) * 16);
    }
}

static double sigm(double x) { return x >= 0 ? 1 / (1 + exp(-x)) : exp(x) / (1 + exp(x)); }

static Dense inputs(Gen &g) {
    Dense d(g.size(1, 4), g.size(1, 6), g.size(1, 3));
    for (auto &v: d.v) v = input_value(g);
    return d;
}

static const vector<ActivationType> elementwise{relu, leaky, tanhDefault, sigmoid, sigmoidApprox, tanhApprox, linear};

static shared_ptr<ActivationFunction> activation_of(ActivationType t) {
    switch (t) {
        case relu: return make_shared<ReLUActivationFunction>();
        case leaky: return make_shared<LeakyReLUActivationFunction>();
        case tanhDefault: return make_shared<TanhActivationFunction>();
        case sigmoid: return make_shared<SigmoidActivationFunction>();
        case sigmoidApprox: return make_shared<SigmoidApproximationActivationFunction>();
        case tanhApprox: return make_shared<TanhApproximationActivationFunction>();
        case linear: return make_shared<LinearActivationFunction>();
        default: return make_shared<SoftmaxActivationFunction>();
    }
}

PBT_PROP(activation, 400000, 8000000, "at least two values, one of them other than zero") {
    ActivationType t = g.pick(elementwise);
    string name = activationTypeToString(t);
    g.label(name);
    Dense d = inputs(g);
    g.is_nontrivial = d.v.size() > 1 && d.maxabs() > 0;
    g.note(name, " of ", d.text());
    auto f = activation_of(t);
    T x = make(g, d);
    T y = f->activate(x), s = f->derivative(x);
    bool same_shape = y->rowCount() == d.r && y->columnCount() == d.c && y->channelCount() == d.ch
        && s->rowCount() == d.r && s->columnCount() == d.c && s->channelCount() == d.ch;
    pbt::check(same_shape, "activation:" + name + ":shape", "the result does not have the shape of the input");
    for (size_t k = 0; k < d.ch; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) {
        double v = d.get(i, j, k), got = y->getValue(i, j, k), slope = s->getValue(i, j, k);
        double want = 0, lo = 0, hi = 0, tol = 2e-6; // slope within [lo,hi] widened by the tolerance
        switch (t) {
            case relu: want = v > 0 ? v : 0; lo = v > 0; hi = v >= 0; break;
            case leaky: want = v >= 0 ? v : 0.01 * v; lo = v > 0 ? 1 : 0.01; hi = v >= 0 ? 1 : 0.01; break;
            case linear: want = v; lo = hi = 1; break;
            case tanhDefault: case tanhApprox: want = tanh(v); lo = hi = 1 - want * want; break;
            case sigmoid: want = sigm(v); lo = hi = sigm(v) * sigm(-v); break;
            // documented: f(x) = 0.5 * (x / (1 + abs(x)) + 1), with the logistic function's relation of slope and value
            default: want = 0.5 * (v / (1 + fabs(v)) + 1); lo = hi = want * (1 - want);
        }
        pbt::check(fabs(got - want) <= tol + 2e-6 * fabs(want), "activation:" + name + ":value",
                   pbt::str(name, "(", v, ") is ", got, " instead of ", want));
        pbt::check(slope >= lo - tol && slope <= hi + tol, "activation:" + name + ":slope",
                   pbt::str("the derivative of ", name, " at ", v, " is ", slope, " instead of ", lo));
    }
    g.label(d.maxabs() > 85 ? "saturated" : "moderate");
    bool has_zero = false;
    for (double v: d.v) has_zero |= v == 0;
    if (has_zero) g.label("zero");
}

static vector<double> ref_softmax(const vector<double> &x) {
    double mx = *max_element(x.begin(), x.end()), sum = 0;
    vector<double> o;
    for (double v: x) { o.push_back(exp(v - mx)); sum += o.back(); }
    for (double &v: o) v /= sum;
    return o;
}

PBT_PROP(softmax_pair, 200000, 4000000, "at least two values that differ") {
    Dense d(g.chance(1, 4) ? g.size(1, 3) : 1, g.size(1, 12), g.chance(1, 4) ? g.size(1, 3) : 1);
    bool far = g.chance(1, 3);
    for (auto &v: d.v) v = far ? input_value(g) : (float) ((g.unit() - 0.5) * 12);
    if (g.chance(1, 6)) for (auto &v: d.v) v = d.v[0];
    set<double> distinct(d.v.begin(), d.v.end());
    g.is_nontrivial = distinct.size() > 1;
    g.note("softmax of ", d.text());
    g.label(far ? "any magnitude" : "moderate");
    if (d.r > 1 || d.ch > 1) g.label("several rows or channels");
    auto f = make_shared<SoftmaxActivationFunction>();
    T x = make(g, d), y = f->activate(x);
    auto want = ref_softmax(d.v);
    double sum = 0;
    for (size_t k = 0; k < d.ch; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) {
        double got = y->getValue(i, j, k);
        pbt::check(got >= 0 && got <= 1 + 1e-6, "softmax:range", pbt::str("softmax gave ", got));
        pbt::check(fabs(got - want[d.at(i, j, k)]) <= 1e-5, "softmax:value", pbt::str("softmax at ", i, ",", j, ",", k, " is ", got, " instead of ", want[d.at(i, j, k)]));
        sum += got;
    }
    pbt::check(fabs(sum - 1) <= 1e-5, "softmax:sum", pbt::str("softmax outputs sum to ", sum));
    // adding the same to every value changes nothing
    float add = (float) g.range(-20, 20);
    T y2 = f->activate(make_shared<ScalarAddTensorView>(x, add));
    for (size_t j = 0; j < d.c; j++) pbt::check(fabs(y2->getValue(0, j, 0) - y->getValue(0, j, 0)) <= 2e-3, "softmax:shift", "softmax changed when the same was added to every value");
    // together with the categorical cross-entropy, as documented: the slope of the pair with respect to softmax's input
    Dense truth(d.r, d.c, d.ch);
    bool hard = g.flip();
    if (hard) truth.v[g.draw(truth.v.size())] = 1;
    else {
        double total = 0;
        for (auto &v: truth.v) total += v = 1 + (double) g.draw(8);
        for (auto &v: truth.v) v = (float) (v / total);
    }
    g.note("truth ", truth.text());
    g.label(hard ? "one-hot truth" : "soft truth");
    CategoricalCrossEntropyLossFunction cce;
    T t = make_shared<FullTensor>(nested(truth)), p = y, err = cce.compute_error(t, p);
    T out = cce.compute_loss_derivative(err, t, p);
    T in = f->derivative(x);
    for (size_t k = 0; k < d.ch; k++) for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) {
        double got = (double) in->getValue(i, j, k) * out->getValue(i, j, k), w = want[d.at(i, j, k)] - truth.get(i, j, k);
        pbt::check(fabs(got - w) <= 1e-5, "softmax:pair_slope", pbt::str("the slope of the categorical cross-entropy with respect to the input of softmax is ", got, " instead of ", w, " at ", i, ",", j, ",", k, ", input ", d.get(i, j, k)));
    }
}

static float probability(Gen &g) {
    switch (g.draw(8)) {
        case 0: return 0.f;
        case 1: return 1.f;
        case 2: return (float) (g.unit() * 1e-6);
        case 3: return (float) (1 - g.unit() * 1e-6);
        case 4: return 1.f / (float) (1ull << g.draw(60));
        default: return (float) g.unit();
    }
}

PBT_PROP(loss, 400000, 8000000, "at least two values, the prediction differing from the truth") {
    int which = (int) g.draw(5);
    static const char *names[] = {"mse", "mae", "smae", "categoricalCrossEntropy", "binaryCrossEntropy"};
    string name = names[which];
    g.label(name);
    shared_ptr<LossFunction> loss;
    switch (which) {
        case 0: loss = make_shared<MeanSquaredErrorLossFunction>(); break;
        case 1: loss = make_shared<MeanAbsoluteErrorLossFunction>(); break;
        case 2: loss = make_shared<SmoothMeanAbsoluteErrorLossFunction>(); break;
        case 3: loss = make_shared<CategoricalCrossEntropyLossFunction>(); break;
        default: loss = make_shared<BinaryCrossEntropyLossFunction>();
    }
    double smoothness = 1;
    if (which == 2 && g.flip()) {
        smoothness = (double) g.range(1, 8) / 2;
        static_pointer_cast<SmoothMeanAbsoluteErrorLossFunction>(loss)->smoothness = (float) smoothness;
        g.note("smoothness ", smoothness);
    }
    Dense p(g.size(1, 3), g.size(1, 6), g.size(1, 3)), t(p.r, p.c, p.ch);
    for (size_t i = 0; i < p.v.size(); i++) {
        if (which >= 3) {
            p.v[i] = probability(g);
            t.v[i] = g.chance(1, 3) ? (float) g.unit() : (float) g.draw(2);
        } else {
            bool wide = g.chance(1, 4);
            t.v[i] = wide ? g.value(1000) : g.value(2);
            switch (g.draw(6)) {
                case 0: p.v[i] = t.v[i]; break;
                case 1: p.v[i] = (float) (t.v[i] + smoothness); break;
                default: p.v[i] = wide ? g.value(1000) : g.value(2);
            }
        }
    }
    bool differs = p.v != t.v;
    g.is_nontrivial = differs && p.v.size() > 1;
    g.note(name, " prediction ", p.text(), "\ntruth ", t.text());
    T tp = make(g, p), tt = make(g, t);
    T err = loss->compute_error(tt, tp);
    T der = loss->compute_loss_derivative(err, tt, tp);
    for (auto &x: {err, der})
        pbt::check(x->rowCount() == p.r && x->columnCount() == p.c && x->channelCount() == p.ch, "loss:" + name + ":shape", "error or derivative does not have the shape of the prediction");
    double total = 0, mag = 0;
    for (size_t k = 0; k < p.ch; k++) for (size_t i = 0; i < p.r; i++) for (size_t j = 0; j < p.c; j++) {
        double a = p.get(i, j, k), b = t.get(i, j, k), d = a - b, value = 0, slope = 0, slope_tol = 1e-5, value_tol = 1e-5;
        bool any_slope = false;
        double e = err->getValue(i, j, k), s = der->getValue(i, j, k);
        double want_e;
        switch (which) {
            case 0: want_e = d; value = d * d; slope = 2 * d; break;
            case 1: want_e = value = fabs(d); slope = d > 0 ? 1 : d < 0 ? -1 : 0; any_slope = d == 0 && fabs(s) <= 1; break;
            case 2:
                want_e = value = fabs(d) < smoothness ? 0.5 * d * d / smoothness : fabs(d) - 0.5 * smoothness;
                slope = fabs(d) < smoothness ? d / smoothness : d > 0 ? 1 : -1;
                break;
            case 3: {
                // predictions are documented to be kept at least 1e-8 away from zero and one
                double q = min(max(a, 1e-8), 1 - 1e-8);
                want_e = value = -b * log(q);
                slope = d; // documented: with respect to the input of softmax
                value_tol = 2e-6 + 1e-5 * fabs(value);
                break;
            }
            default: {
                double q = max(a, 1e-8), r = max(1 - a, 1e-8);
                want_e = value = -b * log(min(q, 1.0)) - (1 - b) * log(min(r, 1.0));
                slope = -(b / q - (1 - b) / r);
                value_tol = 2e-6 + 1e-5 * fabs(value);
                slope_tol = 1e-5 + 1e-5 * (b / q + (1 - b) / r);
                // inside the clipped zone the slope may be that of the clipped loss
                any_slope = (a < 2e-8 || 1 - a < 2e-8) && std::isfinite(s) && fabs(s) <= 1.01e8 && (slope == 0 || s == 0 || (s > 0) == (slope > 0) );
            }
        }
        pbt::check(fabs(e - want_e) <= value_tol + 1e-6 * fabs(want_e) + 2e-7 * (fabs(a) + fabs(b)), "loss:" + name + ":error",
                   pbt::str("the error of prediction ", a, " for truth ", b, " is ", e, " instead of ", want_e));
        pbt::check(any_slope || fabs(s - slope) <= slope_tol + 4e-7 * (fabs(a) + fabs(b)), "loss:" + name + ":slope",
                   pbt::str("the derivative for prediction ", a, " and truth ", b, " is ", s, " instead of ", slope));
        total += value;
        mag += fabs(value) + 4e-2 * (fabs(a) + fabs(b)) * (which == 0 ? fabs(d) : 1);
    }
    double got = loss->compute_loss(err);
    double want = which < 3 ? total / (double) p.v.size() : total;
    double scale = which < 3 ? mag / (double) p.v.size() : mag;
    pbt::check(std::isfinite(got) && fabs(got - want) <= 1e-5 * scale + 1e-5, "loss:" + name + ":value", pbt::str("the loss is ", got, " instead of ", want));
    if (!differs && which < 3) pbt::check(got == 0, "loss:" + name + ":perfect", pbt::str("the loss of a perfect prediction is ", got));
}
