// Values and derivatives of expressions built from Func1 objects against second-order Taylor arithmetic (C16).
// usage: func1 SET DEPTH PART OF
#include "cantera/numerics/Func1.h"
#include "cantera/numerics/Func1Factory.h"
#include "cantera/base/ctexceptions.h"
#include <cmath>
#include <functional>
#include <iostream>
#include <set>
using namespace Cantera;
typedef long double ld;
static long nEval = 0, nTrans = 0, nState = 0, nViol = 0, nSkip = 0;
static std::set<string> seen;
static void violation(const string& key, const string& msg) {
    nViol++;
    if (!seen.insert(key).second || seen.size() > 40) return;
    std::cout << "V\t" << key << "\t" << msg.substr(0, 600) << "\n";
}

// value, first and second derivative, with magnitudes of the terms they are sums of
struct T { ld v[3], m[3]; bool ok[3]; };
static T konst(ld c) { return {{c, 0, 0}, {fabsl(c), 0, 0}, {true, true, true}}; }
static T nil() { return {{NAN, NAN, NAN}, {0, 0, 0}, {false, false, false}}; }
// intermediate results beyond the range of double arithmetic leave the value undefined
static bool inRange(ld v) { v = fabsl(v); return v == 0 || (v < 1e150L && v > 1e-150L); }
static void settle(T& r) { for (int i = 0; i < 3; i++) { r.ok[i] = r.ok[i] && inRange(r.v[i]) && (i == 0 || r.ok[i - 1]); } }
static T add(const T& a, const T& b, ld s) { T r; for (int i = 0; i < 3; i++) { r.v[i] = a.v[i] + s * b.v[i]; r.m[i] = a.m[i] + b.m[i]; r.ok[i] = a.ok[i] && b.ok[i]; } settle(r); return r; }
static T mul(const T& a, const T& b) {
    T r;
    r.v[0] = a.v[0] * b.v[0]; r.v[1] = a.v[1] * b.v[0] + a.v[0] * b.v[1]; r.v[2] = a.v[2] * b.v[0] + 2 * a.v[1] * b.v[1] + a.v[0] * b.v[2];
    r.m[0] = a.m[0] * b.m[0]; r.m[1] = a.m[1] * b.m[0] + a.m[0] * b.m[1]; r.m[2] = a.m[2] * b.m[0] + 2 * a.m[1] * b.m[1] + a.m[0] * b.m[2];
    for (int i = 0; i < 3; i++) r.ok[i] = a.ok[i] && b.ok[i];
    settle(r);
    return r;
}
// g(f): G holds g, g', g'', g''' at f
static T chain(const T& f, const ld G[4], bool ok0, bool ok1, bool ok2) {
    T r;
    ld e = f.m[0];
    ok0 = ok0 && inRange(G[0]); ok1 = ok1 && inRange(G[1]); ok2 = ok2 && inRange(G[2]);
    r.v[0] = G[0]; r.v[1] = G[1] * f.v[1]; r.v[2] = G[2] * f.v[1] * f.v[1] + G[1] * f.v[2];
    r.m[0] = fabsl(G[0]) + fabsl(G[1]) * e;
    r.m[1] = (fabsl(G[1]) + fabsl(G[2]) * e) * f.m[1];
    r.m[2] = (fabsl(G[2]) + fabsl(G[3]) * e) * f.m[1] * f.m[1] + (fabsl(G[1]) + fabsl(G[2]) * e) * f.m[2];
    r.ok[0] = ok0 && f.ok[0]; r.ok[1] = ok1 && f.ok[1]; r.ok[2] = ok2 && f.ok[2];
    settle(r);
    return r;
}
static T divide(const T& a, const T& b) {
    ld x = b.v[0];
    ld G[4] = {1 / x, -1 / (x * x), 2 / (x * x * x), -6 / (x * x * x * x)};
    if (x == 0 || !b.ok[0]) return nil();
    return mul(a, chain(b, G, true, true, true));
}
struct Leaf { string name; shared_ptr<Func1> f; std::function<void(ld, ld*, bool*)> g; bool deriv; };
struct N { char op; int leaf = -1; double c = 0; shared_ptr<N> a, b; shared_ptr<Func1> f; string name; bool deriv; bool dead = false; };
typedef shared_ptr<N> NP;
static vector<Leaf> leaves;
static T leafAt(const Leaf& l, const T& x) {
    ld G[4]; bool ok[3] = {true, true, true};
    if (!x.ok[0]) return nil();
    l.g(x.v[0], G, ok);
    return chain(x, G, ok[0], ok[1], ok[2]);
}
static T eval(const N& n, const T& x) {
    switch (n.op) {
    case 'l': return leafAt(leaves[n.leaf], x);
    case '+': return add(eval(*n.a, x), eval(*n.b, x), 1);
    case '-': return add(eval(*n.a, x), eval(*n.b, x), -1);
    case '*': return mul(eval(*n.a, x), eval(*n.b, x));
    case '/': return divide(eval(*n.a, x), eval(*n.b, x));
    case 'o': return eval(*n.a, eval(*n.b, x));
    case 't': return mul(eval(*n.a, x), konst(n.c));
    case 'p': return add(eval(*n.a, x), konst(n.c), 1);
    case 'P': {
        if (!x.ok[0]) return nil();
        ld k = floorl(x.v[0] / n.c);
        ld z = x.v[0] - k * n.c;
        if (fabsl(z) < 1e-6 || fabsl(z - n.c) < 1e-6) return nil();
        T y = x; y.v[0] = z; y.ok[1] = y.ok[2] = false;
        return eval(*n.a, y);
    }
    }
    return nil();
}
static const vector<double> points = {-2.3, -1.0, -0.45, 0.0, 0.3, 0.75, 1.0, 1.9, 2.6, 7.1};
static void leaf(const string& name, shared_ptr<Func1> f, std::function<void(ld, ld*, bool*)> g, bool deriv = true) { leaves.push_back({name, f, g, deriv}); }
static void build(const string& set) {
    bool s = set == "small";
    for (double w : s ? vector<double>{2} : vector<double>{1, 2}) leaf("sin(" + std::to_string((int) w) + "x)", newFunc1("sin", w), [w](ld x, ld* G, bool*) { G[0] = sinl(w * x); G[1] = w * cosl(w * x); G[2] = -w * w * sinl(w * x); G[3] = -w * w * w * cosl(w * x); });
    leaf("cos(3x)", newFunc1("cos", 3.), [](ld x, ld* G, bool*) { G[0] = cosl(3 * x); G[1] = -3 * sinl(3 * x); G[2] = -9 * cosl(3 * x); G[3] = 27 * sinl(3 * x); });
    for (double w : s ? vector<double>{-0.5} : vector<double>{1, -0.5, -1}) leaf("exp(" + std::to_string(w) + "x)", newFunc1("exp", w), [w](ld x, ld* G, bool*) { for (int i = 0; i < 4; i++) G[i] = powl(w, i) * expl(w * x); });
    leaf("log(x)", newFunc1("log", 1.), [](ld x, ld* G, bool* ok) { if (x <= 0) { ok[0] = false; return; } G[0] = logl(x); G[1] = 1 / x; G[2] = -1 / x / x; G[3] = 2 / x / x / x; });
    for (double e : s ? vector<double>{1, 2, -1, 0.5} : vector<double>{0, 1, 2, 3, -1, -2, 0.5, -0.5, 1.5})
        leaf("x^" + fmt::format("{}", e), newFunc1("pow", e), [e](ld x, ld* G, bool* ok) {
            ld c = 1;
            for (int i = 0; i < 4; i++) {
                ld k = e - i;
                ld p = c == 0 ? 0 : c * powl(x, k);
                G[i] = p;
                if (i < 3 && !std::isfinite(p)) for (int j = i; j < 3; j++) ok[j] = false;
                c *= k;
            }
            for (int i = 0; i < 4; i++) if (!std::isfinite(G[i])) G[i] = 0;
        });
    for (double c : s ? vector<double>{-1, 2.5} : vector<double>{0, 1, -1, 2.5}) leaf(fmt::format("{}", c), newFunc1("constant", c), [c](ld, ld* G, bool*) { G[0] = c; G[1] = G[2] = G[3] = 0; });
    {
        vector<double> t = {-1.5, -0.2, 0.5, 1.2, 2.5}, f = {1., 0.5, 2., -1., 0.25}, p;
        p = t; p.insert(p.end(), f.begin(), f.end());
        for (bool lin : {true, false}) leaf(lin ? "linear" : "previous", newFunc1(lin ? "tabulated-linear" : "tabulated-previous", p), [t, f, lin](ld x, ld* G, bool* ok) {
            G[1] = G[2] = G[3] = 0;
            for (auto q : t) if (fabsl(x - q) < 1e-9) { if (!lin) ok[0] = false; ok[1] = ok[2] = false; }
            if (x <= t[0]) { G[0] = f[0]; return; }
            for (size_t i = 1; i < t.size(); i++) if (x <= t[i]) { ld s = (f[i] - f[i - 1]) / (t[i] - t[i - 1]); G[0] = lin ? f[i - 1] + s * (x - t[i - 1]) : f[i - 1]; G[1] = lin ? s : 0; return; }
            G[0] = f.back();
        });
    }
    if (s) return;
    leaf("poly", newFunc1("polynomial3", vector<double>{2., -1., 0.5}), [](ld x, ld* G, bool*) { G[0] = 2 * x * x - x + 0.5L; G[1] = 4 * x - 1; G[2] = 4; G[3] = 0; }, false);
    leaf("fourier", newFunc1("Fourier", vector<double>{1., 0.5, -0.25, 1.7, 0.3, 2.}), [](ld x, ld* G, bool*) {
        G[0] = .5L; G[1] = G[2] = G[3] = 0;
        ld w = 1.7, a[2] = {.5, -.25}, b[2] = {.3, 2};
        for (int n = 1; n < 3; n++) { G[0] += a[n - 1] * cosl(n * w * x) + b[n - 1] * sinl(n * w * x); G[1] += -n * w * (a[n - 1] * sinl(n * w * x) - b[n - 1] * cosl(n * w * x)); G[2] += 10; G[3] += 30; } }, false);
    leaf("gauss", newFunc1("Gaussian", vector<double>{3., 1., 2.}), [](ld x, ld* G, bool*) { ld tau = 2. / (2 * sqrtl(logl(2.L))), z = (x - 1) / tau; G[0] = 3 * expl(-z * z); G[1] = -2 * z / tau * G[0]; G[2] = 10; G[3] = 10; }, false);
    leaf("arrhenius", newFunc1("Arrhenius", vector<double>{1.5, 0.5, 2., 2., -1., 0.5}), [](ld x, ld* G, bool* ok) { if (x <= 0) { ok[0] = false; return; } G[0] = 1.5L * powl(x, .5L) * expl(-2 / x) + 2 / x * expl(-.5L / x); G[1] = 5 * (1 + 1 / x / x); G[2] = 10 * (1 + 1 / x / x / x); G[3] = 10; }, false);
    leaf("functor", newFunc1("functor", 1.), [](ld, ld* G, bool*) { G[0] = G[1] = G[2] = G[3] = 0; }, false);
}
static string sig(const Func1& f) {
    string o = f.write("x") + "|";
    for (double t : {-0.45, 0.75, 1.9}) { char b[40]; double y = f.eval(t); if (std::isnan(y)) y = 12345; snprintf(b, 40, "%.17g,", y); o += b; }
    return o;
}
static void compare(const N& n, const Func1& f, int d, const string& key) {
    for (double t : points) {
        T x = {{t, 1, 0}, {std::abs(t), 1, 0}, {true, true, true}};
        T r = eval(n, x);
        if (!r.ok[d] || r.m[d] > 1e7 || !std::isfinite((double) r.m[d])) { nSkip++; continue; }
        nEval++;
        double y;
        try { y = f.eval(t); } catch (std::exception& e) { violation(key + ":throw", n.name + ": evaluation at " + std::to_string(t) + " throws " + e.what()); continue; }
        if (!(std::abs(y - (double) r.v[d]) <= 1e-9 * (double) (r.m[d] + r.m[0]) + 1e-12))
            violation(key, fmt::format("{}: {} at {} is {:.12g}, expected {:.12g}", n.name, d == 0 ? "value" : d == 1 ? "derivative" : "second derivative", t, y, (double) r.v[d]));
    }
}
static const char* kinds = "+-*/o";
static const char* rawName(char c) { return c == '+' ? "sum" : c == '-' ? "diff" : c == '*' ? "product" : c == '/' ? "ratio" : c == 'o' ? "composite" : c == 't' ? "times-constant" : c == 'p' ? "plus-constant" : "periodic"; }
static bool allNan(const N& n) {
    for (double t : points) { T x = {{t, 1, 0}, {std::abs(t), 1, 0}, {true, true, true}}; if (eval(n, x).ok[0]) return false; }
    return true;
}
static NP combine(char op, bool raw, NP a, NP b, double c, bool watch) {
    auto n = make_shared<N>();
    n->op = op; n->a = a; n->b = b; n->c = c;
    n->deriv = a->deriv && (!b || b->deriv) && op != 'P';
    n->name = (raw ? "raw" : "") + string(b ? "(" + a->name + ")" + op + "(" + b->name + ")" : string(rawName(op)) + "(" + a->name + "," + fmt::format("{}", c) + ")");
    string sa = watch ? sig(*a->f) : "", sb = watch && b ? sig(*b->f) : "";
    nTrans++;
    try {
        if (raw) n->f = b ? newFunc1(rawName(op), a->f, b->f) : newFunc1(rawName(op), a->f, c);
        else switch (op) {
            case '+': n->f = newSumFunction(a->f, b->f); break;
            case '-': n->f = newDiffFunction(a->f, b->f); break;
            case '*': n->f = newProdFunction(a->f, b->f); break;
            case '/': n->f = newRatioFunction(a->f, b->f); break;
            case 'o': n->f = newCompositeFunction(a->f, b->f); break;
            case 't': n->f = newTimesConstFunction(a->f, c); break;
            case 'p': n->f = newPlusConstFunction(a->f, c); break;
        }
    } catch (CanteraError& e) {
        if (!allNan(*n)) violation(string("build:") + op + (raw ? ":raw" : ""), n->name + " cannot be built: " + string(e.getMessage()));
        n->dead = true;
        return n;
    }
    if (watch && (sig(*a->f) != sa || (b && sig(*b->f) != sb))) violation(string("operands:") + op, n->name + ": building changes an operand");
    return n;
}
static void test(const NP& n, int orders) {
    if (n->dead) return;
    nState++;
    string key = string(1, n->op) + (n->name.substr(0, 3) == "raw" ? ":raw" : "");
    compare(*n, *n->f, 0, "value:" + key);
    shared_ptr<Func1> d = n->f;
    for (int o = 1; o <= orders; o++) {
        string before = sig(*d);
        shared_ptr<Func1> e;
        nTrans++;
        try { e = d->derivative(); }
        catch (CanteraError& err) { if (n->deriv && !allNan(*n) && string(err.getMessage()).find("Division by zero") == string::npos) violation("derivative:" + key + ":throw", n->name + ": " + string(err.getMessage())); return; }
        if (sig(*d) != before) violation("operands:derivative:" + key, n->name + ": differentiating changes the function");
        if (!n->deriv && o == 2) return;
        compare(*n, *e, o, string(o == 1 ? "derivative:" : "second:") + key);
        d = e;
    }
}
static vector<NP> level0() {
    vector<NP> out;
    for (size_t i = 0; i < leaves.size(); i++) { auto n = make_shared<N>(); n->op = 'l'; n->leaf = (int) i; n->f = leaves[i].f; n->name = leaves[i].name; n->deriv = leaves[i].deriv; out.push_back(n); }
    return out;
}
static void unary(const NP& a, vector<NP>& out, bool watch) {
    for (bool raw : {false, true}) {
        for (double c : {0., 1., -1., 2.}) out.push_back(combine('t', raw, a, nullptr, c, watch));
        for (double c : {0., 1., -2.}) out.push_back(combine('p', raw, a, nullptr, c, watch));
    }
    out.push_back(combine('P', true, a, nullptr, 1.3, watch));
}
static void binary(const NP& a, const NP& b, vector<NP>& out, bool watch, bool rawToo) {
    for (const char* k = kinds; *k; k++) {
        out.push_back(combine(*k, false, a, b, 0, watch));
        if (rawToo) out.push_back(combine(*k, true, a, b, 0, watch));
    }
}
int main(int argc, char** argv) {
    string set = argv[1];
    int depth = atoi(argv[2]), part = atoi(argv[3]), of = atoi(argv[4]);
    build(set);
    auto L0 = level0();
    long n = 0;
    if (set == "log") {          // factors other than one
        for (double c : {2., 0.5}) {
            auto f = newFunc1("log", c);
            for (double t : {0.3, 1., 1.9}) {
                nEval++; nTrans++;
                double y = f->eval(t), d = f->derivative()->eval(t);
                if (!(std::abs(y - std::log(c * t)) < 1e-12)) violation(fmt::format("log:value:{}", c), fmt::format("log({} x) at {} is {}", c, t, y));
                if (!(std::abs(d - 1 / t) < 1e-12)) violation(fmt::format("log:derivative:{}", c), fmt::format("derivative of log({} x) at {} is {}, expected {}", c, t, d, 1 / t));
            }
            nState++;
        }
    } else {
        vector<NP> L1;
        for (auto& a : L0) { unary(a, L1, true); for (auto& b : L0) binary(a, b, L1, true, true); }
        if (depth == 1) {
            if (part == 0) for (auto& a : L0) test(a, 2);
            for (auto& a : L1) if (n++ % of == part) test(a, 2);
        } else if (depth == 2) {                // level 1 with leaves, both orders, and unary operations
            for (auto& a : L1) if (n++ % of == part && !a->dead) {
                vector<NP> L2;
                bool w = n % 7 == 0;
                unary(a, L2, w);
                for (auto& b : L0) { binary(a, b, L2, w, false); binary(b, a, L2, w, false); }
                for (auto& x : L2) test(x, set == "small" ? 2 : 1);
            }
        } else {                                // pairs of level 1
            vector<NP> S;
            for (auto& a : L1) if (!a->dead && a->name.substr(0, 3) != "raw") S.push_back(a);
            for (auto& a : S) if (n++ % of == part) for (auto& b : S) {
                vector<NP> L2;
                binary(a, b, L2, false, false);
                for (auto& x : L2) test(x, 1);
            }
        }
    }
    std::cout << "N\t" << nEval << "\t" << nTrans << "\t" << nState << "\t" << nViol << "\t" << nSkip << "\n";
}
