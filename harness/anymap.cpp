// Histories of AnyMap objects against a reference mapping, and round trips of nested values through YAML (C14).
// usage: anymap hist DEPTH PART OF | anymap rt SET PART OF | anymap num PRECISION
#include "cantera/base/AnyMap.h"
#include "cantera/base/global.h"
#include <climits>
#include <cmath>
#include <cstring>
#include <iostream>
#include <limits>
#include <memory>
#include <functional>
#include <set>
using namespace Cantera;
using std::make_shared;

static long nEval = 0, nTrans = 0, nState = 0, nViol = 0;
static std::set<size_t> states;
static std::set<string> seen;
static void violation(const string& key, const string& msg) {
    nViol++;
    if (!seen.insert(key).second || seen.size() > 60) return;
    string m;
    for (char c : msg.substr(0, 700)) { if (c == '\n') m += "\\n"; else if ((unsigned char)c < 32) m += '?'; else m += c; }
    string k;
    for (char c : key) k += (unsigned char) c < 32 ? '?' : c;
    std::cout << "V\t" << k << "\t" << m << "\n";
}
static string num(double x) {
    if (std::isnan(x)) return "nan";
    char b[40]; snprintf(b, 40, "%.17g", x); return b;
}

// ---------------------------------------------------------------- reference values
struct R;
typedef shared_ptr<R> RP;
struct R {
    char t;                 // v(oid) d l s b M(ap) L(ist)
    double d = 0; long l = 0; bool b = false; string s;
    map<string, RP> m; vector<RP> v;
};
static RP mk(char t) { auto r = make_shared<R>(); r->t = t; return r; }
static RP rd(double x) { auto r = mk('d'); r->d = x; return r; }
static RP rl(long x) { auto r = mk('l'); r->l = x; return r; }
static RP rs(const string& x) { auto r = mk('s'); r->s = x; return r; }
static RP rb(bool x) { auto r = mk('b'); r->b = x; return r; }
static RP rL(vector<RP> v) { auto r = mk('L'); r->v = std::move(v); return r; }
static RP rM(map<string, RP> m) { auto r = mk('M'); r->m = std::move(m); return r; }
static RP clone(const RP& a) {
    auto r = make_shared<R>(*a);
    for (auto& [k, x] : r->m) x = clone(x);
    for (auto& x : r->v) x = clone(x);
    return r;
}
static string q(const string& s) { string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') o += "\\n"; else o += c; } return o + "\""; }
// text; numbers of integer and floating type are told apart unless loose
static string text(const RP& r, bool loose, bool inNumList = false) {
    switch (r->t) {
    case 'v': return "void";
    case 'd': return (loose || inNumList ? "" : "d") + num(r->d);
    case 'l': return (loose || inNumList ? "" : "l") + (loose || inNumList ? num((double) r->l) : std::to_string(r->l));
    case 's': return q(r->s);
    case 'b': return r->b ? "true" : "false";
    case 'M': { string o = "{"; for (auto& [k, x] : r->m) o += q(k) + ":" + text(x, loose) + ","; return o + "}"; }
    default: {
        bool anyD = false, allN = !r->v.empty();
        for (auto& x : r->v) { anyD |= x->t == 'd'; allN &= x->t == 'd' || x->t == 'l'; }
        string o = "["; for (auto& x : r->v) o += text(x, loose, anyD && allN) + ","; return o + "]";
    }
    }
}
// for matrices: a row list of numbers is floating if any number of the matrix is
static void unify(RP& r) {
    if (r->t == 'M') for (auto& [k, x] : r->m) unify(x);
    if (r->t != 'L') return;
    bool mat = !r->v.empty(), anyD = false;
    for (auto& x : r->v) { unify(x); mat &= x->t == 'L'; if (x->t == 'L') for (auto& y : x->v) { mat &= y->t == 'd' || y->t == 'l'; anyD |= y->t == 'd'; } }
    if (mat && anyD) for (auto& x : r->v) for (auto& y : x->v) if (y->t == 'l') { y = rd((double) y->l); }
}

// ---------------------------------------------------------------- from the real objects (public interface only)
static RP get(const AnyMap& m);
static RP get(const AnyValue& a) {
    if (a.empty()) return mk('v');
    if (a.is<double>()) return rd(a.asDouble());
    if (a.is<long int>()) return rl(a.asInt());
    if (a.is<string>()) return rs(a.asString());
    if (a.is<bool>()) return rb(a.asBool());
    if (a.is<AnyMap>()) return get(a.as<AnyMap>());
    auto r = mk('L');
    if (a.isVector<AnyMap>()) { for (auto& x : a.as<vector<AnyMap>>()) r->v.push_back(get(x)); return r; }
    if (a.isVector<AnyValue>()) { for (auto& x : a.as<vector<AnyValue>>()) r->v.push_back(get(x)); return r; }
    if (a.isVector<double>()) { for (auto x : a.as<vector<double>>()) r->v.push_back(rd(x)); return r; }
    if (a.isVector<long int>()) { for (auto x : a.as<vector<long int>>()) r->v.push_back(rl(x)); return r; }
    if (a.isVector<string>()) { for (auto& x : a.as<vector<string>>()) r->v.push_back(rs(x)); return r; }
    if (a.isVector<bool>()) { for (bool x : a.as<vector<bool>>()) r->v.push_back(rb(x)); return r; }
    if (a.isVector<vector<double>>()) { for (auto& u : a.as<vector<vector<double>>>()) { auto w = mk('L'); for (auto x : u) w->v.push_back(rd(x)); r->v.push_back(w); } return r; }
    if (a.isVector<vector<long int>>()) { for (auto& u : a.as<vector<vector<long int>>>()) { auto w = mk('L'); for (auto x : u) w->v.push_back(rl(x)); r->v.push_back(w); } return r; }
    if (a.isVector<vector<string>>()) { for (auto& u : a.as<vector<vector<string>>>()) { auto w = mk('L'); for (auto& x : u) w->v.push_back(rs(x)); r->v.push_back(w); } return r; }
    if (a.isVector<vector<bool>>()) { for (auto& u : a.as<vector<vector<bool>>>()) { auto w = mk('L'); for (bool x : u) w->v.push_back(rb(x)); r->v.push_back(w); } return r; }
    return rs("?" + a.type_str());
}
static RP get(const AnyMap& m) {
    auto r = mk('M');
    for (const auto& [k, x] : m) r->m[k] = get(x);
    return r;
}

// ---------------------------------------------------------------- to the real objects
enum How { Natural, Any };          // typed vectors where possible, or vector<AnyValue>
static AnyMap toMap(const RP& r, How h);
template <class F> static bool all(const vector<RP>& v, F f) { for (auto& x : v) if (!f(x)) return false; return true; }
static AnyValue toValue(const RP& r, How h) {
    AnyValue a;
    switch (r->t) {
    case 'd': a = r->d; return a;
    case 'l': a = r->l; return a;
    case 's': a = r->s; return a;
    case 'b': a = r->b; return a;
    case 'M': a = toMap(r, h); return a;
    case 'v': return a;
    }
    auto& v = r->v;
    auto is = [](char t) { return [t](const RP& x) { return x->t == t; }; };
    if (!v.empty() && h == Natural) {
        if (all(v, is('d'))) { vector<double> o; for (auto& x : v) o.push_back(x->d); a = o; return a; }
        if (all(v, is('l'))) { vector<long int> o; for (auto& x : v) o.push_back(x->l); a = o; return a; }
        if (all(v, is('s'))) { vector<string> o; for (auto& x : v) o.push_back(x->s); a = o; return a; }
        if (all(v, is('b'))) { vector<bool> o; for (auto& x : v) o.push_back(x->b); a = o; return a; }
        if (all(v, is('M'))) { vector<AnyMap> o; for (auto& x : v) o.push_back(toMap(x, h)); a = o; return a; }
        if (all(v, is('L'))) {
            for (char t : {'d', 'l', 's', 'b'}) {
                if (!all(v, [&](const RP& x) { return all(x->v, is(t)); })) continue;
                if (t == 'd') { vector<vector<double>> o; for (auto& x : v) { o.emplace_back(); for (auto& y : x->v) o.back().push_back(y->d); } a = o; return a; }
                if (t == 'l') { vector<vector<long int>> o; for (auto& x : v) { o.emplace_back(); for (auto& y : x->v) o.back().push_back(y->l); } a = o; return a; }
                if (t == 's') { vector<vector<string>> o; for (auto& x : v) { o.emplace_back(); for (auto& y : x->v) o.back().push_back(y->s); } a = o; return a; }
                vector<vector<bool>> o; for (auto& x : v) { o.emplace_back(); for (auto& y : x->v) o.back().push_back(y->b); } a = o; return a;
            }
        }
    }
    if (!v.empty() && all(v, is('M'))) { vector<AnyMap> o; for (auto& x : v) o.push_back(toMap(x, h)); a = o; return a; }
    vector<AnyValue> o;
    for (auto& x : v) o.push_back(toValue(x, h));
    a = o;
    return a;
}
static AnyMap toMap(const RP& r, How h) {
    AnyMap m;
    for (auto& [k, x] : r->m) m[k] = toValue(x, h);
    return m;
}

// ---------------------------------------------------------------- histories
struct Op { string name; int kind, i, j; string k, k2; int p; };
struct World { AnyMap m[2]; RP r[2]; };
static vector<RP> pool;
static const char* types[] = {"double", "int", "string", "bool", "map", "vector<double>", "vector<int>", "vector<string>", "vector<map>", "vector<any>", "matrix"};

// lookup of m[k] as a type; returns whether it succeeds and the value's text
static bool fetch(const AnyMap& m, const string& k, int t, string& out) {
    const AnyValue& a = m.at(k);
    switch (t) {
    case 0: out = num(a.asDouble()); break;
    case 1: out = std::to_string(a.asInt()); break;
    case 2: out = q(a.asString()); break;
    case 3: out = a.asBool() ? "true" : "false"; break;
    case 4: out = text(get(a.as<AnyMap>()), true); break;
    case 5: { out = "["; for (auto x : a.asVector<double>()) out += num(x) + ","; out += "]"; break; }
    case 6: { out = "["; for (auto x : a.asVector<long int>()) out += num((double) x) + ","; out += "]"; break; }
    case 7: { out = "["; for (auto& x : a.asVector<string>()) out += q(x) + ","; out += "]"; break; }
    case 8: { out = "["; for (auto& x : a.asVector<AnyMap>()) out += text(get(x), true) + ","; out += "]"; break; }
    case 9: { out = "["; for (auto& x : a.asVector<AnyValue>()) out += text(get(x), true) + ","; out += "]"; break; }
    case 10: { out = "["; for (auto& u : a.asVector<vector<double>>()) { out += "["; for (auto x : u) out += num(x) + ","; out += "],"; } out += "]"; break; }
    }
    return true;
}
// reference: 1 must succeed with out, 0 must throw, -1 either (documented conversions)
static int expect(const RP& r, int t, string& out, RP& after) {
    after = r;
    auto allT = [&](const char* ts) { return all(r->v, [&](const RP& x) { return strchr(ts, x->t) != nullptr; }); };
    switch (t) {
    case 0: if (r->t == 'd') { out = num(r->d); return 1; } if (r->t == 'l') { out = num((double) r->l); after = rd((double) r->l); return 1; } return 0;
    case 1: if (r->t == 'l') { out = std::to_string(r->l); return 1; } return 0;
    case 2: if (r->t == 's') { out = q(r->s); return 1; }
        if (r->t == 'l' || r->t == 'd') { string s = r->t == 'l' ? std::to_string(r->l) : fmt::format("{}", r->d); out = q(s); after = rs(s); return 1; } return 0;
    case 3: if (r->t == 'b') { out = r->b ? "true" : "false"; return 1; } return 0;
    case 4: if (r->t == 'M') { out = text(r, true); return 1; } return 0;
    case 5: case 6: case 7:
        if (r->t != 'L') return 0;
        if (t == 5 && allT("dl")) { out = text(r, true); return r->v.empty() ? -1 : 1; }
        if (t == 6 && allT("l")) { out = text(r, true); return -1; }
        if (t == 7 && allT("s")) { out = text(r, true); return -1; }
        if (t == 6 && allT("dl")) return -1;
        return r->v.empty() ? -1 : 0;
    case 8: if (r->t == 'M') { out = "[" + text(r, true) + ",]"; after = rL({r}); return 1; }
        if (r->t == 'L' && allT("M")) { out = text(r, true); return 1; } return 0;
    case 9: if (r->t != 'L') return 0; out = text(r, true); return allT("dls") ? 1 : -1;
    default:
        if (r->t != 'L') return 0;
        if (all(r->v, [](const RP& x) { return x->t == 'L' && all(x->v, [](const RP& y) { return y->t == 'd' || y->t == 'l'; }); })) { out = text(r, true); return -1; }
        return 0;
    }
}
static string hist;
static void compare(World& w, const string& op) {
    for (int i = 0; i < 2; i++) {
        string a = text(get(w.m[i]), true), b = text(w.r[i], true);
        nEval++;
        if (a != b) violation("hist:" + op, hist + ": map " + std::to_string(i) + " is " + a + ", expected " + b);
        if (w.m[i].size() != w.r[i]->m.size()) violation("hist:size:" + op, hist + ": size " + std::to_string(w.m[i].size()));
        if (w.m[i].empty() != w.r[i]->m.empty()) violation("hist:empty:" + op, hist + ": empty()");
        if (states.size() < 2000000) states.insert(std::hash<string>()(a + (i ? "1" : "0")));
    }
    try {
        bool e = w.m[0] == w.m[1], f = w.m[1] == w.m[0], n = w.m[0] != w.m[1];
        bool ref = text(w.r[0], true) == text(w.r[1], true);
        if (e != ref || f != ref || n == ref) violation("hist:eq:" + op, hist + ": comparison of the maps gives " + std::to_string(e) + std::to_string(f) + ", expected " + std::to_string(ref) + " " + text(w.r[0], true) + " " + text(w.r[1], true));
    } catch (std::exception& e) {
        violation("hist:eqthrow:" + op, hist + ": comparison throws " + string(e.what()).substr(0, 200) + " " + text(w.r[0], true) + " " + text(w.r[1], true));
    }
}
static void apply(World& w, const Op& o) {
    AnyMap& m = w.m[o.i];
    auto& r = w.r[o.i]->m;
    bool threw = false;
    string err;
    auto tryit = [&](const std::function<void()>& f) { try { f(); } catch (CanteraError& e) { threw = true; err = e.what(); } catch (std::exception& e) { threw = true; err = e.what(); violation("hist:exc:" + o.name, hist + ": not a Cantera error: " + err); } };
    auto must = [&](bool t) { if (threw != t) violation("hist:throw:" + o.name, hist + (threw ? ": throws " + err.substr(0, 200) : ": does not throw") + " on " + text(w.r[o.i], true)); };
    switch (o.kind) {
    case 0: m[o.k] = toValue(pool[o.p], Natural); r[o.k] = clone(pool[o.p]); break;
    case 1: m.erase(o.k); r.erase(o.k); break;
    case 2: m.clear(); r.clear(); break;
    case 3: w.m[o.j] = w.m[o.i]; w.r[o.j] = clone(w.r[o.i]); break;
    case 4: {        // copy a value between maps
        bool has = r.count(o.k);
        tryit([&] { const AnyMap& c = m; AnyValue v = c[o.k]; w.m[o.j][o.k2] = v; });
        must(!has);
        if (has) { auto x = clone(r[o.k]); w.r[o.j]->m[o.k2] = x; }
        break;
    }
    case 5: {        // nested assignment through two keys
        bool absent = !r.count(o.k) || r[o.k]->t == 'v', ok = absent || r[o.k]->t == 'M';
        tryit([&] { m[o.k][o.k2] = toValue(pool[o.p], Natural); });
        must(!ok);
        if (ok) { if (absent) r[o.k] = mk('M'); r[o.k]->m[o.k2] = clone(pool[o.p]); }
        break;
    }
    case 6: {        // lookup
        string out, exp;
        bool has = r.count(o.k);
        RP after;
        int e = has ? expect(r[o.k], o.p, exp, after) : 0;
        tryit([&] { fetch(m, o.k, o.p, out); });
        if (e >= 0) must(e == 0);
        if (!threw && e != 0 && out != exp && !exp.empty()) violation("hist:value:" + o.name, hist + ": returns " + out + ", expected " + exp);
        if (!threw && has) r[o.k] = after;
        break;
    }
    case 7: {        // lookups with defaults
        bool has = r.count(o.k);
        string out, exp;
        RP after;
        if (o.p > 3) break;
        tryit([&] {
            if (o.p == 0) out = num(m.getDouble(o.k, 7.5)); else if (o.p == 1) out = std::to_string(m.getInt(o.k, 7));
            else if (o.p == 2) out = q(m.getString(o.k, "dflt")); else out = m.getBool(o.k, true) ? "true" : "false"; });
        static const char* dflt[] = {"7.5", "7", "\"dflt\"", "true"};
        int e = has ? expect(r[o.k], o.p, exp, after) : 1;
        if (!has) exp = dflt[o.p];
        must(e == 0);
        if (!threw && out != exp) violation("hist:default:" + o.name, hist + ": returns " + out + ", expected " + exp);
        if (!threw && has) r[o.k] = after;
        break;
    }
    case 8:          // update
        tryit([&] { w.m[o.j].update(w.m[o.i], o.p); });
        must(false);
        if (o.i != o.j) for (auto& [k, x] : r) if (!o.p || !w.r[o.j]->m.count(k)) w.r[o.j]->m[k] = clone(x);
        break;
    case 9: {        // map of a list
        bool has = r.count(o.k) && r[o.k]->t != 'v';
        string out, exp;
        vector<RP> l;
        if (has && r[o.k]->t == 'M') l = {r[o.k]}; else if (has && r[o.k]->t == 'L') l = r[o.k]->v;
        bool ok = false;
        for (auto& x : l) if (x->t == 'M' && x->m.count("q") && x->m["q"]->t == 's' && x->m["q"]->s == o.k2) { ok = true; exp = text(x, true); break; }
        bool isList = has && (r[o.k]->t == 'M' || (r[o.k]->t == 'L' && !l.empty() && all(l, [](const RP& x) { return x->t == 'M'; })));
        if (o.p == 0) {
            tryit([&] { const AnyMap& c = m; out = text(get(c.at(o.k).getMapWhere("q", o.k2)), true); });
            must(!ok);
            if (!threw && out != exp) violation("hist:mapwhere:" + o.name, hist + ": returns " + out + ", expected " + exp);
            bool h = false;
            bool t0 = threw;
            threw = false;
            tryit([&] { const AnyMap& c = m; if (c.hasKey(o.k)) h = c.at(o.k).hasMapWhere("q", o.k2); });
            if (threw || h != ok) violation("hist:hasmapwhere", hist + ": hasMapWhere gives " + std::to_string(h));
            threw = t0;
        } else {
            tryit([&] { out = text(get(m[o.k].getMapWhere("q", o.k2, true)), true); });
            must(!(isList || !has));
            if (!threw && !ok) {
                auto c = rM({{"q", rs(o.k2)}});
                exp = text(c, true);
                if (!has) r[o.k] = c;
                else if (r[o.k]->t == 'M') r[o.k] = rL({r[o.k], c});
                else r[o.k]->v.push_back(c);
            }
            if (!threw && out != exp) violation("hist:mapwhere-create:" + o.name, hist + ": returns " + out + ", expected " + exp);
        }
        break;
    }
    case 10: {       // constructed copies are independent
        AnyMap c(m);
        AnyValue v;
        v = m;
        AnyValue v2(v);
        c[o.k] = string("changed");
        v2[o.k] = string("changed");
        string a = text(get(v.as<AnyMap>()), true), b = text(w.r[o.i], true);
        if (a != b) violation("hist:copy", hist + ": a copy changed with its copy: " + a + ", expected " + b);
        break;
    }
    case 11:         // store a map in itself (by value)
        m[o.k] = AnyMap(w.m[o.j]);
        { auto x = clone(w.r[o.j]); r[o.k] = x; }
        break;
    case 12: {       // presence
        bool h = m.hasKey(o.k), ks = m.keys().count(o.k);
        if (h != (bool) r.count(o.k) || ks != (bool) r.count(o.k)) violation("hist:haskey", hist + ": hasKey gives " + std::to_string(h));
        break;
    }
    case 14:         // mention a key
        m[o.k];
        if (!r.count(o.k)) r[o.k] = mk('v');
        break;
    case 13: {       // pass through YAML
        tryit([&] { AnyMap n = AnyMap::fromYamlString(m.toYamlString()); m = n; });
        bool empties = false;
        std::function<void(const RP&)> scan = [&](const RP& x) { if (x->t == 'v') empties = true; for (auto& [k, y] : x->m) scan(y); for (auto& y : x->v) scan(y); };
        scan(w.r[o.i]);
        if (!empties) must(false);
        if (threw) { m = toMap(w.r[o.i], Natural); }
        break;
    }
    }
    nTrans++;
    compare(w, o.name);
}
static vector<Op> ops;
static void explore(World& w, int depth, int part, int of, bool top) {
    int n = 0;
    for (auto& o : ops) {
        if (top && (n++ % of) != part) continue;
        World c;
        for (int i = 0; i < 2; i++) { c.m[i] = w.m[i]; c.r[i] = clone(w.r[i]); }
        size_t len = hist.size();
        hist += o.name + "; ";
        apply(c, o);
        if (depth > 1) explore(c, depth - 1, part, of, false);
        hist.resize(len);
    }
}
static void history(int depth, int part, int of, bool all) {
    pool = {rl(3), rd(2.5), rs("x"), rb(true), rL({rd(1), rd(2.5)}), rL({rl(1), rl(2)}), rL({rs("u"), rs("v")}), rL({rl(1), rs("w")}), rM({{"p", rl(1)}, {"q", rs("z")}}),
            rL({rM({{"p", rl(1)}, {"q", rs("z")}}), rM({{"p", rl(2)}, {"q", rs("y")}})}), rL({rL({rl(1), rl(2)}), rL({rl(3), rl(4)})}), rL({rL({rd(1), rd(2)}), rL({rd(3), rd(4)})}), rs("2.5"), rL({rd(1), rd(2)}), rs("3"),
            rL({rb(true), rb(false)}), rL({rL({rs("u")})}), rL({rL({rl(1)}), rL({rl(3), rl(4)})}), rL({rL({rd(1), rd(2)}), rL({rd(3)})}), rL({rL({rd(1)}), rL({rd(3), rd(4)})})};
    int np = all ? (int) pool.size() : 12;
    for (int i = 0; i < 2; i++) {
        string M = i ? "n" : "m";
        for (string k : {"a", "b"}) {
            if (i == 1 && k == "b") continue;
            for (int p = 0; p < np; p++) if (all || i == 0 || p % 3 == 0 || p == 11 || p == 10) ops.push_back({M + "[" + k + "]=" + text(pool[p], false), 0, i, 0, k, "", p});
            ops.push_back({M + ".erase(" + k + ")", 1, i, 0, k, "", 0});
            if (i == 0 && k == "a") for (int t = 0; t < 11; t++) ops.push_back({M + "." + k + " as " + types[t], 6, i, 0, k, "", t});
            if (i == 0 && k == "a") for (int t = 0; t < 4; t++) ops.push_back({M + "." + k + " default " + types[t], 7, i, 0, k, "", t});
            if (i == 0) for (int p : {0, 8}) ops.push_back({M + "[" + k + "][p]=" + text(pool[p], false), 5, i, 0, k, "p", p});
            if (i == 0 && k == "a") for (int p : {0, 1}) for (string v : {"z", "new"}) ops.push_back({M + "." + k + (p ? " create where q=" : " where q=") + v, 9, i, 0, k, v, p});
            ops.push_back({M + " has " + k, 12, i, 0, k, "", 0});
        }
        ops.push_back({M + ".clear", 2, i, 0, "", "", 0});
        ops.push_back({M + "=>other", 3, i, 1 - i, "", "", 0});
        ops.push_back({M + " copies", 10, i, 0, "a", "", 0});
        ops.push_back({M + " through yaml", 13, i, 0, "", "", 0});
        ops.push_back({M + "[a]->other[b]", 4, i, 1 - i, "a", "b", 0});
        for (int p : {0, 1}) ops.push_back({"other.update(" + M + "," + (p ? "keep" : "replace") + ")", 8, i, 1 - i, "", "", p});
    }
    ops.push_back({"m[a];", 14, 0, 0, "a", "", 0});
    ops.push_back({"n[a];", 14, 1, 0, "a", "", 0});
    ops.push_back({"m=>m", 3, 0, 0, "", "", 0});
    ops.push_back({"m[a]->m[b]", 4, 0, 0, "a", "b", 0});
    ops.push_back({"m[b]=m", 11, 0, 0, "b", "", 0});
    ops.push_back({"m[a]=n", 11, 0, 1, "a", "", 0});
    ops.push_back({"m.update(m)", 8, 0, 0, "", "", 0});
    World w;
    w.r[0] = mk('M');
    w.r[1] = mk('M');
    explore(w, depth, part, of, true);
    nState = states.size();
}

// ---------------------------------------------------------------- round trips
static RP strip(const RP& r) { return r; }
static bool hasMultiWs(const RP& r) {
    if (r->t == 's') { auto& s = r->s; return s.find('\n') != string::npos && (strchr("\n\t ", s.front()) || strchr("\n\t ", s.back())); }
    for (auto& [k, x] : r->m) if (hasMultiWs(x)) return true;
    for (auto& x : r->v) if (hasMultiWs(x)) return true;
    return false;
}
static bool nearly(const RP& a, const RP& b, double tol) {
    if (a->t == 'd' && b->t == 'd') return a->d == b->d || (std::isnan(a->d) && std::isnan(b->d)) || std::abs(a->d - b->d) <= tol * std::abs(a->d);
    if (a->t == 's' && b->t == 's' && a->s.find('\n') != string::npos) {
        // surrounding white space of strings of several lines: see the set "lines"
        auto trim = [](const string& s) { size_t l = s.find_first_not_of("\n\t "), h = s.find_last_not_of("\n\t "); return l == string::npos ? string() : s.substr(l, h - l + 1); };
        return trim(a->s) == trim(b->s);
    }
    if (a->t != b->t || a->m.size() != b->m.size() || a->v.size() != b->v.size()) return false;
    if (a->t == 'M') { auto j = b->m.begin(); for (auto& [k, x] : a->m) { if (k != j->first || !nearly(x, j->second, tol)) return false; ++j; } return true; }
    if (a->t == 'L') { for (size_t i = 0; i < a->v.size(); i++) { auto x = a->v[i], y = b->v[i]; if (x->t == 'l' && y->t == 'd') x = rd((double) x->l); if (!nearly(x, y, tol)) return false; } return true; }
    return text(a, false) == text(b, false);
}
static void rt(const RP& r, const string& key, How h, bool flow) {
    nEval++;
    nTrans++;
    string y;
    try {
        AnyMap m = toMap(r, h);
        if (flow) { m.setFlowStyle(); }
        y = m.toYamlString();
        RP before = get(m);
        AnyMap n = AnyMap::fromYamlString(y);
        RP got = get(n), want = clone(r);
        unify(got);
        unify(want);
        if (!nearly(want, got, 1e-14)) violation(key, "wrote " + text(r, false) + (flow ? " (flow)" : "") + ", read " + text(got, false) + " from '" + y.substr(0, 200) + "'");
        string y2;
        AnyMap k(n);
        y2 = k.toYamlString();
        AnyMap n2 = AnyMap::fromYamlString(y2);
        if (text(get(n2), false) != text(get(n), false)) violation(key + ":again", "second round trip of " + text(r, false) + " differs: '" + y + "' '" + y2 + "'");
        if (text(get(m), false) != text(before, false)) violation(key + ":source", "writing changed " + text(before, false));
        if (!(n == n2)) { bool nan = y.find(".nan") != string::npos; if (!nan) violation(key + ":eq", "equal content compares different for " + text(r, false)); }
    } catch (std::exception& e) {
        violation(key + ":throw", text(r, false) + (flow ? " (flow)" : "") + ": " + string(e.what()).substr(0, 300) + " for '" + y.substr(0, 200) + "'");
    }
}
static vector<string> strs() {
    return {"", "x", " ", "1", "1.0", "-3", "+4", "1e5", "1e+05", "0x10", "0o7", "1_000", "12:30:45", "1d3", "1.", ".5", ".", "-", "+", "e5", "true", "false", "True", "FALSE", "TRUE", "yes", "no", "NO", "on", "off", "Y", "n", "null", "Null", "NULL", "~",
            ".inf", "-.inf", ".nan", ".NaN", "inf", "nan", "NaN", "a: b", "a:b", ":", "a:", ": b", "#x", "a #b", "a#b", "'q'", "\"dq\"", "it's", "\\", "\\n", "a\\tb", "a\tb", "\t", "[1, 2]", "{a: b}", "[", "]", "{", "}", ",", "a, b", "a,b", "*x", "&x", "!x", "!!str 1", "%x", "@x", "`x",
            "|", ">", "?", "? a", "- a", "-a", "---", "...", "2 K", "1.5 J/kmol", " lead", "trail ", "a  b", "\xC3\xA9", "\xCE\xBB=3", "line1\nline2", "line1\n\nline3", "a\n  indented\nb", "# c\n- d", "a: 1\nb: 2", "O2(S)", "H2O+", "(+M)", "2 H2 + O2 => 2 H2O", "=", "<=", "==>",
            "0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
            "\x01", "a\rb", "\n", "a\n", "\na", " a\nb ", "a\n ", "\xE2\x80\xA8", "\x7f", "\xC2\x85", "1 # 2", "'", "\"", "''", "\"\"", "<<", "__x", "name", "units", "1,5", "1e", "1e+", "1e5.", "1.2.3", "-.5", "- .5", "--1", "+.inf", "+.nan", "0b1", "2024-01-01", "1e400", "-1e400", "1e-400", "99999999999999999999", "-0", "007"};
}
static vector<double> dbls() {
    return {0., -0., 1., -1., 2., 0.1, 1. / 3., 2. / 3., 1e300, 1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e4, 9999.999999999998, 12345.678901234567, 0.01, 0.0099999999999999985, 1e15, 1e16, 1e17, 123456789012345680., 3.14159265358979,
            1e100, 1e99, -2.5e-100, 1e22, 8.31446261815324, 6.02214076e26, 100., 1e5, 0.5, 999999999999999.9, 0.30000000000000004, INFINITY, -INFINITY, NAN};
}
static vector<long> lngs() { return {0, 1, -1, 7, 2147483647L, 2147483648L, -2147483649L, 9007199254740993L, LONG_MAX, LONG_MIN}; }
static void roundtrip(const string& set, int part, int of) {
    vector<RP> sc;
    for (auto& s : strs()) sc.push_back(rs(s));
    for (double d : dbls()) sc.push_back(rd(d));
    for (long l : lngs()) sc.push_back(rl(l));
    sc.push_back(rb(true));
    sc.push_back(rb(false));
    vector<RP> small = {rs("x"), rs(""), rs("1"), rs("true"), rs("a: b"), rs("l1\nl2"), rs("~"), rs("- a"), rs(".nan"), rs("#c"), rd(1.), rd(0.1), rd(1e300), rd(NAN), rd(-INFINITY), rl(3), rl(LONG_MIN), rb(true), rb(false)};
    vector<RP> tiny = {rs("x"), rs("1"), rs("a: b"), rd(2.), rl(3), rb(false), rs("l1\nl2")};
    long n = 0;
    auto mine = [&] { return n++ % of == part; };
    auto K = [&](const string& shape, const RP& r) { return "rt:" + shape + ":" + text(r, false).substr(0, 60); };
    auto both = [&](const RP& r, const string& key) {
        rt(r, key, Natural, false);
        rt(r, key + ":flow", Natural, true);
        rt(r, key + ":any", Any, false);
    };
    if (set == "lines") {
        for (string a : {"l1\nl2", "l1\nl2\n", "l1\nl2\n\n", "\nl1\nl2\n", " l1\nl2\n", "l1\nl2 \n", "l1\n", "l1\r\nl2\n"}) if (mine()) {
            nEval++;
            AnyMap m;
            m["k"] = a;
            string got = AnyMap::fromYamlString(m.toYamlString())["k"].asString();
            if (got != a) violation("rt:lines:" + q(a), q(a) + " is read as " + q(got));
        }
    } else if (set == "scalars") {
        for (auto& a : sc) if (mine()) {
            both(rM({{"k", a}}), K("value", a));
            both(rM({{"k", rL({a})}}), K("list1", a));
            both(rM({{"k", rL({a, a, a})}}), K("list3", a));
            both(rM({{"k", rL({rL({a})})}}), K("mat1", a));
            both(rM({{"k", rL({rL({a, a}), rL({a, a})})}}), K("mat2", a));
            both(rM({{"k", rL({rL({a}), rL({a, a})})}}), K("ragged", a));
            both(rM({{"k", rM({{"p", a}, {"r", rs("t")}})}}), K("map", a));
            both(rM({{"k", rL({rM({{"p", a}}), rM({{"r", a}, {"s", rl(1)}})})}}), K("maps", a));
            both(rM({{"k", rL({rL({rM({{"p", a}})})})}}), K("listlistmap", a));
            both(rM({{"k", rM({{"l", rL({a, rM({{"p", a}})})}})}}), K("mixedlist", a));
            both(rM({{"k", rL({rL({rL({a})})})}}), K("cube", a));
            both(rM({{"k", rL({rL({a}), rL({})})}}), K("matempty", a));
            vector<RP> lots(40, a);
            both(rM({{"k", rL(lots)}}), K("list40", a));
            map<string, RP> mm;
            for (int i = 0; i < 25; i++) mm["key" + std::to_string(i)] = a;
            both(rM({{"k", rM(mm)}}), K("map25", a));
            both(rM(mm), K("top25", a));
            if (a->t == 's' && a->s.substr(0, 2) != "__" && a->s != "units") {
                both(rM({{a->s, rl(1)}}), K("key", a));
                both(rM({{a->s, rM({{a->s, rs("v")}})}, {"z", rl(2)}}), K("keykey", a));
                both(rM({{"k", rL({rM({{a->s, rl(1)}}), rM({{a->s, rd(2)}})})}}), K("keylist", a));
            }
            nState++;
        }
    } else if (set == "pairs") {
        for (auto& a : sc) for (auto& b : sc) if (mine()) {
            both(rM({{"k", rL({a, b})}}), "rt:pair:" + text(a, false).substr(0, 30) + ":" + text(b, false).substr(0, 30));
            if (of <= 8) continue;
            both(rM({{"k", a}, {"l", b}}), "rt:pairmap:" + text(a, false).substr(0, 30) + ":" + text(b, false).substr(0, 30));
        }
        nState = n / of;
    } else {             // shapes: all nestings of containers to a depth over small scalars
        vector<std::function<RP(RP)>> C = {
            [](RP a) { return rL({a}); }, [](RP a) { return rL({a, a}); }, [](RP a) { return rM({{"p", a}}); }, [](RP a) { return rM({{"p", a}, {"r", rs("t")}}); }, [](RP a) { return rL({a, rs("t")}); }, [](RP a) { return rL({rl(1), a}); },
            [](RP a) { return rL({rM({{"n", rs("1")}}), a}); }, [](RP a) { return rL({a, rL({rd(1.5)})}); }, [](RP a) { return rM({{"p", rL({rd(1), rd(2)})}, {"r", a}}); }, [](RP a) { return rL({rL({}), a}); }};
        int depth = set == "shapes4" ? 4 : 3;
        vector<pair<string, RP>> cur;
        for (auto& a : (depth == 4 ? tiny : small)) cur.push_back({text(a, false), a});
        for (auto& c : {rL({}), rM({})}) cur.push_back({text(c, false), c});
        for (int d = 1; d <= depth; d++) {
            vector<pair<string, RP>> nxt;
            for (auto& [t, a] : cur) for (size_t i = 0; i < C.size(); i++) nxt.push_back({t + "/" + std::to_string(i), C[i](a)});
            for (auto& [t, a] : nxt) if (mine()) { both(rM({{"k", a}}), "rt:shape:" + t); }
            cur = std::move(nxt);
        }
        nState = n / of;
    }
}

// ---------------------------------------------------------------- numbers at a requested precision
static void numbers(int prec) {
    vector<double> v;
    for (int e = -320; e <= 308; e += (std::abs(e) <= 20 ? 1 : 23))
        for (int mant : {100, 101, 199, 250, 333, 500, 501, 667, 899, 900, 989, 990, 995, 998, 999}) {
            double x = mant * std::pow(10., e - 2);
            if (!std::isfinite(x) || x == 0) continue;
            double t[] = {x, std::nextafter(x, INFINITY), std::nextafter(x, 0.), x * (1 + 3e-15), x * (1 - 3e-15), x * (1 + 4.999e-14), x * (1 - 5.001e-13), x / 3, x / 7, x * (1 + 1.234567890123e-6), -x, x * (1 + 5 * std::pow(10., -prec)), x * (1 + 0.5 * std::pow(10., -prec))};
            for (double y : t) if (std::isfinite(y)) v.push_back(y);
        }
    for (long i = 1; i < 20000; i++) { v.push_back(i / 1000.); v.push_back(i * 0.1); }
    auto check = [&](const string& where, double x, double y) {
        nEval++;
        double tol = std::max(5.5 * std::pow(10., -prec), 1e-16);
        double lim = tol * std::abs(x) + (std::abs(x) < 1e-300 ? 1e-320 : 0);
        if (!(std::abs(x - y) <= lim)) violation("num:" + where + ":" + std::to_string(prec), num(x) + " written with precision " + std::to_string(prec) + " is read as " + num(y));
    };
    AnyMap m;
    m["v"] = v;
    vector<vector<double>> mat{v, v};
    m["mat"] = mat;
    vector<AnyValue> any;
    for (size_t i = 0; i < v.size(); i += 7) any.push_back(AnyValue(v[i]));
    m["any"] = any;
    vector<AnyMap> maps;
    for (size_t i = 0; i < v.size(); i += 11) { AnyMap c; c["x"] = v[i]; if (i % 2) c.setFlowStyle(); maps.push_back(c); }
    m["maps"] = maps;
    m.setMetadata("precision", AnyValue(prec));
    string y = m.toYamlString();
    AnyMap n = AnyMap::fromYamlString(y);
    auto& w = n["v"].asVector<double>(v.size());
    auto& wm = n["mat"].asVector<vector<double>>(2);
    auto& wa = n["any"].asVector<double>(any.size());
    auto& wp = n["maps"].asVector<AnyMap>(maps.size());
    for (size_t i = 0; i < v.size(); i++) { check("vector", v[i], w[i]); check("matrix", v[i], wm[1][i]); nTrans++; }
    for (size_t i = 0; i < any.size(); i++) check("list", any[i].asDouble(), wa[i]);
    for (size_t i = 0; i < maps.size(); i++) check("map", maps[i]["x"].asDouble(), wp[i]["x"].asDouble());
    n.setMetadata("precision", AnyValue(prec));
    if (AnyMap::fromYamlString(n.toYamlString()) != n) violation("num:again:" + std::to_string(prec), "writing the numbers again with the same precision changes them");
    nState = v.size();
}

int main(int argc, char** argv) {
    string mode = argv[1];
    if (mode == "hist") history(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]), argc > 5);
    else if (mode == "rt") roundtrip(argv[2], atoi(argv[3]), atoi(argv[4]));
    else numbers(atoi(argv[2]));
    std::cout << "N\t" << nEval << "\t" << nTrans << "\t" << nState << "\t" << nViol << "\n";
}
