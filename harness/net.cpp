// Builds reactor networks from one-line specifications and evaluates the governing equations (C20, C22).
#include "cantera/core.h"
#include "cantera/zerodim.h"
#include "cantera/zeroD/ReactorFactory.h"
#include "cantera/zeroD/ConnectorFactory.h"
#include "cantera/numerics/Func1Factory.h"
#include "cantera/base/Interface.h"
#include <iostream>
using namespace Cantera;

static string num(double x) { return std::isnan(x) ? "\"nan\"" : std::isinf(x) ? (x > 0 ? "\"inf\"" : "\"-inf\"") : fmt::format("{:.17g}", x); }
static string arr(const vector<double>& v) { string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + num(v[i]); return s + "]"; }
static string esc(const string& s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c >= 32) o += c; } return o; }

struct Net {
    map<string, vector<shared_ptr<Solution>>> pool;
    map<string, size_t> used;
    shared_ptr<Solution> sol(const string& file, const string& ph, shared_ptr<Solution> gas = nullptr) {
        string key = file + "/" + ph + (gas ? fmt::format("@{}", (void*)gas.get()) : "");
        auto& v = pool[key];
        size_t& u = used[key];
        if (u == v.size()) {
            if (gas) v.push_back(newInterface(file, ph, vector<shared_ptr<Solution>>{gas}));
            else v.push_back(newSolution(file, ph, "none"));
        }
        return v[u++];
    }
};

static Net NET;

static shared_ptr<Func1> func(const AnyValue& v, vector<shared_ptr<Func1>>& keep) {
    // [a, b]: a + b*t
    auto c = v.asVector<double>();
    auto f = newFunc1("polynomial3", vector<double>{c[1], c[0]});
    keep.push_back(f);
    return f;
}

// a device between two reservoirs is never evaluated
static double flow(FlowDevice& d) { try { return d.massFlowRate(); } catch (CanteraError&) { return NAN; } }

static string run(const AnyMap& s) {
    NET.used.clear();
    if (s.hasKey("fresh")) NET.pool.clear();
    vector<shared_ptr<Solution>> sols;
    vector<shared_ptr<ReactorBase>> nodes;
    vector<shared_ptr<Func1>> keep;
    vector<unique_ptr<ReactorSurface>> surfs;
    vector<shared_ptr<Kinetics>> skin;
    vector<shared_ptr<WallBase>> walls;
    vector<shared_ptr<FlowDevice>> devs;
    vector<pair<char, size_t>> conns;
    auto& nd = s["nodes"].asVector<AnyMap>();
    for (size_t i = 0; i < nd.size(); i++) {
        auto& n = nd[i];
        shared_ptr<Solution> so;
        long share = n.getInt("share", -1);
        if (share >= 0) so = sols[share];
        else so = NET.sol(n["file"].asString(), n["phase"].asString());
        sols.push_back(so);
        so->thermo()->setState_TPX(n["T"].asDouble(), n["P"].asDouble(), n["X"].asString());
        auto r = newReactor(n["type"].asString(), so, n.hasKey("name") ? n["name"].asString() : fmt::format("r{}", i));
        r->setInitialVolume(n["V"].asDouble());
        if (auto rr = std::dynamic_pointer_cast<Reactor>(r)) {
            rr->setChemistry(n.getBool("chem", true));
            rr->setEnergy(n.getBool("energy", true) ? 1 : 0);
        }
        if (n.hasKey("mult")) for (auto& m : n["mult"].asMap<double>()) so->kinetics()->setMultiplier(std::stoul(m.first), m.second);
        if (n.hasKey("dh")) for (auto& m : n["dh"].asMap<double>()) so->thermo()->modifyOneHf298SS(std::stoul(m.first), m.second + so->thermo()->Hf298SS(std::stoul(m.first)));
        nodes.push_back(r);
    }
    if (s.hasKey("surf")) {
        for (auto& q : s["surf"].asVector<AnyMap>()) {
            size_t i = q["node"].asInt();
            // an interface whose adjacent phase is the reactor's own phase object
            auto si = NET.sol(q["file"].asString(), q["phase"].asString(), sols[i]);
            auto S = make_unique<ReactorSurface>();
            S->setKinetics(si->kinetics().get());
            S->setArea(q["area"].asDouble());
            nodes[i]->addSurface(S.get());
            S->setCoverages(q["cov"].asString());
            if (q.hasKey("mult")) for (auto& m : q["mult"].asMap<double>()) si->kinetics()->setMultiplier(std::stoul(m.first), m.second);
            skin.push_back(si->kinetics());
            surfs.push_back(std::move(S));
        }
    }
    if (s.hasKey("conns")) {
        for (auto& c : s["conns"].asVector<AnyMap>()) {
            auto a = nodes[c["a"].asInt()], b = nodes[c["b"].asInt()];
            string k = c["kind"].asString();
            if (k == "Wall") {
                auto w = newWall("Wall", a, b);
                w->setArea(c.getDouble("A", 1.0));
                auto ww = dynamic_cast<Wall*>(w.get());
                if (c.hasKey("K")) ww->setExpansionRateCoeff(c["K"].asDouble());
                if (c.hasKey("U")) ww->setHeatTransferCoeff(c["U"].asDouble());
                if (c.hasKey("eps")) ww->setEmissivity(c["eps"].asDouble());
                if (c.hasKey("v")) ww->setVelocity(func(c["v"], keep).get());
                if (c.hasKey("q")) ww->setHeatFlux(func(c["q"], keep).get());
                conns.push_back({'w', walls.size()});
                walls.push_back(w);
            } else {
                auto d = newFlowDevice(k, a, b);
                double K = c["K"].asDouble();
                if (auto m = dynamic_cast<MassFlowController*>(d.get())) m->setMassFlowCoeff(K);
                else if (auto m = dynamic_cast<Valve*>(d.get())) m->setValveCoeff(K);
                else if (auto m = dynamic_cast<PressureController*>(d.get())) m->setPressureCoeff(K);
                devs.push_back(d);
                if (c.hasKey("tf")) d->setTimeFunction(func(c["tf"], keep).get());
                if (c.hasKey("pf")) d->setPressureFunction(func(c["pf"], keep).get());
                if (k == "PressureController") dynamic_cast<PressureController*>(d.get())->setPrimary(devs[c["primary"].asInt()].get());
                conns.push_back({'f', devs.size() - 1});
            }
        }
    }
    ReactorNet net;
    vector<Reactor*> rs;
    for (auto& n : nodes) {
        if (auto r = dynamic_cast<Reactor*>(n.get())) { net.addReactor(*r); rs.push_back(r); }
    }
    net.setInitialTime(s.getDouble("t", 0.0));
    if (s.hasKey("sens")) {
        for (auto& q : s["sens"].asVector<AnyMap>()) {
            if (q.hasKey("surf")) surfs[q["surf"].asInt()]->addSensitivityReaction(q["rxn"].asInt());
            else {
                auto r = dynamic_cast<Reactor*>(nodes[q["node"].asInt()].get());
                if (q.hasKey("rxn")) r->addSensitivityReaction(q["rxn"].asInt());
                else r->addSensitivitySpeciesEnthalpy(q["species"].asInt());
            }
        }
    }
    net.initialize();
    size_t n = net.neq();
    vector<double> y(n), y2(n), yd(n), yd2(n), p(std::max<size_t>(1, net.nparams()), 1.0);
    if (s.hasKey("sens")) for (size_t i = 0; i < net.nparams(); i++) p[i] = s["sens"].asVector<AnyMap>()[i].hasKey("species") ? 0.0 : 1.0;
    string out = "{";
    double t = s.getDouble("t", 0.0);
    net.getState(y.data());
    auto report = [&](const string& tag, vector<double>& yy) {
        vector<double> d(n);
        net.eval(t, yy.data(), d.data(), p.data());
        out += "\"" + tag + "\":{\"y\":" + arr(yy) + ",\"yd\":" + arr(d);
        vector<double> back(n);
        net.getState(back.data());
        out += ",\"back\":" + arr(back) + ",\"nodes\":[";
        for (size_t i = 0; i < nodes.size(); i++) {
            auto& r = *nodes[i];
            auto& th = *sols[i]->thermo();
            r.restoreState();
            vector<double> Y(th.nSpecies());
            th.getMassFractions(Y.data());
            out += fmt::format("{}{{\"T\":{},\"P\":{},\"rho\":{},\"V\":{},\"m\":{},\"h\":{},\"Y\":{}}}", i ? "," : "", num(th.temperature()), num(th.pressure()), num(th.density()), num(r.volume()), num(r.mass()), num(r.enthalpy_mass()), arr(Y));
        }
        out += "],\"conns\":[";
        for (size_t i = 0; i < conns.size(); i++) {
            auto [k, j] = conns[i];
            if (k == 'w') out += fmt::format("{}[{},{}]", i ? "," : "", num(walls[j]->expansionRate()), num(walls[j]->heatRate()));
            else out += fmt::format("{}[{}]", i ? "," : "", num(flow(*devs[j])));
        }
        out += "],\"surf\":[";
        for (size_t i = 0; i < surfs.size(); i++) {
            vector<double> c(surfs[i]->thermo()->nSpecies());
            surfs[i]->getCoverages(c.data());
            out += (i ? "," : "") + arr(c);
        }
        out += "]}";
        return d;
    };
    auto d1 = report("first", y);
    // another state: hotter, larger, lighter (specific energies kept)
    y2 = y;
    bool mass = false;
    string pre;
    for (size_t i = 0; i < n; i++) {
        string nm = net.componentName(i);
        if (nm.substr(0, nm.find(':')) != pre) { pre = nm.substr(0, nm.find(':')); mass = false; }
        if (nm.find("temperature") != npos) y2[i] *= 1.03;
        else if (nm.find("volume") != npos) y2[i] *= 1.2;
        else if (nm.find(": mass") != npos) { y2[i] *= 0.9; mass = true; }
        else if ((nm.find(": int_energy") != npos || nm.find(": enthalpy") != npos) && mass) y2[i] *= 0.9;
    }
    out += ",";
    report("second", y2);
    net.updateState(y.data());
    net.eval(t, y.data(), yd2.data(), p.data());
    out += ",\"again\":" + arr(yd2) + ",\"names\":[";
    for (size_t i = 0; i < n; i++) out += (i ? ",\"" : "\"") + esc(net.componentName(i)) + "\"";
    out += "],\"start\":[";
    bool f = true;
    for (size_t i = 0, j = 0; i < nodes.size(); i++) {
        if (auto r = dynamic_cast<Reactor*>(nodes[i].get())) { out += fmt::format("{}{}", f ? "" : ",", j); j += r->neq(); }
        else out += fmt::format("{}-1", f ? "" : ",");
        f = false;
    }
    out += "],\"comp\":[";
    f = true;
    for (size_t i = 0; i < nodes.size(); i++) {
        auto r = dynamic_cast<Reactor*>(nodes[i].get());
        out += f ? "[" : ",[";
        f = false;
        if (r) for (size_t k = 0; k < r->neq(); k++) {
            string nm = r->componentName(k);
            size_t ix = r->componentIndex(nm);
            out += fmt::format("{}[\"{}\",{}]", k ? "," : "", esc(nm), ix == npos ? -1 : long(ix));
        }
        out += "]";
    }
    out += "]";
    if (s.hasKey("sens")) {
        out += ",\"params\":[";
        for (size_t j = 0; j < net.nparams(); j++) {
            double def = s["sens"].asVector<AnyMap>()[j].hasKey("species") ? 0.0 : 1.0;
            p.assign(net.nparams(), 0.0);
            for (size_t i = 0; i < p.size(); i++) p[i] = s["sens"].asVector<AnyMap>()[i].hasKey("species") ? 0.0 : 1.0;
            p[j] = def ? 1.3 : 2e6;
            net.eval(t, y.data(), yd.data(), p.data());
            out += (j ? "," : "") + string("{\"name\":\"") + esc(net.sensitivityParameterName(j)) + "\",\"yd\":" + arr(yd) + "}";
        }
        out += "],\"after\":[";
        for (size_t i = 0; i < nodes.size(); i++) {
            auto k = sols[i]->kinetics();
            vector<double> m;
            for (size_t q = 0; k && q < k->nReactions(); q++) m.push_back(k->multiplier(q));
            for (size_t q = 0; q < sols[i]->thermo()->nSpecies(); q++) m.push_back(sols[i]->thermo()->Hf298SS(q));
            out += (i ? "," : "") + arr(m);
        }
        for (auto& k : skin) {
            vector<double> m;
            for (size_t q = 0; q < k->nReactions(); q++) m.push_back(k->multiplier(q));
            out += "," + arr(m);
        }
        out += "]";
    }
    out += "}";
    return out;
}

int main(int argc, char** argv) {
    suppress_deprecation_warnings();
    suppress_thermo_warnings();
    for (int i = 1; i < argc; i++) addDirectory(argv[i]);
    string line;
    while (std::getline(std::cin, line)) {
        string r;
        try { r = run(AnyMap::fromYamlString(line)); }
        catch (std::exception& e) { r = "{\"error\":\"" + esc(e.what()) + "\"}"; }
        std::cout << r << "\n" << std::flush;
    }
}
