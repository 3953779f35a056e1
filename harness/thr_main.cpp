// thr_main SCENARIO DIR BOUND MAXRUNS: all schedules of a scenario up to a preemption bound, each in a forked process
#include "mcsched.h"
#include "cantera/core.h"
#include "cantera/base/AnyMap.h"
#include "cantera/base/global.h"
#include "cantera/base/Interface.h"
#include "cantera/base/SolutionArray.h"
#include "cantera/base/YamlWriter.h"
#include "cantera/equil/MultiPhase.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/kinetics/ReactionRateFactory.h"
#include "cantera/kinetics/ReactionPath.h"
#include "cantera/numerics/Func1Factory.h"
#include "cantera/numerics/SystemJacobianFactory.h"
#include "cantera/oneD/Sim1D.h"
#include "cantera/oneD/Flow1D.h"
#include "cantera/oneD/Boundary1D.h"
#include "cantera/oneD/DomainFactory.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/thermo/Species.h"
#include "cantera/transport/TransportFactory.h"
#include "cantera/zerodim.h"
#include "cantera/zeroD/ReactorSurface.h"
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

using namespace Cantera;
using namespace std;

extern "C" const char* __tsan_default_options()
{
    return "exitcode=66:halt_on_error=1:report_signal_unsafe=0:report_thread_leaks=0:history_size=3:io_sync=0:detect_deadlocks=0:report_destroy_locked=0";
}

static string DIR;

struct Out {
    ostringstream s;
    Out() { s.precision(14); }
    template<class X> Out& operator<<(const X& x) { s << x << ' '; return *this; }
};

static string gasYaml(double A)
{
    ostringstream o;
    o << R"(
phases:
- {name: gas, thermo: ideal-gas, species: [A2, B], kinetics: gas, transport: mixture-averaged, state: {T: 900, P: 1 atm, X: {A2: 1, B: 2}}}
- {name: bare, thermo: ideal-gas, species: [A2, B], state: {T: 700, P: 1 atm}}
- {name: surf, thermo: ideal-surface, adjacent-phases: [gas], site-density: 2.7e-09, species: [S], kinetics: surface, reactions: [sr], state: {T: 900, P: 1 atm, coverages: {S: 1}}}
species:
- name: A2
  composition: {H: 2}
  thermo: {model: NASA7, temperature-ranges: [200, 1000, 3500], data: [[2.34433112, 0.00798052075, -1.9478151e-05, 2.01572094e-08, -7.37611761e-12, -917.935173, 0.683010238], [3.3372792, -4.94024731e-05, 4.99456778e-07, -1.79566394e-10, 2.00255376e-14, -950.158922, -3.20502331]]}
  transport: {model: gas, geometry: linear, well-depth: 38, diameter: 2.92, polarizability: 0.79, rotational-relaxation: 280}
- name: B
  composition: {H: 1}
  thermo: {model: constant-cp, T0: 298.15 K, h0: 2.18e+05 J/mol, s0: 114 J/mol/K, cp0: 20.8 J/mol/K}
  transport: {model: gas, geometry: atom, well-depth: 145, diameter: 2.05}
- {name: S, composition: {}, thermo: {model: constant-cp}}
reactions:
- {equation: 2 B + M <=> A2 + M, type: three-body, rate-constant: {A: )" << A << R"(, b: -1, Ea: 0}, efficiencies: {A2: 2}}
- {equation: A2 + B <=> B + A2, rate-constant: {A: 1e5, b: 1, Ea: 3000 K}}
sr:
- {equation: A2 + 2 S <=> 2 S + A2, rate-constant: {A: 1e10, b: 0, Ea: 0}}
)";
    return o.str();
}

static void put(const string& name, const string& text)
{
    string tmp = DIR + "/" + name + ".tmp" + to_string((long) pthread_self());
    FILE* f = fopen(tmp.c_str(), "w");
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
    rename(tmp.c_str(), (DIR + "/" + name).c_str());
}

static void show(Out& o, Solution& s)
{
    auto th = s.thermo();
    th->setState_TPX(1200, 2e5, "A2:1, B:0.5");
    o << th->cp_mass() << th->entropy_mole() << th->density();
    if (s.kinetics() && s.kinetics()->nReactions()) {
        vector<double> w(s.kinetics()->nTotalSpecies());
        s.kinetics()->getNetProductionRates(w.data());
        for (double x : w) o << x;
    }
    if (s.transport() && s.transport()->transportModel() != "none") {
        o << s.transport()->viscosity() << s.transport()->thermalConductivity();
    }
}

static string create(const string& file, const string& phase = "gas", const string& tr = "default")
{
    Out o;
    auto s = newSolution(DIR + "/" + file, phase, tr);
    mc_yield();
    show(o, *s);
    return o.s.str();
}

static string guarded(function<string()> f)
{
    try {
        return f();
    } catch (CanteraError& e) {
        return string("error ") + e.getMessage();
    } catch (exception& e) {
        return string("exception ") + e.what();
    }
}

typedef function<string()> Body;
struct Scenario { vector<Body> bodies; };

static string reactor(const string& type)
{
    Out o;
    auto s = newSolution(DIR + "/gas.yaml", "gas", "none");
    s->thermo()->setState_TPX(1500, 1e5, "A2:1, B:0.5");
    auto r = newReactor(type, s);
    auto rv = newReactor("Reservoir", s);
    auto m = newConnectorNode("MassFlowController", rv, r);
    ReactorNet n;
    n.addReactor(dynamic_cast<Reactor&>(*r));
    n.advance(1e-4);
    mc_yield();
    n.advance(2e-4);
    o << r->temperature() << r->pressure() << s->thermo()->moleFraction(1);
    return o.s.str();
}

static string equil(const string& solver)
{
    Out o;
    auto s = newSolution(DIR + "/gas.yaml", "bare", "none");
    s->thermo()->setState_TPX(2500, 1e5, "A2:1, B:0.5");
    s->thermo()->equilibrate("TP", solver);
    mc_yield();
    s->thermo()->equilibrate("HP", solver);
    o << s->thermo()->temperature() << s->thermo()->moleFraction(1);
    return o.s.str();
}

static string funcs(int k)
{
    Out o;
    auto a = newFunc1("sin", 2.0 + k);
    mc_yield();
    auto b = newFunc1("sum", a, newFunc1("exp", 0.5));
    auto c = newFunc1("periodic", b, 0.3);
    o << b->eval(0.7) << c->eval(1.7) << b->derivative()->eval(0.3) << b->write("x");
    return o.s.str();
}

static string rates(int k)
{
    Out o;
    vector<string> y = {
        "{equation: A + B <=> C, rate-constant: {A: 2.0e+10, b: 1.5, Ea: 3000}}",
        "{equation: A + B (+M) <=> C (+M), type: falloff, low-P-rate-constant: {A: 1e10, b: 1, Ea: 0}, high-P-rate-constant: {A: 1e9, b: 0, Ea: 100}, Troe: {A: 0.5, T3: 100, T1: 1000}}",
        "{equation: A + B <=> C, type: pressure-dependent-Arrhenius, rate-constants: [{P: 1e4, A: 1e10, b: 0, Ea: 100}, {P: 1e6, A: 1e12, b: 0.3, Ea: 200}]}",
        "{equation: A + B <=> C, type: Chebyshev, temperature-range: [300, 2000], pressure-range: [1e3, 1e7], data: [[8.2, -1.2], [0.3, 0.2]]}",
        "{equation: A + B <=> C, type: Blowers-Masel, rate-constant: {A: 3.87e+04, b: 2.7, Ea0: 6260.0, w: 1e9}}"};
    for (size_t i = 0; i < y.size(); i++) {
        auto node = AnyMap::fromYamlString(y[(i + k) % y.size()]);
        auto r = newReactionRate(node);
        mc_yield();
        o << r->type() << r->eval(900, 2e5);
        try {
            AnyMap p = r->parameters();
            o << p.toYamlString();
        } catch (CanteraError&) {
        }
    }
    return o.s.str();
}

static string phaseOf(const string& file, const string& name, double T, double P)
{
    Out o;
    auto s = newSolution(file, name, "none");
    mc_yield();
    auto t = s->thermo();
    t->setState_TP(T, P);
    o << t->type() << t->density() << t->enthalpy_mole() << t->cp_mole() << t->gibbs_mole();
    return o.s.str();
}

static string message(int k)
{
    Out o;
    for (int i = 0; i < 2; i++) {
        try {
            mc_yield();
            throw CanteraError("proc" + to_string(k), "text {} {}", k, i);
        } catch (CanteraError& e) {
            o << e.getMessage() << e.getMethod();
        }
        warn_user("proc", "warning {} {}", k, i);
        try {
            warn_deprecated("source" + to_string(k), "warning");
        } catch (CanteraError& e) {
            o << e.what();
        }
        writelog("message {} {}\n", k, i);
    }
    return o.s.str();
}

static string yamlOut(int k)
{
    Out o;
    auto s = newSolution(DIR + "/gas.yaml", "gas", "none");
    YamlWriter w;
    w.addPhase(s);
    mc_yield();
    string t = w.toYamlString();
    size_t i = t.find("date:");
    if (i != string::npos) {
        size_t j = t.find("\n", i);
        t.erase(i, j - i);
    }
    AnyMap m = AnyMap::fromYamlString(t);
    AnyMap::addOrderingRules("o" + to_string(k), {{"head", "z"}, {"tail", "a"}});
    AnyMap q;
    q["__type__"] = "o" + to_string(k);
    q["a"] = 1;
    q["b"] = 2;
    q["z"] = 3;
    o << m["species"].asVector<AnyMap>().size() << q.toYamlString() << t.size();
    return o.s.str();
}

static string arrays(int k)
{
    Out o;
    auto s = newSolution(DIR + "/gas.yaml", "gas", "none");
    auto a = SolutionArray::create(s, 3, AnyMap());
    for (int i = 0; i < 3; i++) {
        s->thermo()->setState_TP(500 + 100 * i, 1e5);
        a->setLoc(i);
        vector<double> st(s->thermo()->stateSize());
        s->thermo()->saveState(st);
        a->setState(i, st);
    }
    mc_yield();
    string f = DIR + "/arr" + to_string(k) + ".csv";
    a->save(f, "", "", "", true, 0, "mole");
    ifstream in(f);
    string all((istreambuf_iterator<char>(in)), istreambuf_iterator<char>());
    o << all << a->info({});
    return o.s.str();
}

static string domains(int k)
{
    Out o;
    auto s = newSolution(DIR + "/gas.yaml", "gas", "mixture-averaged");
    s->thermo()->setState_TPX(500, 1e5, "A2:1, B:0.01");
    auto flow = newDomain<Flow1D>(k ? "free-flow" : "axisymmetric-flow", s, "flow");
    auto in = newDomain<Inlet1D>("inlet", s, "in");
    auto out = newDomain<Outlet1D>("outlet", s, "out");
    vector<double> z = {0, 0.01, 0.02};
    flow->setupGrid(3, z.data());
    flow->setPressure(1e5);
    mc_yield();
    vector<shared_ptr<Domain1D>> d{in, flow, out};
    in->setMdot(0.1);
    in->setTemperature(500);
    in->setMoleFractions("A2:1");
    Sim1D sim(d);
    sim.setProfile(1, 2, {0, 1}, {500, 600});
    sim.getInitialSoln();
    o << sim.value(1, 2, 1) << flow->transportModel() << flow->nComponents();
    return o.s.str();
}

static string transports(int k)
{
    Out o;
    for (string m : {"multicomponent", "mixture-averaged", "unity-Lewis-number", "high-pressure", "mixture-averaged-CK"}) {
        if (k && m[0] == 'h') {
            continue;
        }
        if (m == "high-pressure") {
            continue;
        }
        auto s = newSolution(DIR + "/gas.yaml", "gas", m);
        mc_yield();
        show(o, *s);
        vector<double> d(2);
        s->transport()->getMixDiffCoeffs(d.data());
        o << d[0] << d[1];
    }
    return o.s.str();
}

static string surface(int)
{
    Out o;
    auto s = newInterface(DIR + "/gas.yaml", "surf");
    mc_yield();
    vector<double> w(s->kinetics()->nTotalSpecies());
    s->kinetics()->getFwdRatesOfProgress(w.data());
    o << w[0] << s->thermo()->nSpecies();
    return o.s.str();
}

static string jacobians(int)
{
    Out o;
    for (string n : {"Adaptive", "banded-direct", "eigen-sparse-direct"}) {
        auto j = newSystemJacobian(n);
        mc_yield();
        o << j->type();
    }
    return o.s.str();
}

static string mixture(int)
{
    Out o;
    auto s = newSolution(DIR + "/gas.yaml", "bare", "none");
    s->thermo()->setState_TPX(2500, 1e5, "A2:1, B:0.5");
    MultiPhase m;
    m.addPhase(s->thermo().get(), 2);
    m.init();
    mc_yield();
    m.equilibrate("TP", "vcs");
    o << m.speciesMoles(0) << m.speciesMoles(1);
    return o.s.str();
}

static string paths(int)
{
    Out o;
    auto s = newSolution(DIR + "/gas.yaml", "gas", "none");
    s->thermo()->setState_TPX(1500, 1e5, "A2:1, B:0.5");
    auto d = newReactionPathDiagram(s->kinetics(), "H");
    mc_yield();
    d->build();
    o << d->getDot() << d->getData();
    return o.s.str();
}

static map<string, function<Scenario()>> table()
{
    map<string, function<Scenario()>> t;
    auto two = [](Body a, Body b) { return Scenario{{a, b}}; };
    t["create-same"] = [=] { return two([] { return create("gas.yaml"); }, [] { return create("gas.yaml"); }); };
    t["create-other"] = [=] { return two([] { return create("gas.yaml"); }, [] { return create("gas2.yaml", "bare", "none"); }); };
    t["create-late"] = [=] { create("gas.yaml"); return two([] { return create("gas.yaml"); }, [] { return create("gas2.yaml"); }); };
    t["create-three"] = [=] { create("gas.yaml"); return Scenario{{[] { return create("gas.yaml"); }, [] { return create("gas.yaml", "bare", "none"); }, [] { return create("gas2.yaml"); }}}; };
    t["create-destroy"] = [=] {
        return two([] { string a; for (int i = 0; i < 2; i++) { a += create("gas.yaml", "bare", "none"); } return a; }, [] { return create("gas.yaml", "bare", "none"); });
    };
    t["clear-cache"] = [=] {
        create("gas.yaml");
        return two([] { string a = create("gas.yaml", "bare", "none"); AnyMap::clearCachedFile(DIR + "/gas.yaml"); return a + create("gas.yaml", "bare", "none"); },
                   [] { string a = create("gas.yaml", "bare", "none"); AnyMap::clearCachedFile(DIR + "/gas.yaml"); return a + create("gas2.yaml", "bare", "none"); });
    };
    t["rewrite"] = [=] {
        put("own.yaml", gasYaml(1e10));
        create("own.yaml");
        return two([] { put("own.yaml", gasYaml(5e11)); string a = create("own.yaml", "gas", "none"); put("own.yaml", gasYaml(7e11)); return a + create("own.yaml", "gas", "none"); },
                   [] { return create("gas.yaml", "gas", "none"); });
    };
    t["rewrite-shared"] = [=] {
        put("own.yaml", gasYaml(1e10));
        return two([] { string a = create("own.yaml", "gas", "none"); put("own.yaml", gasYaml(5e11)); mc_yield(); return a + create("own.yaml", "gas", "none"); },
                   [] { create("own.yaml", "gas", "none"); return create("gas2.yaml", "gas", "none"); });
    };
    t["reactors"] = [=] { return two([] { return reactor("IdealGasReactor"); }, [] { return reactor("IdealGasConstPressureMoleReactor"); }); };
    t["equilibrium"] = [=] { return two([] { return equil("element_potential"); }, [] { return equil("vcs"); }); };
    t["equilibrium2"] = [=] { return two([] { return equil("gibbs"); }, [] { return mixture(0); }); };
    t["functions"] = [=] { return two([] { return funcs(0); }, [] { return funcs(1); }); };
    t["rates"] = [=] { return two([] { return rates(0); }, [] { return rates(2); }); };
    t["messages"] = [=] { return two([] { return message(0); }, [] { return message(1); }); };
    t["serialize"] = [=] { return two([] { return yamlOut(0); }, [] { return yamlOut(1); }); };
    t["arrays"] = [=] { return two([] { return arrays(0); }, [] { return arrays(1); }); };
    t["domains"] = [=] { return two([] { return domains(0); }, [] { return domains(1); }); };
    t["transport"] = [=] { return two([] { return transports(0); }, [] { return transports(1); }); };
    t["surface"] = [=] { return two([] { return surface(0); }, [] { return surface(1); }); };
    t["jacobians"] = [=] { return two([] { return jacobians(0); }, [] { return funcs(1); }); };
    t["paths"] = [=] { return two([] { return paths(0); }, [] { return paths(1); }); };
    t["factories"] = [=] { return two([] { return jacobians(0) + funcs(0); }, [] { return reactor("Reactor"); }); };
    t["directories"] = [=] {
        return two([] { addDirectory(DIR + "/sub"); return create("gas.yaml", "bare", "none") + findInputFile("only.yaml"); },
                   [] { addDirectory(DIR); return phaseOf("gas2.yaml", "bare", 500, 1e5); });
    };
    t["errors"] = [=] {
        return two([] { return guarded([] { return create("absent.yaml"); }) + guarded([] { return create("gas.yaml", "nophase"); }); },
                   [] { return guarded([] { return create("bad.yaml"); }) + create("gas.yaml", "bare", "none"); });
    };
    // phase models: file:phase pairs from the repository's data
    struct P { const char* name; const char* f; const char* p; double T, P; };
    for (P q : {P{"water", "liquidvapor.yaml", "liquid-water-IAPWS95", 320, 1e5}, P{"purewater", "liquidvapor.yaml", "water", 350, 1e5},
                P{"co2", "liquidvapor.yaml", "carbon-dioxide", 300, 1e6}, P{"hmw", "HMW_NaCl.yaml", "", 320, 1e5},
                P{"rk", "co2_RK_example.yaml", "", 320, 1e6}, P{"pr", "co2_PR_example.yaml", "", 320, 1e6}, P{"debye", "debye-huckel-all.yaml", "debye-huckel-dilute-IAPWS", 310, 1e5}}) {
        t[string("model-") + q.name] = [=] { return two([=] { return phaseOf(q.f, q.p, q.T, q.P); }, [=] { return phaseOf(q.f, q.p, q.T + 5, q.P); }); };
    }
    return t;
}

static string childOut(int fd)
{
    string s;
    char b[4096];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) {
        s.append(b, n);
    }
    close(fd);
    return s;
}

struct Run { int status; string out, err; vector<McPoint> pts; vector<string> res; };

static Run spawn(const string& name, const vector<int>& dec, int alone)
{
    int po[2], pe[2];
    (void) !pipe(po);
    string errf = DIR + "/err";
    pid_t pid = fork();
    if (pid == 0) {
        close(po[0]);
        int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(e, 2);
        dup2(e, 1);
        alarm(120);
        Scenario sc = table()[name]();
        vector<string> res(sc.bodies.size());
        string o;
        if (alone >= 0) {
            res[alone] = guarded(sc.bodies[alone]);
            o = "R" + to_string(alone) + "\n" + to_string(res[alone].size()) + "\n" + res[alone];
        } else {
            vector<function<void()>> f;
            for (size_t i = 0; i < sc.bodies.size(); i++) {
                f.push_back([&, i] { res[i] = guarded(sc.bodies[i]); });
            }
            McResult r = mc_run(f, dec);
            o = "P" + to_string(r.status) + " " + to_string(r.points.size()) + "\n";
            for (auto& p : r.points) {
                o += to_string(p.chosen) + " " + to_string(p.enabled) + " " + to_string(p.preempt) + "\n";
            }
            if (r.status == 0) {
                for (size_t i = 0; i < res.size(); i++) {
                    o += to_string(res[i].size()) + "\n" + res[i] + "\n";
                }
            }
        }
        size_t k = 0;
        while (k < o.size()) {
            ssize_t n = write(po[1], o.data() + k, o.size() - k);
            if (n <= 0) {
                break;
            }
            k += n;
        }
        _exit(0);
    }
    close(po[1]);
    (void) pe;
    Run r;
    r.out = childOut(po[0]);
    waitpid(pid, &r.status, 0);
    ifstream in(errf);
    r.err = string((istreambuf_iterator<char>(in)), istreambuf_iterator<char>());
    istringstream is(r.out);
    string line;
    if (r.status == 0 && alone >= 0) {
        getline(is, line);
        getline(is, line);
        size_t n = stoul(line);
        string v(n, 0);
        is.read(&v[0], n);
        r.res.push_back(v);
    } else if (r.status == 0) {
        char c;
        int st;
        size_t n;
        is >> c >> st >> n;
        if (st) {
            r.status = -1;
        }
        for (size_t i = 0; i < n; i++) {
            McPoint p;
            int pr;
            is >> p.chosen >> p.enabled >> pr;
            p.preempt = pr;
            r.pts.push_back(p);
        }
        if (!st) {
            size_t len;
            while (is >> len) {
                is.get();
                string v(len, 0);
                is.read(&v[0], len);
                r.res.push_back(v);
            }
        }
    }
    return r;
}

static string clean(string s, size_t n)
{
    for (char& c : s) {
        if (c == '\n') c = '|';
    }
    return s.substr(0, n);
}

int main(int argc, char** argv)
{
    string name = argv[1];
    if (name == "list") {
        for (auto& [k, v] : table()) {
            cout << k << "\n";
        }
        return 0;
    }
    DIR = argv[2];
    int bound = stoi(argv[3]);
    long maxruns = stol(argv[4]);
    int shard = argc > 5 ? stoi(argv[5]) : 0, shards = argc > 6 ? stoi(argv[6]) : 1;
    (void) !system(("mkdir -p " + DIR + "/sub").c_str());
    put("gas.yaml", gasYaml(2e10));
    put("gas2.yaml", gasYaml(3e10));
    put("sub/only.yaml", gasYaml(3e10));
    put("bad.yaml", "phases:\n- {name: gas, thermo: ideal-gas, species: [A2, Q]}\nspecies: [{name: A2}]\n");
    size_t nb = 0;
    vector<string> want;
    {
        // number of bodies from a run without preemption
        Run r = spawn(name, {}, -1);
        if (r.status == 0) {
            nb = r.res.size();
        } else {
            nb = name == "create-three" ? 3 : 2;
        }
    }
    for (size_t i = 0; i < nb; i++) {
        Run r = spawn(name, {}, i);
        if (r.status) {
            cout << "ALONE " << i << " " << r.status << " " << clean(r.err, 3000) << "\n";
            return 1;
        }
        want.push_back(r.res[0]);
    }
    struct Item { vector<int> dec; int cost; };
    vector<Item> stack{{{}, 0}};
    long runs = 0, points = 0, viol = 0;
    size_t maxp = 0;
    bool cut = false;
    while (!stack.empty()) {
        Item it = stack.back();
        stack.pop_back();
        if (runs >= maxruns) {
            cut = true;
            break;
        }
        Run r = spawn(name, it.dec, -1);
        runs++;
        points += r.pts.size();
        maxp = max(maxp, r.pts.size());
        string ds;
        for (int d : it.dec) ds += to_string(d);
        if (r.status != 0) {
            int code = r.status == -1 ? -1 : WIFEXITED(r.status) ? WEXITSTATUS(r.status) : 1000 + WTERMSIG(r.status);
            cout << "BAD " << code << " " << it.dec.size() << " " << ds << " " << clean(r.err, 60000) << "\n";
            if (++viol >= 3) {
                break;
            }
            if (r.pts.empty()) {
                continue;
            }
        } else {
            for (size_t i = 0; i < nb; i++) {
                if (r.res[i] != want[i]) {
                    cout << "DIFF " << i << " " << ds << " " << clean(r.res[i], 1500) << " /// " << clean(want[i], 1500) << "\n";
                    viol++;
                }
            }
            if (viol >= 3) {
                break;
            }
        }
        // cost of the prefix
        int cost = 0;
        int prev = -1;
        for (size_t i = 0; i < r.pts.size(); i++) {
            auto& p = r.pts[i];
            // the default continues the running thread when it is enabled
            if (i >= it.dec.size()) {
                for (int a = 0; a < 8; a++) {
                    if ((p.enabled >> a & 1) && a != p.chosen) {
                        int c = cost + (p.preempt ? 1 : 0);
                        if (c > bound) {
                            continue;
                        }
                        if (it.dec.empty() && (int) (i % shards) != shard) {
                            continue;
                        }
                        vector<int> d;
                        for (size_t j = 0; j < i; j++) d.push_back(r.pts[j].chosen);
                        d.push_back(a);
                        stack.push_back({d, c});
                    }
                }
            } else if (i + 1 == it.dec.size()) {
                cost = it.cost;
            }
            (void) prev;
        }
    }
    cout << "DONE " << runs << " " << points << " " << maxp << " " << cut << " " << nb << "\n";
    return 0;
}
