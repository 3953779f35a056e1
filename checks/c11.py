"""C11: analytical derivatives of rate constants, rates of progress and production rates."""
import itertools, math
import numpy as np
import kinpool, models, refkin, c10
import cantera as ct

PROPERTY, LEVEL = 'C11', 'exploration'
BUILD = ['py']
TECHNIQUE = 'exhaustive enumeration of reaction types x states x derivative settings x multipliers and of all ordered pairs of derivative requests on the real code, against derivatives of an independent rate-of-progress model'
LEVEL_NOTE = 'Every derivative quantity is compared for every reaction of every mechanism at every lattice state under every combination of the settings; request histories are all ordered pairs of requests.'
RULE = ('mechanisms: all rate types generated by C10, every small stoichiometry incl. fractional and non-reactant orders, and the shipped mechanisms; settings: all combinations; '
        'expected value: differentiation of rates of progress built from the standalone rate objects, the stoichiometry and third-body efficiencies of the reactions; non-trivial = a non-zero derivative')
ASSUMPTIONS = ['standalone rate objects evaluate correctly (C10)', 'tolerance 1e-5 for derivatives the library obtains by a finite difference, 1e-8 otherwise', 'ideal-gas phases (the library refuses others)']
BOUNDS = {'quick': '20 mechanisms, 4-6 states, 8 settings, all pairs of requests on 3 mechanisms', 'thorough': 'more states and larger stoichiometry sets, pairs on all mechanisms'}
R = ct.gas_constant

GEN = ['Arrhenius', 'three-body', 'falloff', 'chemically-activated', 'plog', 'chebyshev', 'blowers', 'two-temp', 'linear-Burke']
ORD = """
- {equation: 'O + H2 => H + OH', duplicate: true, rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}, orders: {O: 0.5, H2: 1.5}}
- {equation: 'O + H2 => H + OH', duplicate: true, rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}, orders: {O: 2}}
- {equation: 'O + H2 => H + OH', duplicate: true, rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}, orders: {O: 0}}
- {equation: 'O + H2 => H + OH', duplicate: true, nonreactant-orders: true, rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}, orders: {AR: 0.7, O: 1}}
- {equation: 'O + H2 => H + OH', duplicate: true, nonreactant-orders: true, rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}, orders: {AR: 1, H2O: 2, O: 1, H2: 1}}
- {equation: 'O + H2 => H + OH', duplicate: true, negative-orders: true, rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}, orders: {O: -0.5}}
- {equation: '1.5 O2 <=> 3 O', rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}}
- {equation: '0.5 O2 + H2 <=> H2O', rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}}
- {equation: '2 H2O2 <=> 2 H2O + O2', rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}}
- {equation: '2 OH + H2 <=> 2 H2O', rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}}
- {equation: '3 H2 + O2 + O <=> 3 H2O', rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}}
- {equation: '4 OH <=> 2 H2O2', rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}}
- {equation: 'H + O + H2O <=> OH + H2O', rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}}
- {equation: 'H + OH + M => H2O + M', type: three-body, rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}, orders: {H: 0.5, OH: 1.2}, efficiencies: {H2O: 5}}
- {equation: '0.5 H2O2 + M <=> OH + M', type: three-body, rate-constant: {A: 1.0e+6, b: 1.0, Ea: 1.0e+7}, efficiencies: {H2O: 5, OH: 0, H2O2: 2}}
"""


def make(task):
    if 'gen' in task:
        ent = c10.entries(task['gen'], c10.U('si'), False)
        if task['gen'] == 'two-temp':
            pass
        g = ct.Solution(yaml=c10.gas_text(c10.U('si'), [e[0] for e in ent]), transport_model=None)
        return g, ent
    if 'ord' in task:
        return ct.Solution(yaml=c10.gas_text(c10.U('si'), ['']) + ORD, transport_model=None), None
    if 'stoich' in task:
        import c09
        return None, None
    k = kinpool.BY[task['mech']]
    return k.make(), None


class Model:
    def __init__(self, g, ent):
        self.g, self.ent = g, ent
        self.ref = refkin.Ref(g, [g])
        self.rx = g.reactions()
        n = g.n_species
        self.n, self.m = n, len(self.rx)
        self.kind = []
        self.E = np.zeros((self.m, n))
        self.hasM = np.zeros(self.m, bool)
        self.ma = np.zeros(self.m, bool)
        for i, r in enumerate(self.rx):
            t = r.rate.type if r.rate else ''
            self.kind.append(t)
            tb = r.third_body
            if tb is not None and t != 'linear-Burke':
                self.hasM[i] = True
                self.ma[i] = t not in ('falloff', 'chemically-activated')
                self.E[i] = tb.default_efficiency
                for s, v in tb.efficiencies.items():
                    if s in g.species_names:
                        self.E[i, g.species_index(s)] = v
        self.rates = [r.rate for r in self.rx]
        self.g2 = None
        if 'linear-Burke' in self.kind and ent is None:
            self.g2 = ct.Solution(thermo='ideal-gas', kinetics='gas', species=g.species(), reactions=self.rx)
        self.order_r = np.where(self.ref.rev[:, None], self.ref.nu_p, 0.0)

    def k(self, i, T, P, M, X):
        t, r = self.kind[i], self.rates[i]
        if t in ('falloff', 'chemically-activated'):
            return r(T, M)
        if t in ('pressure-dependent-Arrhenius', 'Chebyshev'):
            return r(T, P)
        if t == 'linear-Burke':
            if self.ent:
                return self.ent[i][2](T, P, None, X, self.g)
            self.g2.TPX = T, P, X
            return self.g2.forward_rate_constants[i]
        if t == 'two-temperature-plasma':
            return r(T, self.g.T)
        if t == 'Blowers-Masel':
            return r.pre_exponential_factor * T ** r.temperature_exponent * math.exp(-r.activation_energy / (R * T))
        return r(T)

    def dk(self, i, T, P, M, X, var):
        """central differences with Richardson extrapolation."""
        def D(h):
            if var == 'T':
                return (self.k(i, T + h * T, P, M, X) - self.k(i, T - h * T, P, M, X)) / (2 * h * T)
            if var == 'P':
                return (self.k(i, T, P + h * P, M, X) - self.k(i, T, P - h * P, M, X)) / (2 * h * P)
            if M == 0:
                return 0.0
            return (self.k(i, T, P, M + h * M, X) - self.k(i, T, P, M - h * M, X)) / (2 * h * M)
        h = 2e-4
        a, b = D(h), D(h / 2)
        return (4 * b - a) / 3

    def setup(self, T, P, x, mult):
        g = self.g
        g.TPX = T, P, x
        for i in range(self.m):
            g.set_multiplier(mult[i], i)
        self.T, self.P, self.X, self.C = g.T, g.P, g.X.copy(), g.concentrations
        C = self.C
        self.ctot = C.sum()
        for i in range(self.m):
            if self.kind[i] == 'Blowers-Masel':
                h = g.partial_molar_enthalpies
                self.rates[i].delta_enthalpy = float(self.ref.nu[i] @ h)
        self.M = np.where(self.hasM, self.E @ C, 0.0)
        self.kf = np.array([self.k(i, T, P, self.M[i], self.X) for i in range(self.m)]) * mult
        self.kT = np.array([self.dk(i, T, P, self.M[i], self.X, 'T') for i in range(self.m)]) * mult
        self.kP = np.array([self.dk(i, T, P, self.M[i], self.X, 'P') for i in range(self.m)]) * mult
        self.kM = np.array([self.dk(i, T, P, self.M[i], self.X, 'M') if self.kind[i] in ('falloff', 'chemically-activated') else 0.0 for i in range(self.m)]) * mult
        K = []
        hs = [2e-4, 1e-4]
        for s in (0, hs[0], -hs[0], hs[1], -hs[1]):
            g.TP = T * (1 + s), P
            K.append(np.log(g.equilibrium_constants))
        g.TPX = T, P, x
        d = [(K[1] - K[2]) / (2 * hs[0] * T), (K[3] - K[4]) / (2 * hs[1] * T)]
        self.lnKT = np.where(self.ref.rev, (4 * d[1] - d[0]) / 3, 0.0)
        self.Kinv = np.where(self.ref.rev, np.exp(-K[0]), 0.0)
        self.mf = np.where(self.ma, self.M, 1.0)

    def prod(self, order):
        return refkin.prodpow(self.C, order)

    def dprod(self, order):
        """d prod C^order / dC_j, exact also where concentrations vanish (integer orders)."""
        out = np.zeros((self.m, self.n))
        C = self.C
        with np.errstate(all='ignore'):
            for j in range(self.n):
                nz = np.flatnonzero(order[:, j])
                for i in nz:
                    o = order[i].copy()
                    e = o[j]
                    o[j] = 0
                    p = np.prod([C[k] ** o[k] for k in np.flatnonzero(o)])
                    out[i, j] = p * e * (C[j] ** (e - 1) if e != 1 else 1.0)
        return out

    def expected(self, st):
        tb, fo = not st.get('skip-third-bodies', False), not st.get('skip-falloff', False)
        e = {}
        of, orv = self.ref.order_f, self.order_r
        d = {}
        for nm, o, kc in (('forward', of, np.ones(self.m)), ('reverse', orv, self.Kinv)):
            pr = self.prod(o)
            k = self.kf * kc
            rop = k * self.mf * pr
            q = {'rop': rop}
            q['ddT'] = self.kT * kc * self.mf * pr - (rop * self.lnKT if nm == 'reverse' else 0)
            q['ddP'] = self.kP * kc * self.mf * pr
            c = rop * o.sum(1) / self.ctot
            if tb:
                c = c + np.where(self.ma, rop / self.ctot, 0.0)
                if fo:
                    c = c + self.kM * kc * pr * self.M / self.ctot
            q['ddC'] = c
            J = (k * self.mf)[:, None] * self.dprod(o)
            if tb:
                J = J + np.where(self.ma, k * pr, 0.0)[:, None] * self.E
                if fo:
                    J = J + (self.kM * kc * pr)[:, None] * self.E
            q['ddCi'] = J
            q['ddX'] = J * self.ctot
            d[nm] = q
        e['forward_rate_constants_ddT'] = self.kT
        e['forward_rate_constants_ddP'] = self.kP
        e['forward_rate_constants_ddC'] = self.kM * self.M / self.ctot if tb and fo else np.zeros(self.m)
        for v in ('ddT', 'ddP', 'ddC', 'ddX', 'ddCi'):
            f, r = d['forward'][v], d['reverse'][v]
            e[f'forward_rates_of_progress_{v}'] = f
            e[f'reverse_rates_of_progress_{v}'] = r
            e[f'net_rates_of_progress_{v}'] = f - r
            a, b = self.ref.nu_r.T, self.ref.nu_p.T
            e[f'creation_rates_{v}'] = b @ f + a @ r
            e[f'destruction_rates_{v}'] = a @ f + b @ r
            e[f'net_production_rates_{v}'] = (b - a) @ (f - r)
        self.d = d
        return e

    def scales(self):
        """magnitudes against which absolute errors of finite differences are judged."""
        f, r = np.abs(self.d['forward']['rop']), np.abs(self.d['reverse']['rop'])
        return f + r


QUANT = ['forward_rate_constants_ddT', 'forward_rate_constants_ddP', 'forward_rate_constants_ddC'] + \
    [f'{a}_{v}' for a in ('forward_rates_of_progress', 'reverse_rates_of_progress', 'net_rates_of_progress', 'creation_rates', 'destruction_rates', 'net_production_rates') for v in ('ddT', 'ddP', 'ddC', 'ddX', 'ddCi')]
SETTINGS = [{}, {'skip-third-bodies': True}, {'skip-falloff': True}, {'skip-third-bodies': True, 'skip-falloff': True}]


def states(task):
    xs = {'mech': None}
    c = ['H2:2,H:0.1,O:0.05,O2:1,OH:0.1,H2O:0.3,HO2:0.05,H2O2:0.06,AR:1,N2:1', 'H2:0.1,H:0.02,O:0.3,O2:0.4,OH:0.2,H2O:2,HO2:0.01,H2O2:0.3,AR:0.2,N2:0.1']
    if 'gen' in task or 'ord' in task:
        return list(itertools.product([700., 1700.], [0.4 * c10.ATM, 23.1 * c10.ATM], c))
    k = kinpool.BY[task['mech']]
    return list(itertools.product(k.T, [p * 1.07 for p in k.P], kinpool.comps(k, k.make())))


def run_bulk(task, ctx):
    th = ctx.tier == 'thorough'
    g, ent = make(task)
    nm = task.get('gen') or task.get('mech') or 'orders'
    mod = Model(g, ent)
    burke = np.array([k == 'linear-Burke' for k in mod.kind])
    sts = states(task)
    heavy = mod.m > 60
    if heavy and not th:
        sts = sts[:4]
    mults = [np.ones(mod.m), 0.5 + 0.25 * (np.arange(mod.m) % 5)]
    mz = mults[1].copy()
    mz[::3] = 0.0
    mults.append(mz)
    for (T, P, x), (im, mult) in itertools.product(sts, enumerate(mults)):
        if heavy and im == 2:
            continue
        mod.setup(T, P, x, mult)
        for st in SETTINGS:
            for rd in (1e-8, 1e-6):
                if rd == 1e-6 and st:
                    continue
                g.derivative_settings = {}
                g.derivative_settings = {**st, 'rtol-delta': rd}
                got_st = g.derivative_settings
                ctx.eq(f'{nm}:settings', (got_st['skip-third-bodies'], got_st['skip-falloff'], got_st['rtol-delta']),
                       (st.get('skip-third-bodies', False), st.get('skip-falloff', False), rd), 'derivative settings read back')
                before = (g.T, g.P, g.density, g.forward_rates_of_progress, g.reverse_rates_of_progress, g.net_production_rates, g.forward_rate_constants)
                e = mod.expected(st)
                sc = mod.scales()
                ctx.close(f'{nm}:model', before[3], mod.d['forward']['rop'], rtol=1e-8, atol=1e-13 * abs(before[3]).max(), msg='reference rates of progress')
                for q in QUANT:
                    v = q.rsplit('_', 1)[1]
                    if burke.any() and v in ('ddC', 'ddX', 'ddCi'):
                        continue
                    try:
                        got = np.asarray(getattr(g, q))
                    except ct.CanteraError as err:
                        ctx.violation(f'{nm}:{q}:raises', f'{q}: {err}')
                        continue
                    ctx.ev(got.size)
                    ctx.trans()
                    want = e[q]
                    unit = {'ddT': 1 / T, 'ddP': 1 / P, 'ddC': 1 / mod.ctot, 'ddX': 1.0, 'ddCi': 1 / mod.ctot}[v]
                    if q.startswith('forward_rate_constants'):
                        scale = np.abs(mod.kf) * unit + (np.abs(mod.kT) if v == 'ddT' else 0)
                    else:
                        scale = sc * unit
                        if v == 'ddT':
                            # finite differences of the rate constant and of the equilibrium constant may cancel
                            with np.errstate(all='ignore'):
                                lk = np.where(mod.kf != 0, np.abs(mod.kT / mod.kf), 0)
                            scale = sc * (1 / T + lk + np.abs(mod.lnKT))
                        if 'progress' not in q:
                            scale = (mod.ref.nu_r + mod.ref.nu_p).T @ scale
                    if v in ('ddX', 'ddCi'):
                        # individual entries: also derivative magnitudes (concentrations may be tiny)
                        scale = np.maximum(scale[:, None], 0)
                    tol = (1e-5 if rd == 1e-8 else 1e-3) * np.abs(want) + (3e-6 if rd == 1e-8 else 1e-3) * scale
                    if v in ('ddX', 'ddCi'):
                        tol = tol + 1e-7 * np.abs(want).max(axis=1, keepdims=True)
                    bad = ~(np.abs(got - want) <= tol + 1e-300) & ~(~np.isfinite(want))
                    if bad.any():
                        i = tuple(int(t) for t in np.argwhere(bad)[0])
                        who = mod.rx[i[0]].equation if ('progress' in q or 'constants' in q) else g.species_name(i[0])
                        ctx.violation(f'{nm}:{q}', f'{q}[{i}] ({who}) at T={T} P={P} X={x} settings {st} rtol {rd} multipliers {im}: got {got[i]!r}, differentiation gives {want[i]!r}',
                                      dict(T=T, P=P, settings=st, mult=im))
                after = (g.T, g.P, g.density, g.forward_rates_of_progress, g.reverse_rates_of_progress, g.net_production_rates, g.forward_rate_constants)
                for a, b in zip(before, after):
                    ctx.close(f'{nm}:side-effect', b, a, rtol=1e-13, msg=f'rates or state changed by requesting derivatives at {T},{P},{x}')
                ctx.outcome((nm, T, P, str(x), im, str(st), rd))
    g.derivative_settings = {}
    for i in range(mod.m):
        g.set_multiplier(1.0, i)


def run_pairs(task, ctx):
    """every ordered pair of requests (derivative or rate), starting at a fresh state or at a warmed-up one."""
    g, ent = make(task)
    nm = task.get('gen') or task.get('mech') or 'orders'
    sts = states(task)
    Q = QUANT + ['forward_rates_of_progress', 'net_production_rates', 'equilibrium_constants', 'delta_gibbs', 'reverse_rate_constants', 'third_body_concentrations', 'heat_release_rate']
    for st in (SETTINGS if ctx.tier == 'thorough' else SETTINGS[:1]):
        g.derivative_settings = {}
        g.derivative_settings = st
        fresh = {}
        s0, s1 = sts[0], sts[-1]
        def goto(s):
            g.TPX = s
        for q in Q:
            goto(s1)
            goto(s0)
            fresh[q] = np.array(getattr(g, q))
        for a, b in itertools.product(Q, Q):
            goto(s1)
            getattr(g, a)
            goto(s0)
            getattr(g, a)
            got = np.array(getattr(g, b))
            ctx.trans(2)
            ctx.trace()
            ctx.ev()
            sc = np.abs(fresh[b][np.isfinite(fresh[b])]).max(initial=0)
            ctx.state((nm, str(st), a, b))
            ctx.close(f'{nm}:order:{b}', got, fresh[b], rtol=1e-8, atol=(1e-7 if 'dd' in b else 1e-12) * sc, msg=f'{b} after requesting {a} (settings {st})')


def run_surf(task, ctx):
    k = kinpool.BY[task['surf']]
    kin = k.make()
    ph = k.phases(kin)
    nm = k.name
    ref = refkin.Ref(kin, ph)
    rx = kin.reactions()
    cov = any(r.rate.coverage_dependencies for r in rx if hasattr(r.rate, 'coverage_dependencies'))
    ech = any(getattr(r.rate, 'uses_electrochemistry', False) for r in rx)
    QS = ['forward_rates_of_progress', 'reverse_rates_of_progress', 'net_rates_of_progress', 'creation_rates', 'destruction_rates', 'net_production_rates']
    ideal = all(p.thermo_model in ('ideal-gas', 'ideal-surface', 'edge', 'electron-cloud', 'fixed-stoichiometry', 'coverage-dependent-surface') for p in ph)
    for st in itertools.product((False, True), (False, True)):
        kin.derivative_settings = {}
        kin.derivative_settings = {'skip-coverage-dependence': st[0], 'skip-electrochemistry': st[1]}
        s = kin.derivative_settings
        ctx.eq(f'{nm}:settings', (s['skip-coverage-dependence'], s['skip-electrochemistry']), st, 'derivative settings read back')
        must_raise = (cov and not st[0]) or (ech and not st[1])
        for T, P, x in itertools.product(k.T, k.P, kinpool.comps(k, kin)):
            for p in ph[1:]:
                p.TPX = T, P, kinpool.lattice_comp(p, 1) if p.n_species > 1 else [1.0]
            ph[0].TPX = T, P, x
            ctx.trans(2)
            before = kin.net_production_rates
            kf, kr = kin.forward_rate_constants, kin.reverse_rate_constants
            C = ref.cat(lambda p: c_act(p))
            for q in QS:
                ctx.ev()
                try:
                    got = getattr(kin, q + '_ddCi')
                except NotImplementedError:
                    ctx.check(f'{nm}:refused', must_raise, f'{q}_ddCi refused with settings {st} although nothing needs to be skipped')
                    continue
                except ct.CanteraError as e:
                    ctx.check(f'{nm}:refused', must_raise, f'{q}_ddCi refused with settings {st}: {e}')
                    continue
                if not ctx.check(f'{nm}:accepted', not must_raise, f'{q}_ddCi computed although coverage/electrochemical terms are neither supported nor skipped (settings {st})'):
                    continue
                if not ideal:
                    continue
                Jf = dprod(C, ref.order_f) * kf[:, None]
                Jr = dprod(C, np.where(ref.rev[:, None], ref.nu_p, 0)) * np.where(ref.rev, kr, 0)[:, None]
                a, b = ref.nu_r.T, ref.nu_p.T
                want = {'forward_rates_of_progress': Jf, 'reverse_rates_of_progress': Jr, 'net_rates_of_progress': Jf - Jr, 'creation_rates': b @ Jf + a @ Jr,
                        'destruction_rates': a @ Jf + b @ Jr, 'net_production_rates': (b - a) @ (Jf - Jr)}[q]
                mag = {'net_rates_of_progress': np.abs(Jf) + np.abs(Jr)}.get(q)
                if mag is None and 'rates_of' not in q:
                    mag = (a + b) @ (np.abs(Jf) + np.abs(Jr))
                ok = np.isfinite(want)
                tol = 1e-8 * np.maximum(np.abs(want), mag if mag is not None else 0) + 1e-300
                bad = ok & ~(np.abs(got - want) <= tol)
                ctx.outcome((nm, T, P, tuple(x), st, q))
                if bad.any():
                    i = tuple(int(t) for t in np.argwhere(bad)[0])
                    ctx.violation(f'{nm}:{q}_ddCi', f'{q}_ddCi[{i}] at T={T} P={P} x={x} settings {st}: got {got[i]!r}, want {want[i]!r}')
            ctx.close(f'{nm}:side-effect', kin.net_production_rates, before, rtol=1e-13, msg='rates changed by requesting derivatives')


def dprod(C, order):
    m, n = order.shape
    out = np.zeros((m, n))
    with np.errstate(all='ignore'):
        for i in range(m):
            nz = np.flatnonzero(order[i])
            for j in nz:
                e = order[i, j]
                p = np.prod([C[k] ** order[i, k] for k in nz if k != j])
                out[i, j] = p * e * (C[j] ** (e - 1) if e != 1 else 1.0)
    return out


def c_act(p):
    if p.thermo_model == 'electron-cloud':
        return np.ones(p.n_species)
    if p.thermo_model == 'fixed-stoichiometry':
        return np.ones(p.n_species)
    return p.concentrations


MECH = ['allrates', 'h2o2', 'pdep', 'scratch', 'blowers-gas', 'orders', 'nonreactant', 'negative-order', 'sri', 'tsang', 'gri30']
SURF = ['pt', 'pt-motzwise', 'scratch-surf', 'blowers-surf', 'pt-sites', 'sofc-tpb', 'sofc-oxide', 'covdep']


def tasks(tier):
    th = tier == 'thorough'
    out = [dict(mech='gri30')]
    out += [dict(gen=k) for k in GEN] + [dict(ord=1)] + [dict(mech=m) for m in MECH if m != 'gri30']
    pr = [dict(mech='allrates'), dict(gen='falloff'), dict(mech='pdep'), dict(ord=1)]
    if th:
        pr = [dict(mech=m) for m in MECH] + [dict(gen=k) for k in GEN] + [dict(ord=1)]
    out += [dict(pairs=1, **p) for p in pr]
    out += [dict(surf=s) for s in SURF]
    return out


def run(task, ctx):
    if 'pairs' in task:
        run_pairs(task, ctx)
    elif 'surf' in task:
        run_surf(task, ctx)
    else:
        run_bulk(task, ctx)
