"""C35: site balance of surface phases; transient and steady coverages."""
import itertools, os
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C35', 'model_checking'
BUILD = ['py']
TECHNIQUE = ('explicit exploration of all operation sequences up to a depth on real surface phases against a reference state (site density, coverages, T, P), and of all sequences of '
             'time-advance and steady-state solutions against fresh objects, with site balance, constancy of the adjacent phases and residuals checked after every operation')
LEVEL_NOTE = 'Transient results are also compared with an independent integration (scipy) of the coverage equations, steady ones with their residual and the long-time limit.'
RULE = 'A case is one operation sequence; it is non-trivial when the coverages changed. States are distinct reference states or coverage vectors.'
ASSUMPTIONS = ['rates of progress are right for given activities (C02, C10)', 'a steady-state solver may give up by raising an error']
BOUNDS = {'quick': '5 mechanisms; 14 setting operations to depth 2; 8 advancing operations to depth 2 from 3-5 initial coverages', 'thorough': 'depth 3'}

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'surf.yaml')
ATM = ct.one_atm
# file, surface, gas composition, initial coverages, (T, P)
MECH = {
    'pt': ('ptcombust.yaml', 'Pt_surf', 'CH4:0.095,O2:0.21,N2:0.7', ['PT(S):1', 'O(S):0.7,PT(S):0.3', 'H(S):0.5,PT(S):0.5', 'CO(S):0.3,C(S):0.2,PT(S):0.5'], [(900., 5e5), (1300., ATM)]),
    'pox': ('methane_pox_on_pt.yaml', 'Pt_surf', 'CH4:0.3,O2:0.2,AR:0.5', ['PT(S):0.9,O(S):0.1', 'H(S):0.5,PT(S):0.5', 'CO(S):0.6,PT(S):0.4'], [(900., 5e5), (1200., ATM)]),
    'diamond': ('diamond.yaml', 'diamond_100', 'H:2e-3,H2:0.988,CH3:2e-4,CH4:0.01', ['c6HH:0.9,c6H*:0.1', 'c6HM:0.5,c6H*:0.5', 'c6B:1,c6**:.5'], [(1200., 2666.), (1100., 5e4)]),
    'sites': (F, 'sites', 'H2:1,O2:2,AR:5', ['PT(S):1', 'O2(S2):0.6,PT(S):0.4', 'H2O(S3):0.3,H(S):0.3,PT(S):0.4', 'O2(S2):1,H2O(S3):1', 'O(S):0.5,PT(S):0.5'], [(900., 5e5), (700., ATM)]),
    'rich': (F, 'sites', 'H2:3,O2:1,AR:5', ['PT(S):1', 'H(S):0.9,PT(S):0.1', 'O2(S2):1', 'H2O(S):1,PT(S):1'], [(900., ATM)]),
}


def load(name):
    return ct.Interface(*MECH[name][:2])


def set_gas(s, name, T, P):
    g = s.adjacent['gas']
    g.TPX = T, P, MECH[name][2]
    for a in s.adjacent.values():
        if a is not g:
            a.TP = T, P
    return g


def sizes(s):
    return np.array([s.species(k).size for k in range(s.n_species)])


def tasks(tier):
    out = []
    for name in MECH:
        n = len(ops(name, load(name)))
        out += [dict(hist=name, first=i) for i in range(n)]
        for tp in range(len(MECH[name][4])):
            out += [dict(adv=name, tp=tp, first=i) for i in range(len(ADV))]
            out.append(dict(rates=name, tp=tp))
            out.append(dict(steady=name, tp=tp))
    return out


# ---- setting ----

def ops(name, s):
    cs = MECH[name][3]
    K = s.n_species
    w = np.arange(1., K + 1)
    o = [('str', cs[0]), ('str', cs[1]), ('dict', {k.split(':')[0]: 2 * float(k.split(':')[1]) for k in cs[-1].split(',')}), ('array', tuple(w)), ('array', tuple(w[::-1] / 7)), ('X', tuple(w)),
         ('Y', tuple(1 / w)), ('TPX', (800., 3e5, tuple(w))), ('TP', (1000., 2e5)), ('n0', 1.3e-8), ('n0', 4e-9), ('raw', tuple(w / w.sum())), ('raw', tuple(w / w.sum() * 1.01)), ('state',),
         ('bad', tuple(0 * w)), ('badstr', '')]
    return o


class Ref:
    def __init__(self, s):
        self.n0, self.T, self.P = s.site_density, s.T, s.P
        self.size = sizes(s)
        self.MW = s.molecular_weights
        self.th = s.coverages
        self.th = self.th / self.th.sum()

    def setX(self, x):
        x = np.array(x, float)
        self.th = x * self.size / (x * self.size).sum()


def do(s, r, op):
    k = op[0]
    if k in ('str', 'dict', 'array'):
        s.coverages = op[1] if k != 'array' else np.array(op[1])
        if k == 'array':
            v = np.array(op[1])
        else:
            d = op[1] if k == 'dict' else {a.split(':')[0]: float(a.split(':')[1]) for a in op[1].split(',')}
            v = np.array([d.get(n, 0.) for n in s.species_names])
        # values are relative coverages
        r.th = v / v.sum()
    elif k == 'X':
        s.X = op[1]
        r.setX(op[1])
    elif k == 'Y':
        s.Y = op[1]
        r.setX(np.array(op[1]) / r.MW)
    elif k == 'TPX':
        s.TPX = op[1]
        r.T, r.P = op[1][:2]
        r.setX(op[1][2])
    elif k == 'TP':
        s.TP = op[1]
        r.T, r.P = op[1]
    elif k == 'n0':
        s.site_density = op[1]
        r.n0 = op[1]
    elif k == 'raw':
        s.set_unnormalized_coverages(np.array(op[1]))
        r.th = np.array(op[1])
    elif k == 'state':
        st = s.state
        cov = s.coverages
        s.coverages = cov[::-1]
        s.TP = 555., 1e5
        s.state = st
        r.th = r.th / r.th.sum()
    elif k == 'bad' or k == 'badstr':
        try:
            s.coverages = np.array(op[1]) if k == 'bad' else op[1]
        except ct.CanteraError:
            return True
        return False
    return True


def compare(s, r, ctx, key, what):
    th = r.th
    c = th * r.n0 / r.size
    R = ct.gas_constant
    s0 = what[-1][0] if isinstance(what, list) else ''
    ok = ctx.close(f'{key}:coverages', s.coverages, th, rtol=1e-9, atol=1e-14, msg=f'coverages after {what}')
    ok &= ctx.close(f'{key}:concentrations', s.concentrations, c, rtol=1e-9, atol=1e-14 * r.n0, msg=f'concentrations after {what}')
    ok &= ctx.close(f'{key}:sites', s.concentrations @ r.size, r.n0 * th.sum(), rtol=1e-9, msg=f'sites per area after {what}')
    if abs(th.sum() - 1) < 1e-12:
        ok &= ctx.close(f'{key}:X', s.X, c / c.sum(), rtol=1e-9, atol=1e-14, msg=f'mole fractions after {what}')
        on = th > 1e-10
        ok &= ctx.close(f'{key}:mu', s.chemical_potentials[on], (s.standard_gibbs_RT * R * r.T + R * r.T * np.log(np.where(on, th, 1)))[on], rtol=1e-8, scale=R * r.T, msg=f'chemical potentials after {what}')
        ok &= ctx.close(f'{key}:activities', s.activities[on], th[on], rtol=1e-9, msg=f'activities after {what}')
    ok &= ctx.close(f'{key}:n0TP', [s.site_density, s.T, s.P], [r.n0, r.T, r.P], rtol=1e-12, msg=f'site density, T, P after {what}')
    return ok


def history(task, ctx):
    name = task['hist']
    all_ops = ops(name, load(name))
    s = load(name)
    st0, n0 = s.state, s.site_density
    raw = lambda o: o[0] == 'raw'
    for tail in itertools.product(all_ops, repeat=1 if ctx.tier == 'quick' else 2):
        seq = [all_ops[task['first']]] + list(tail)
        s.site_density = n0
        s.state = st0
        r = Ref(s)
        for n, op in enumerate(seq):
            if not do(s, r, op):
                ctx.skip('all-zero composition accepted')
                break
            ctx.trans()
            ctx.state((name, r.n0, r.T, tuple(r.th)))
            # unnormalised coverages are a device for one derivative: other settings do not follow them
            if raw(op) and abs(r.th.sum() - 1) > 1e-9 and n < len(seq) - 1 and seq[n + 1][0] in ('state', 'n0', 'TP', 'bad', 'badstr'):
                break
            ctx.ev()
            if not compare(s, r, ctx, f'set:{name}:{op[0]}', seq[:n + 1]):
                break
        ctx.outcome((name, seq[-1][0]))
        ctx.trace()


# ---- rates ----

def rates(task, ctx):
    """Every reaction conserves sites; so do the net rates, at every coverage of a lattice."""
    name = task['rates']
    T, P = MECH[name][4][task['tp']]
    s = load(name)
    g = set_gas(s, name, T, P)
    s.TP = T, P
    sz = sizes(s)
    k0 = s.kinetics_species_index(s.species_name(0))
    nu = np.array(s.product_stoich_coeffs) - np.array(s.reactant_stoich_coeffs)
    ctx.close(f'rates:{name}:balance', (sz[:, None] * nu[k0:k0 + s.n_species]).sum(0), np.zeros(s.n_reactions), atol=1e-12, msg=f'{name}: sites created by each reaction')
    K = s.n_species
    lat = [np.eye(K)[i] * .6 + np.eye(K)[j] * .4 for i in range(K) for j in range(K)] + [np.ones(K) / K]
    for th in lat:
        s.coverages = th
        w = s.get_net_production_rates(s.name) if False else s.net_production_rates[k0:k0 + K]
        gross = np.abs(s.creation_rates[k0:k0 + K]).sum() + 1e-300
        ctx.ev()
        ctx.trans()
        ctx.close(f'rates:{name}:sites', w @ sz / gross, 0, atol=1e-11, msg=f'{name}: net rate of sites at coverages {th}')
    ctx.state((name, T))
    ctx.outcome(name)
    ctx.trace()


# ---- advancing ----

ADV = [('adv', 1e-9), ('adv', 1e-5), ('adv', 1e-2), ('steady',), ('T', 150.), ('P', 2.), ('cov', 1), ('fail',)]


def apply(s, name, op, T, P):
    """Returns new T, P."""
    k = op[0]
    if k == 'adv':
        s.advance_coverages(op[1])
    elif k == 'steady':
        s.advance_coverages_to_steady_state()
        # the solution uses (and sets) a common temperature and pressure, which is that of the surface
        T, P = s.TP
    elif k == 'T':
        T += op[1]
        set_gas(s, name, T, P)
        s.TP = T, s.P
    elif k == 'P':
        P *= op[1]
        set_gas(s, name, T, P)
    elif k == 'cov':
        s.coverages = MECH[name][3][op[1]]
    elif k == 'fail':
        st = s.state
        try:
            s.advance_coverages(1e-2, max_steps=1)
        except ct.CanteraError:
            pass
        s.state = st
    return T, P


def check(s, bulk, ctx, key, what):
    th = s.coverages
    ok = ctx.check(f'{key}:valid', np.isfinite(th).all() and th.min() > -1e-9 and abs(th.sum() - 1) < 1e-9, f'coverages {th.min():.3g}..., sum {th.sum()!r}: {what}')
    for a, st in bulk.items():
        ok &= ctx.close(f'{key}:bulk', s.adjacent[a].state, st, rtol=1e-10, atol=1e-14, msg=f'state of {a}: {what}')
    return ok


def residual(s):
    k0 = s.kinetics_species_index(s.species_name(0))
    sl = slice(k0, k0 + s.n_species)
    return np.abs(s.net_production_rates[sl]).max(), np.abs(s.creation_rates[sl]).max()


def advance(task, ctx):
    name = task['adv']
    T0, P0 = MECH[name][4][task['tp']]
    used = load(name)
    fresh = load(name)
    for c0 in MECH[name][3]:
        for tail in itertools.product(ADV, repeat=1 if ctx.tier == 'quick' else 2):
            seq = [ADV[task['first']]] + list(tail)
            T, P = T0, P0
            set_gas(used, name, T, P)
            used.TP = T, ATM
            used.coverages = c0
            for n, op in enumerate(seq):
                what = f'{name} T={T0} P={P0:.6g} from {c0}: {seq[:n + 1]}'
                start = used.state
                before = T, P
                cov = used.coverages
                try:
                    T, P = apply(used, name, op, T, P)
                except ct.CanteraError:
                    ctx.skip(f'{name} {op[0]} gave up')
                    break
                ctx.trans()
                if op[0] not in ('adv', 'steady', 'fail'):
                    continue
                ref = load(name) if ctx.tier != 'quick' else fresh
                # T, P before, and what they should be after
                set_gas(ref, name, T, P)
                want = {a: x.state for a, x in ref.adjacent.items()}
                set_gas(ref, name, *before)
                ctx.ev()
                if not check(used, want, ctx, f'adv:{name}:{op[0]}', what):
                    break
                ctx.state((name, T, P, tuple(np.round(used.coverages, 12))))
                if op[0] == 'fail':
                    continue
                # the same operation by another object from the same state
                ref.state = start
                ref.coverages = cov
                ref.TP = used.TP
                try:
                    apply(ref, name, op, *before)
                except ct.CanteraError as e:
                    ctx.violation(f'adv:{name}:{op[0]}:repeat', f'{what}: fails from the same state with another object: {str(e)[:200]}')
                    break
                tol = 1e-7 if op[0] == 'adv' else 1e-5
                ctx.close(f'adv:{name}:{op[0]}:repeat', used.coverages, ref.coverages, rtol=1e-5, atol=tol, msg=f'{what}: differs from another object from the same state')
                if op[0] == 'steady':
                    w, gross = residual(used)
                    ctx.check(f'adv:{name}:steady:residual', w <= 1e-4 * gross + 1e-18, f'{what}: net rate {w:.3g} of {gross:.3g}')
                ctx.outcome((name, op[0]))
            ctx.trace()


def steady(task, ctx):
    """Transient against an independent integration; steady against the long-time limit."""
    from scipy.integrate import solve_ivp
    name = task['steady']
    T, P = MECH[name][4][task['tp']]
    s, q = load(name), load(name)
    k0 = s.kinetics_species_index(s.species_name(0))
    K = s.n_species
    sz = sizes(s)

    def f(t, y):
        q.coverages = y
        return q.net_production_rates[k0:k0 + K] * sz / q.site_density
    for c0 in MECH[name][3]:
        for x in (s, q):
            set_gas(x, name, T, P)
            x.TP = T, P
            x.coverages = c0
        y0 = s.coverages.copy()
        for dt in (1e-8, 1e-4, 1e-1):
            s.coverages = y0
            what = f'{name} T={T} P={P:.6g} from {c0} for {dt} s'
            try:
                s.advance_coverages(dt, rtol=1e-8, atol=1e-14)
            except ct.CanteraError:
                ctx.skip('advance gave up')
                continue
            ctx.ev()
            ctx.trans()
            sol = solve_ivp(f, (0, dt), y0, method='BDF', rtol=1e-7, atol=1e-12)
            if sol.success:
                ctx.close(f'steady:{name}:transient', s.coverages, sol.y[:, -1], rtol=1e-4, atol=2e-6, msg=what)
            # in two steps
            s2 = s.coverages.copy()
            s.coverages = y0
            try:
                s.advance_coverages(dt / 3, rtol=1e-8, atol=1e-14, max_steps=100000)
                s.advance_coverages(dt * 2 / 3, rtol=1e-8, atol=1e-14, max_steps=100000)
            except ct.CanteraError:
                ctx.skip('advance gave up')
                continue
            ctx.close(f'steady:{name}:split', s.coverages, s2, rtol=1e-4, atol=1e-6, msg=f'{what}, in two parts')
            ctx.trace()
        s.coverages = y0
        try:
            s.advance_coverages(1e4, max_steps=200000)
            lim = s.coverages.copy()
            w, gross = residual(s)
            s.coverages = y0
            s.advance_coverages_to_steady_state()
        except ct.CanteraError:
            ctx.skip('steady state gave up')
            continue
        w1, gross1 = residual(s)
        ctx.check(f'steady:{name}:residual', w1 <= 1e-4 * gross1 + 1e-18, f'{name} T={T} P={P:.6g} from {c0}: net rate {w1:.3g} of {gross1:.3g}')
        if w < 1e-6 * gross:
            ctx.close(f'steady:{name}:limit', s.coverages, lim, rtol=1e-2, atol=1e-4, msg=f'{name} T={T} P={P:.6g} from {c0}: steady coverages against the long-time limit')
        ctx.state((name, T, c0))
        ctx.outcome((name, 'limit'))
        ctx.trace()


def run(task, ctx):
    for k, f in (('hist', history), ('rates', rates), ('adv', advance), ('steady', steady)):
        if k in task:
            return f(task, ctx)
