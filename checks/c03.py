"""C03: transport properties are functions of the state: histories against fresh objects, and the defining relations between them."""
import itertools
import numpy as np
import clib
import models
import cantera as ct

PROPERTY, LEVEL = 'C03', 'model_checking'
BUILD = ['py']
TECHNIQUE = 'exhaustive exploration of operation words (state changes, queries, polynomial edits, model switches) on real transport objects against fresh objects; every lattice state checked for the defining relations'
LEVEL_NOTE = ('Every word inside the bounds is run on the real code; the reference for histories is a new object at the same state, the relations (mixing rules, Stefan-Maxwell, Fick, symmetry, limits) are recomputed from '
              'the binary coefficients and the polynomial fits the object reports.')
RULE = ('Words: full state, query, change, query and (deeper) full state, query, change, change, query. Each query result is compared with that of a fresh object at the same state. '
        'A state is (model, T, P, X, edited polynomials); a transition is one call.')
ASSUMPTIONS = ['a new object set once to a state is the reference of that state', 'the polynomial coefficients reported by the object define the pure-species values',
               'ions and electrons are excluded from the mixing rules of the ionized-gas model as its documentation says']
BOUNDS = {'quick': '16 model/mechanism pairs, 3 temperatures x 2 pressures x 4-5 compositions, words of 4 with single queries and of 6 with groups',
          'thorough': 'words with two changes and single queries, groups to depth 8'}
ATM = ct.one_atm
METH = """
phases:
- name: methane_co2
  species:
  - gri30.yaml/species: [CH4, CO2]
  thermo: Peng-Robinson
  transport: mixture-averaged
  state: {T: 300, P: 1 atm}
"""


class T:
    def __init__(self, name, make, Ts, Ps, Xs, q, **kw):
        self.name, self.make, self.T, self.P, self.X, self.q, self.kw = name, make, Ts, Ps, Xs, q, kw
        self.rtol = kw.get('rtol', 1e-9)

    def fresh(self, edits=()):
        p = self.make()
        for e in edits:
            EDITS[e](p)
        return p


Q1 = ['viscosity', 'thermal_conductivity', 'species_viscosities', 'mix_diff_coeffs', 'mix_diff_coeffs_mass', 'mix_diff_coeffs_mole', 'binary_diff_coeffs', 'thermal_diff_coeffs', 'mobilities']
QM = ['viscosity', 'thermal_conductivity', 'species_viscosities', 'mix_diff_coeffs', 'mix_diff_coeffs_mass', 'mix_diff_coeffs_mole', 'binary_diff_coeffs', 'thermal_diff_coeffs', 'multi_diff_coeffs']
QI = ['viscosity', 'thermal_conductivity', 'species_viscosities', 'mix_diff_coeffs', 'binary_diff_coeffs', 'mobilities', 'electrical_conductivity']
QH = ['viscosity', 'thermal_conductivity', 'species_viscosities', 'mix_diff_coeffs', 'mix_diff_coeffs_mass', 'mix_diff_coeffs_mole', 'binary_diff_coeffs']


def sol(f, phase='', model=None):
    def make():
        return ct.Solution(f, phase) if model is None else ct.Solution(f, phase, transport_model=model)
    return make


def high(model):
    def make():
        g = ct.Solution(yaml=METH)
        g.transport_model = model
        return g
    return make


def dusty():
    g = ct.DustyGas('h2o2.yaml')
    g.porosity, g.tortuosity, g.mean_pore_radius, g.mean_particle_diameter = 0.2, 4.0, 1.5e-7, 1e-6
    return g


XG = ['H2:2,O2:1,AR:4', 'H2O:1', 'H2:0.1,O2:0.7,H2O2:0.1,OH:1e-6,N2:0.2', 'O:0.5,H:0.5,HO2:1e-9']
TG, PG = [300., 1100., 2400.], [ATM, 4e5]
XI = ['CH4:1,O2:2,N2:7.52', 'CO2:0.2,H2O:0.3,H3O+:1e-6,E:1e-6,N2:0.5', 'O2:0.2,N2:0.8,O2-:1e-7,HCO+:1e-7', 'N2:1']
XH = ['CH4:0.755,CO2:0.245', 'CO2:1', 'CH4:0.2,CO2:0.8']
POOL = [
    T('mix', sol('h2o2.yaml', '', 'mixture-averaged'), TG, PG, XG, Q1, edit=True),
    T('mix-CK', sol('h2o2.yaml', '', 'mixture-averaged-CK'), TG, PG, XG, Q1, edit=True),
    T('multi', sol('h2o2.yaml', '', 'multicomponent'), TG, PG, XG, QM, edit=True, rtol=1e-8),
    T('multi-CK', sol('h2o2.yaml', '', 'multicomponent-CK'), TG, PG, XG, QM, edit=True, rtol=1e-8),
    T('unity', sol('h2o2.yaml', '', 'unity-Lewis-number'), TG, PG, XG, [q for q in Q1 if q != 'mix_diff_coeffs_mole'], edit=True),
    T('air-mix', sol('air.yaml'), [300., 1800.], PG, ['O2:0.21,N2:0.78,AR:0.01', 'NO:1', 'O:0.3,N:0.7,N2O:0.1'], Q1, edit=True),
    T('gri-multi', sol('gri30.yaml', '', 'multicomponent'), [300., 1500.], [ATM], ['CH4:1,O2:2,N2:7.52', 'CO2:0.2,H2O:0.3,CO:0.1,N2:0.4'], QM, rtol=1e-7, slow=True),
    T('ion', sol('ch4_ion.yaml', '', 'ionized-gas'), [400., 2000.], PG, XI, QI, rtol=1e-9, ion=True),
    T('high-pressure', high('high-pressure'), [350., 500.], [ATM, 6e6, 3e7], XH, QH, high=True),
    T('high-pressure-Chung', high('high-pressure-Chung'), [350., 500.], [ATM, 6e6, 3e7], XH, QH, high=True),
    T('real-mix', high('mixture-averaged'), [350., 500.], [ATM, 6e6], XH, QH, real=True),
    T('dusty', dusty, TG, PG, XG[:1] + XG[2:], ['multi_diff_coeffs'], dusty=True),
    T('water-transport', sol('liquidvapor.yaml', 'water', 'water'), [300., 480., 800.], [ATM, 1e7], None, ['viscosity', 'thermal_conductivity'], rtol=1e-8),
    T('water-liquid', sol('thermo-models.yaml', 'liquid-water', 'water'), [300., 350.], [ATM, 1e7], None, ['viscosity', 'thermal_conductivity'], rtol=1e-8, optional=True),
]
POOL = {t.name: t for t in POOL}


def edit_visc(g):
    g.set_viscosity_polynomial(1, g.get_viscosity_polynomial(1) * 1.25)


def edit_cond(g):
    g.set_thermal_conductivity_polynomial(0, g.get_thermal_conductivity_polynomial(0) * 1.25)


def edit_diff(g):
    g.set_binary_diff_coeffs_polynomial(2, 0, g.get_binary_diff_coeffs_polynomial(2, 0) * 1.25)


def edit_coll(g):
    a, b, c = g.get_collision_integral_polynomials(3, 1)
    g.set_collision_integral_polynomial(3, 1, a * 1.1, b * 1.05, c * 0.95)


EDITS = {'visc': edit_visc, 'cond': edit_cond, 'diff': edit_diff, 'coll': edit_coll}


def get(p, q):
    try:
        return np.array(getattr(p, q), dtype=float)
    except (ct.CanteraError, NotImplementedError):
        return None


def setfull(p, m, s):
    if m.X is None:
        p.TP = s[0], s[1]
    else:
        p.TPX = s[0], s[1], s[2]


def lattice(m):
    return list(itertools.product(m.T, m.P, m.X if m.X is not None else [None]))


NOISY = ('mix_diff_coeffs', 'mix_diff_coeffs_mass', 'mix_diff_coeffs_mole', 'mobilities')


class Ref:
    """values of fresh objects by (edits, state)"""
    def __init__(self, m):
        self.m, self.v, self.obj = m, {}, {}

    def at(self, edits, st, q):
        k = (edits, st, q)
        if k not in self.v:
            # a new object for every value: no history at all
            if self.m.kw.get('slow'):
                p = self.obj.get((edits, st))
                if p is None:
                    p = self.obj[edits, st] = self.m.fresh(edits)
            else:
                p = POOLED.new(self.m, edits)
            restore(p, self.m, st)
            self.v[k] = get(p, q)
        return self.v[k]


class Pooled:
    """pristine objects per model"""
    def new(self, m, edits):
        return m.fresh(edits)


POOLED = Pooled()


def restore(p, m, st):
    if m.X is None:
        p.TD = st[0], st[1]
    else:
        p.TDY = st[0], st[1], np.array(st[2])


def statekey(p, m):
    return (p.T, p.density, tuple(p.Y) if m.X is not None else None)


def changes(m):
    """state changes: (label, function(p))"""
    out = [('none', lambda p: None)]
    for t in m.T:
        out.append((f'T{t:g}', lambda p, t=t: setattr(p, 'TP', (t, None))))
    for t in m.P:
        out.append((f'P{t:g}', lambda p, t=t: setattr(p, 'TP', (None, t))))
    if m.X is not None:
        for i, x in enumerate(m.X):
            out.append((f'X{i}', lambda p, x=x: setattr(p, 'TPX', (None, None, x))))
        x = m.X[-1]
        out.append(('Dx', lambda p, x=x: setattr(p, 'DX' if hasattr(p, 'DX') else 'TDX', (None, p.density * 1.5, x) if not hasattr(p, 'DX') else (p.density * 1.5, x))))
    out.append(('D', lambda p: setattr(p, 'TD', (None, p.density * (0.5 if m.X is not None and not m.kw.get('high') and not m.kw.get('real') else 1.0001)))))
    out.append(('HP', lambda p: setattr(p, 'HP', (p.enthalpy_mass, p.P))))
    if not m.kw.get('dusty') and m.X is not None and not m.kw.get('slow'):
        def switch(p, m=m):
            old = p.transport_model
            p.transport_model = 'mixture-averaged' if old != 'mixture-averaged' else 'unity-Lewis-number'
            p.viscosity
            p.transport_model = old
        out.append(('switch', switch))
    if m.kw.get('edit'):
        out += [('edit:' + e, f) for e, f in EDITS.items()]
    return out


def scale_of(q, w):
    return 0. if np.ndim(w) == 0 else 1e-6 * np.max(np.abs(w)) if q in ('thermal_diff_coeffs', 'multi_diff_coeffs') else 0.


def words(m, ctx, task):
    ref = Ref(m)
    lat = lattice(m)
    quick = ctx.tier == 'quick'
    if quick:
        lat = lat[::max(1, len(lat) // (2 if m.kw.get('slow') else 6))]
    ch = changes(m)
    lat = lat[task['part']::task['of']]

    def test(p, edits, q, label, n):
        st = statekey(p, m)
        v = get(p, q)
        w = ref.at(edits, st, q)
        ctx.trans(1)
        ctx.ev(1)
        ctx.state((m.name, st, edits))
        if statekey(p, m) != st:
            ctx.violation(f'{m.name}:{q}:side effect', f'{label}: reading {q} changes the state')
        if (v is None) != (w is None):
            ctx.violation(f'{m.name}:{q}:available', f'{label}: {q} {"not " if v is None else ""}available, in a new object {"not " if w is None else ""}available')
        elif v is not None:
            if q in NOISY and m.X is not None:
                # digits of 1 - X are lost for (nearly) pure species
                ok = np.array(p.X) < 1 - 1e-6
                v, w = v[ok], w[ok]
            ctx.close(f'{m.name}:{q}:history', v, w, m.rtol, 1e-300, f'{label} > {q}', scale=scale_of(q, w))
        ctx.outcome('none' if v is None else 'value')

    qs = [None] + m.q
    for s in lat:
        for q1 in qs:
            for c1, f1 in ch:
                edits = (c1[5:],) if c1.startswith('edit:') else ()
                for grouped in ((False,) if not edits and c1 != 'switch' else (True,)):
                    # edited objects cannot be reused, so all queries follow one another on a new object
                    for q2 in ([None] if grouped else m.q):
                        p = m.fresh() if grouped else task['obj']
                        setfull(p, m, s)
                        if q1:
                            get(p, q1)
                        f1(p)
                        if edits and c1 == 'edit:coll' and m.name not in ('multi', 'multi-CK'):
                            pass
                        lab = f'{s} > {q1} > {c1}'
                        for q in (m.q if grouped else [q2]):
                            test(p, edits, q, lab, 4)
                        ctx.trace(1)
    # two changes, groups of queries
    cc = [c for c in ch if not c[0].startswith('edit') and c[0] != 'switch']
    if quick:
        cc = cc[::2]
    start = lat[:1] if quick else lat
    for s in start:
        for (c1, f1), (c2, f2) in itertools.product(cc, cc):
            for q1 in m.q if not quick else m.q[::2]:
                for qm in ([None] if quick else [None, m.q[0]]):
                    p = task['obj']
                    setfull(p, m, s)
                    get(p, q1)
                    f1(p)
                    if qm:
                        get(p, qm)
                    f2(p)
                    for q in m.q:
                        test(p, (), q, f'{s} > {q1} > {c1} > {qm} > {c2}', 6)
                    ctx.trace(1)


def poly(c, T, ck, power):
    x = np.log(T)
    v = sum(a * x**i for i, a in enumerate(c))
    return np.exp(v) if ck else v


def wilke(mu, W, X, keep=None):
    n = len(mu)
    phi = np.empty((n, n))
    for k in range(n):
        for j in range(n):
            phi[k, j] = (1 + np.sqrt(mu[k] / mu[j]) * (W[j] / W[k])**.25)**2 / np.sqrt(8 * (1 + W[k] / W[j]))
    d = phi @ X
    r = range(n) if keep is None else keep
    return sum(X[k] * mu[k] / d[k] for k in r)


def relations(m, ctx):
    p = m.make()
    N = getattr(p, 'n_species', 1)
    for s in lattice(m):
        setfull(p, m, s)
        ctx.state((m.name, s))
        ctx.trace(1)
        Tt, P = p.T, p.P
        key = m.name
        L = str(s)
        # simple facts for all models
        for q in ('viscosity', 'thermal_conductivity'):
            if q in m.q:
                v = get(p, q)
                ctx.check(f'{key}:{q}:positive', v is not None and np.isfinite(v) and v > 0, f'{L}: {q} = {v}')
        if m.X is None:
            continue
        X = np.maximum(p.X, 1e-20)
        W = p.molecular_weights
        Wm = p.mean_molecular_weight
        if m.kw.get('dusty'):
            # H^-1 with binary and Knudsen coefficients
            g = ct.Solution('h2o2.yaml', transport_model='mixture-averaged')
            g.TPX = p.T, p.P, p.X
            f = 0.2 / 4.0
            D = g.binary_diff_coeffs * f
            Dk = 2 / 3 * 1.5e-7 * f * np.sqrt(8 * ct.gas_constant * Tt / np.pi / W)
            H = -X[:, None] / D
            for k in range(N):
                H[k, k] = 1 / Dk[k] + sum(X[j] / D[k, j] for j in range(N) if j != k)
            ctx.close(f'{key}:H', p.multi_diff_coeffs, np.linalg.inv(H), 1e-8, 0., L, scale=1e-9 * np.max(np.abs(np.linalg.inv(H))))
            # molar fluxes: N = -H^-1 (grad c + c B gradp / (mu Dk))
            n = p.n_species
            for T2, P2, x2 in ((Tt, P, m.X[0]), (Tt, P * 1.1, p.X), (Tt, P * 0.9, m.X[-1])):
                g.TPX = T2, P2, x2
                r1, y1, r2, y2 = p.density, p.Y.copy(), g.density, g.Y.copy()
                before = (p.T, p.density, p.Y.copy())
                fl = p.molar_fluxes(Tt, T2, r1, r2, y1, y2, 1e-3)
                c1, c2 = r1 * y1 / W, r2 * y2 / W
                p1, p2 = c1.sum() * ct.gas_constant * Tt, c2.sum() * ct.gas_constant * T2
                cb = .5 * (c1 + c2)
                g.TPX = .5 * (Tt + T2), .5 * (p1 + p2), cb / cb.sum()
                Db = g.binary_diff_coeffs * f
                Dkb = 2 / 3 * 1.5e-7 * f * np.sqrt(8 * ct.gas_constant * g.T / np.pi / W)
                xb = np.maximum(g.X, 1e-20)
                Hb = -xb[:, None] / Db
                for k in range(N):
                    Hb[k, k] = 1 / Dkb[k] + sum(xb[j] / Db[k, j] for j in range(N) if j != k)
                B = .2**3 * (1e-6)**2 / (72 * 4. * .8**2)
                want = -np.linalg.solve(Hb, (c2 - c1) / 1e-3 + cb / Dkb * B * (p2 - p1) / 1e-3 / g.viscosity)
                ctx.close(f'{key}:fluxes', fl, want, 1e-7, 0., f'{L} to {T2, P2, x2}', scale=1e-9 * np.max(np.abs(want)) + 1e-18)
                setfull(p, m, s)
            continue
        D = get(p, 'binary_diff_coeffs')
        ctx.close(f'{key}:binary:symmetric', D, D.T, 1e-13, 0., L)
        ctx.check(f'{key}:binary:positive', bool((D > 0).all()), f'{L}: {D.min()}')
        ck = p.CK_mode if not m.kw.get('high') else False
        fits = not m.kw.get('ion')
        mu = get(p, 'species_viscosities')
        pv = np.array([poly(p.get_viscosity_polynomial(k), Tt, ck, 0) for k in range(N)])
        pv = pv if ck else (Tt**.25 * pv)**2
        ctx.close(f'{key}:species_viscosities:fit', mu, pv, 1e-10, 0., L)
        if not m.kw.get('high'):
            pd = np.array([[poly(p.get_binary_diff_coeffs_polynomial(i, j), Tt, ck, 0) for j in range(N)] for i in range(N)])
            ctx.close(f'{key}:binary:fit', D, (pd if ck else Tt**1.5 * pd) / P, 1e-10, 0., L)
        ion = m.kw.get('ion')
        q = np.array([p.species(k).charge for k in range(N)])
        neutral = [k for k in range(N) if q[k] == 0]
        if 'viscosity' in m.q and not m.kw.get('high'):
            ctx.close(f'{key}:viscosity:wilke', p.viscosity, wilke(mu, W, X, neutral if ion else None), 1e-9, 0., L)
        if key.startswith(('mix', 'air', 'unity', 'real', 'ion')):
            lam = np.array([poly(p.get_thermal_conductivity_polynomial(k), Tt, ck, 0) for k in range(N)])
            lam = lam if ck else np.sqrt(Tt) * lam
            if ion:
                Xn, ln = X[neutral], lam[neutral]
                want = .5 * (Xn @ ln + 1 / (Xn / ln).sum())
            else:
                want = .5 * (X @ lam + 1 / (X / lam).sum())
            ctx.close(f'{key}:thermal_conductivity:rule', p.thermal_conductivity, want, 1e-9, 0., L)
        # mixture-averaged coefficients from the binary ones
        if key == 'unity':
            d = p.thermal_conductivity / p.density / p.cp_mass
            ctx.close(f'{key}:mix', p.mix_diff_coeffs, np.full(N, d), 1e-9, 0., L)
            ctx.close(f'{key}:mass', p.mix_diff_coeffs_mass, np.full(N, d), 1e-9, 0., L)
        else:
            use = neutral if ion else range(N)
            want, wmole, wmass = np.empty(N), np.empty(N), np.empty(N)
            for k in range(N):
                s1 = sum(X[j] / D[j, k] for j in use if j != k)
                # 1 - Y_k as a sum over the others, to keep its digits
                others = sum(X[j] * W[j] for j in range(N) if j != k)
                xo = sum(X[j] for j in range(N) if j != k)
                want[k] = others / (Wm * s1)
                wmole[k] = xo / s1
                s2 = sum(X[j] * W[j] / D[j, k] for j in range(N) if j != k)
                wmass[k] = 1 / (s1 + X[k] * s2 / others)
            el = [k for k in range(N) if p.species_names[k] == 'E'] if ion else []
            for k in el:
                want[k] = .4 * ct.boltzmann * Tt / ct.electron_charge
            skip = [k for k in range(N) if 1 - X[k] < 1e-6]       # the pure species: digits are lost in 1 - X
            ok = [k for k in range(N) if k not in skip]
            ctx.close(f'{key}:mix_diff_coeffs:rule', p.mix_diff_coeffs[ok], want[ok], 1e-8, 0., L)
            if 'mix_diff_coeffs_mole' in m.q:
                ctx.close(f'{key}:mix_diff_coeffs_mole:rule', p.mix_diff_coeffs_mole[ok], wmole[ok], 1e-8, 0., L)
                ctx.close(f'{key}:mix_diff_coeffs_mass:rule', p.mix_diff_coeffs_mass[ok], wmass[ok], 1e-8, 0., L)
        if 'mobilities' in m.q:
            mob = p.mobilities
            if ion:
                want = np.zeros(N)
                for k in range(N):
                    if p.species_names[k] == 'E':
                        want[k] = .4
                    elif q[k]:
                        want[k] = ct.electron_charge / ct.boltzmann / Tt / sum(X[j] / D[k, j] for j in neutral)
                ctx.close(f'{key}:mobilities', mob, want, 1e-9, 0., L)
                nd = X * P / ct.boltzmann / Tt
                ctx.close(f'{key}:electrical_conductivity', p.electrical_conductivity, ct.electron_charge * float((nd * abs(q) * want).sum()), 1e-9, 0., L)
            else:
                ctx.close(f'{key}:mobilities', mob, ct.electron_charge / ct.boltzmann / Tt * p.mix_diff_coeffs, 1e-9, 0., L)
        if 'multi_diff_coeffs' in m.q:
            MD = p.multi_diff_coeffs
            sc = np.max(np.abs(MD))
            ctx.close(f'{key}:multi:diagonal', np.diag(MD), np.zeros(N), 0., 1e-9 * sc, L)
            # diffusion velocities V_i = sum_j W_j D_ij d_j / (X_i W) satisfy the Stefan-Maxwell equations and carry no mass
            big = [k for k in range(N) if X[k] > 1e-7]
            for a, b in itertools.combinations(big, 2):
                d = np.zeros(N)
                d[a], d[b] = 1., -1.
                V = MD @ (W * d) / X / Wm
                ctx.close(f'{key}:multi:no net mass flux', float((X * W * V).sum()), 0., 0., 1e-8 * float(np.abs(X * W * V).sum()), f'{L} {a} {b}')
                sm = np.array([sum(X[i] * X[j] / D[i, j] * (V[j] - V[i]) for j in range(N)) for i in range(N)])
                ctx.close(f'{key}:multi:Stefan-Maxwell', sm, d, 0., 2e-6, f'{L} {a} {b}')
                ctx.ev(1)
            dt = p.thermal_diff_coeffs
            ctx.close(f'{key}:thermal diffusion:sum', dt.sum(), 0., 0., 1e-8 * np.abs(dt).sum(), L) if max(X) < 1 - 1e-6 else None
        # pure species
        if key.startswith(('mix', 'multi', 'air', 'unity')):
            for k in range(N):
                x = np.zeros(N)
                x[k] = 1
                p.TPX = Tt, P, x
                ctx.close(f'{key}:pure:viscosity', p.viscosity, mu[k], 1e-8, 0., f'{L} {p.species_names[k]}')
                if not key.startswith('multi'):
                    ctx.close(f'{key}:pure:conductivity', p.thermal_conductivity, lam[k], 1e-8, 0., f'{L} {p.species_names[k]}')
                if key != 'unity':
                    md = p.mix_diff_coeffs_mole
                    jj = [j for j in range(N) if j != k]
                    ctx.close(f'{key}:dilute:diffusion', md[jj], D[k][jj], 1e-8, 0., f'{L} in {p.species_names[k]}')
                ctx.trans(1)


def fluxes(ctx):
    """mass and molar fluxes between two states (C interface) satisfy the Stefan-Maxwell equations at the mean state, in any order of queries"""
    c = clib
    for model in ('multicomponent', 'mixture-averaged'):
        g = ct.Solution('h2o2.yaml', transport_model=model)
        h = c.fn('soln_newSolution', c.I, c.S, c.S, c.S)(b'h2o2.yaml', b'', model.encode())
        tr = c.fn('soln_transport', c.I, c.I)(h)
        F = {q: c.fn(f'trans_get{q}Fluxes', c.I, c.I, c.P, c.P, c.D, c.P) for q in ('Mass', 'Molar')}
        W, N = g.molecular_weights, g.n_species
        xs = XG + ['AR:1']
        for (Ta, Tb), Pa, (xa, xb) in itertools.product([(300., 300.), (1100., 1100.), (1100., 1300.)], PG, itertools.product(xs, xs)):
            if xa == xb and Ta == Tb:
                continue
            st, X = [], []
            for t, x in ((Ta, xa), (Tb, xb)):
                g.TPX = t, Pa, x
                st.append(np.array([g.T, g.density, *g.Y]))
                X.append(g.X.copy())
            out = {}
            for q in ('Mass', 'Molar'):
                a, pa = c.vec(st[0])
                b, pb = c.vec(st[1])
                f, pf = c.vec(np.zeros(N))
                r = F[q](tr, pa, pb, 1e-3, pf)
                ctx.trans(1)
                out[q] = f.copy() if r == 0 else None
            ctx.trace(1)
            ctx.ev(1)
            ctx.state((model, Ta, Tb, Pa, xa, xb))
            lab = f'{model} {Ta, Tb} {Pa} {xa} to {xb}'
            if out['Mass'] is None:
                if model == 'multicomponent':
                    ctx.violation(f'{model}:fluxes:failed', f'{lab}: {c.err()[-200:]}')
                ctx.outcome('refused')
                continue
            xm, gx = .5 * (X[0] + X[1]), (X[1] - X[0]) / 1e-3
            g.TPX = .5 * (Ta + Tb), Pa, xm
            fl = out['Mass']
            sc = np.abs(fl).max()
            ctx.close(f'{model}:fluxes:molar', out['Molar'], fl / W, 1e-12, 0., lab, scale=1e-12 * np.abs(fl / W).max())
            ctx.close(f'{model}:fluxes:sum', fl.sum(), 0., 0., 1e-8 * sc + 1e-18, lab)
            if model == 'multicomponent':
                x = np.maximum(g.X, 1e-20)
                D = g.binary_diff_coeffs * Pa
                A = x[:, None] * x[None, :] / D
                A -= np.diag(A.sum(1))
                k0 = int(np.argmax(g.Y))
                A[k0] = g.Y
                rhs = gx.copy()
                rhs[k0] = 0
                want = g.density * g.Y / Pa * np.linalg.solve(A, rhs)
                if Ta != Tb:
                    want = want - g.thermal_diff_coeffs * (Tb - Ta) / 1e-3 / g.T
                ctx.close(f'{model}:fluxes:Stefan-Maxwell', fl, want, 1e-6, 0., lab, scale=1e-7 * np.abs(want).max())
            ctx.outcome('value')


def failing(ctx):
    """setting a model which cannot be used leaves the phase and its transport model as they were"""
    for f, phase, bad in (('methane_co2_noCritProp.yaml', '', ('high-pressure', 'high-pressure-Chung', 'nonsense')), ('h2o2.yaml', '', ('nonsense', 'ionized-gas-CK')),
                          ('liquidvapor.yaml', 'nitrogen', ('mixture-averaged', 'multicomponent')), ('liquidvapor.yaml', 'water', ('mixture-averaged',)),
                          ('ch4_ion.yaml', '', ('nonsense',)), ('graphite.yaml', '', ('multicomponent',))):
        g = ct.Solution(f, phase)
        for Tt in (300., 600.):
            if g.n_species > 1:
                g.TPX = Tt, 2e5, np.arange(1, g.n_species + 1)
            else:
                g.TP = Tt, 2e5
            for b in bad:
                st, tm = (g.T, g.density, tuple(g.Y)), g.transport_model
                v = get(g, 'viscosity')
                ctx.trans(1)
                ctx.trace(1)
                try:
                    g.transport_model = b
                    ctx.outcome('accepted')
                    ctx.check(f'set:{b}:model', g.transport_model == b, f'{f} {phase}: model {g.transport_model}')
                    g.transport_model = tm
                except (ct.CanteraError, NotImplementedError):
                    ctx.outcome('refused')
                ctx.close(f'set:{b}:state', np.array([g.T, g.density, *g.Y]), np.array([st[0], st[1], *st[2]]), 1e-13, 1e-15, f'{f} {phase}: state after transport_model = {b}')
                ctx.eq(f'set:{b}:kept', g.transport_model, tm, f'{f} {phase}: transport model after transport_model = {b}')
                w = get(g, 'viscosity')
                ctx.check(f'set:{b}:viscosity', (v is None) == (w is None) and (v is None or abs(v - w) <= 1e-12 * abs(v)), f'{f} {phase} {b}: viscosity {v} then {w}')


def tasks(tier):
    out = []
    for n, m in POOL.items():
        out.append({'k': 'relations', 'm': n})
        k = 1 if n in ('dusty', 'water-transport', 'water-liquid', 'air-mix', 'real-mix') else 2 if n.startswith(('high', 'ion')) else 3 if tier == 'quick' else 8
        out += [{'k': 'words', 'm': n, 'part': i, 'of': k} for i in range(k)]
    return out + [{'k': 'failing'}, {'k': 'fluxes'}]


def run(task, ctx):
    if task['k'] == 'failing':
        return failing(ctx)
    if task['k'] == 'fluxes':
        return fluxes(ctx)
    m = POOL[task['m']]
    try:
        task['obj'] = m.make()
    except ct.CanteraError as e:
        ctx.skip(f'{m.name} not available')
        if not m.kw.get('optional'):
            ctx.violation(f'{m.name}:create', str(e)[-300:])
        return
    if task['k'] == 'relations':
        relations(m, ctx)
    else:
        words(m, ctx, task)
