"""C18: single-phase chemical equilibrium: constraints, element potentials, agreement of solvers and starting points, failure."""
import itertools, os
import numpy as np
import models, c19
import cantera as ct

PROPERTY, LEVEL = 'C18', 'exploration'
BUILD = ['py']
TECHNIQUE = ('exhaustive enumeration of equilibrium problems (phase x element content x starting point x T x P x constraint pair x solver x options) on the real solvers, each result '
             'judged by constraint, conservation and element-potential conditions evaluated with a separate phase object, and compared between solvers and starting points')
LEVEL_NOTE = 'Every problem of the stated lattice is solved. Problems a solver gives up on (it raises an error) are judged by the restoration rule only and counted as skips.'
RULE = 'A case is one equilibrium problem; it is non-trivial when the composition changed. States are the equilibrium states.'
ASSUMPTIONS = ['thermodynamic properties at given T, P and composition are right (C01, C05)', 'a phase at a minimum of the Gibbs energy is unique for ideal phases; agreement is only demanded there',
               'a solver may give up by raising an error']
BOUNDS = {'quick': '6 phases x 3-8 element contents x 2-3 starting points x 2-3 T x 2 P x 6 pairs x 4 solvers', 'thorough': 'more temperatures, pressures, and gri30, nasa9 and condensed solution phases'}

ATM = ct.one_atm
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'mix.yaml')
PAIRS = ('TP', 'HP', 'SP', 'TV', 'UV', 'SV')
SOLVERS = ('element_potential', 'vcs', 'gibbs', 'auto')
# phase: (file, name), element contents (each a list of starting compositions with equal elements), temperatures, pressures
PH = {
    'h2o2': (('h2o2.yaml', 'ohmech'), [['H2:2,O2:1', 'H2O:2', 'H:4,O:2'], ['H2:1,O2:2,AR:0.5', 'H2O2:1,O2:1,AR:0.5'], ['O2:1,AR:1', 'O:2,AR:1'], ['H2:1', 'H:2'], ['AR:1'],
                                       ['H2:2,O2:1,N2:3.76', 'OH:2,H:2,N2:3.76'], ['H2:1,O2:1e-8', 'H2:1,O:2e-8']], (400., 1200., 2500.), (ATM / 100, 20 * ATM)),
    'gas': ((F, 'gas'), [['CH4:1,O2:2,N2:7.52', 'CO2:1,H2O:2,N2:7.52'], ['CH4:1,O2:0.5,N2:1.88', 'CO:1,H2:2,N2:1.88'], ['CO2:1', 'CO:1,O:1'], ['CH4:1,O2:10', 'CO2:1,H2O:2,O2:8'], ['CO:1,H2O:1', 'CO2:1,H2:1']],
            (700., 1500., 2500.), (ATM / 10, 10 * ATM)),
    'ions': ((F, 'ions'), [['N2:1,O2:1', 'NO:2'], ['N2:1', 'N:2'], ['N2:1,O:0.2,NO+:0.2,e-:0.2', 'N2:1.1,O2:0.2', 'N2:1,O2:.1,N+:.2,e-:.2,O:.2']], (1500., 4000., 9000.), (ATM / 10, ATM)),
    'gri30': (('gri30.yaml', 'gri30'), [['CH4:1,O2:2,N2:7.52', 'CO2:1,H2O:2,N2:7.52'], ['C2H4:1,O2:1', 'CO:2,H2:2']], (1000., 2000.), (ATM,)),
    'real': ((F, 'gas2'), [['CH4:1,O2:2,N2:7.52', 'CO2:1,H2O:2,N2:7.52'], ['CO:1,H2O:1', 'CO2:1,H2:1']], (800., 1600.), (ATM, 50 * ATM)),
    'rk': ((F, 'rk'), [['c12h26:1,o2:18.5,n2:69.56', 'co2:12,h2o:13,n2:69.56'], ['h2:2,o2:1', 'h2o:2']], (900., 1800.), (ATM, 30 * ATM)),
    'air9': (('airNASA9.yaml', 'airNASA9'), [['N2:0.79,O2:0.21', 'N2:.58,NO:.42']], (2000., 6000.), (ATM,)),
}
SAME = dict(h='enthalpy_mass', s='entropy_mass', u='int_energy_mass', v='volume_mass', T='T', P='P')
IDEAL = ('h2o2', 'gas', 'ions', 'gri30', 'air9')


def load(name):
    return ct.Solution(*PH[name][0], transport_model=None)


def tasks(tier):
    out = []
    for name, (f, el, Ts, Ps) in PH.items():
        if tier == 'quick' and name in ('gri30', 'air9'):
            Ts = Ts[:1]
        else:
            Ts = tuple(Ts) + tuple((a + b) / 2 for a, b in zip(Ts, Ts[1:])) if tier != 'quick' else Ts
        for e in range(len(el)):
            for T in Ts:
                out.append(dict(ph=name, el=e, T=T))
    for name in MULTI:
        for j in range(len(MULTI[name][1])):
            out.append(dict(multi=name, state=j))
    for name in ('h2o2', 'gas'):
        out.append(dict(bad=name))
    out.sort(key=lambda t: t.get('ph') not in ('gri30', 'rk', 'ions'))
    return out


def elem(s):
    return np.array([s.elemental_mole_fraction(m) * sum(s.X * [sum(s.n_atoms(k, j) for j in range(s.n_elements)) for k in range(s.n_species)]) for m in range(s.n_elements)]) / s.mean_molecular_weight


def amat(s):
    return np.array([[s.n_atoms(k, m) for m in range(s.n_elements)] for k in range(s.n_species)])


def affinity(s, A):
    """Largest deviation of mu/RT from a combination of element potentials, over species present; lowest for absent."""
    mu = s.chemical_potentials / (ct.gas_constant * s.T)
    X = s.X
    A_ = A[:, np.abs(A).sum(0) > 0]
    A_ = A_[:, [m for m in range(A_.shape[1]) if (A_[X > 1e-14, m] != 0).any()]]
    w = np.sqrt(np.where(X > 1e-14, X, 0))
    lam = np.linalg.lstsq(A_ * w[:, None], mu * w, rcond=1e-12)[0]
    d = mu - A_ @ lam
    on = X > 1e-10
    return d, on


MULTI = {
    'gas-graphite': ([(F, 'gas'), (F, 'graphite')], [([1., 0.], ['CH4:1,O2:0.2']), ([1., 0.5], ['CO2:1,H2:1']), ([1., 0.], ['CH4:1,O2:2,N2:7.52']), ([.5, 2.], ['O2:1,N2:1']), ([1., 0.], ['CO:1']), ([1., 0.1], ['CO:1,H2O:1'])],
                     (600., 900., 1600.), (ATM, 10 * ATM)),
    'koh': (c19.KOH, c19.EQ['koh'][1][:2], (500., 800., 1300.), (ATM,)),
    'water': ([('h2o2.yaml', 'ohmech'), (F, 'liquid'), (F, 'ice')], [([1., 0.5, 0.], ['O2:1,AR:1,H2O:0.1']), ([1., 0., 0.2], ['H2:2,O2:1,AR:3']), ([1., 0., 0.], ['H2O:1,AR:0.1']), ([1., 0., 0.], ['H2O:1,AR:100'])], (250., 300., 370., 450.), (ATM, 10 * ATM)),
    'salt': ([(F, 'gas2'), (F, 'graphite'), (F, 'liquid')], [([1., 0.1, 0.], ['CO:1,H2O:1']), ([1., 0., 0.1], ['CO2:1,H2:3'])], (400., 700.), (ATM, 20 * ATM)),
}


def multi(name, j, ctx):
    """Mixtures: no phase present could react, no absent phase could form."""
    ph, states, Ts, Ps = MULTI[name]
    ns, comp = states[j]
    for T, P in itertools.product(Ts, Ps):
        got = []
        for xy, solver in itertools.product(('TP',) if ctx.tier == 'quick' else ('TP', 'HP', 'SP'), ('vcs', 'gibbs', 'auto')):
            sols = [ct.Solution(f, n, transport_model=None) for f, n in ph]
            ref = [ct.Solution(f, n, transport_model=None) for f, n in ph]
            sols[0].TPX = T, P, comp[0]
            m = ct.Mixture(list(zip(sols, ns)))
            m.T, m.P = T, P
            A = np.array([[m.n_atoms(k, e) for e in range(m.n_elements)] for k in range(m.n_species)])
            E0 = A.T @ m.species_moles
            ctx.ev()
            key, what = f'multi:{name}:{xy}:{solver}', f'{name} {ns} {comp} T={T} P={P:.6g} {xy} {solver}'
            try:
                m.equilibrate(xy, solver=solver, rtol=1e-9, max_steps=1000)
            except ct.CanteraError:
                ctx.skip(f'{name} {xy} {solver} gave up')
                if got and solver == 'auto' and xy == 'TP':
                    ctx.violation(f'{key}:auto', f'the automatic choice fails although {got[0][0]} succeeds: {what}')
                continue
            ctx.trans()
            ctx.trace()
            n = m.species_moles
            ctx.state((name, m.T, m.P, tuple(n)))
            ctx.close(f'{key}:elements', A.T @ n, E0, rtol=1e-7, atol=1e-9 * E0.max(), msg=f'elements: {what}')
            mu, on, valid, k = [], [], [], 0
            for r in ref:
                w = n[k:k + r.n_species]
                k += r.n_species
                r.TPX = m.T, m.P, w / w.sum() if w.sum() > 0 else r.X
                mu.extend(r.chemical_potentials / (ct.gas_constant * m.T))
                on.extend(w > 1e-9 * n.sum())
                # absent phases of several species have no composition to judge; single ones outside their range are not used
                ok = (r.n_species == 1 and r.min_temp <= m.T <= r.max_temp) or w.sum() > 1e-9 * n.sum()
                valid.extend([ok] * r.n_species)
            mu, on, valid = np.array(mu), np.array(on), np.array(valid)
            w = np.sqrt(np.where(on, np.maximum(n, 1e-4 * n.sum()), 0))
            B = A[:, [e for e in range(A.shape[1]) if (A[on, e] != 0).any()]]
            lam = np.linalg.lstsq(B * w[:, None], mu * w, rcond=1e-12)[0]
            d = mu - B @ lam
            ctx.check(f'{key}:affinity', np.abs(d[on]).max() < 2e-4, f'chemical potentials are no combination of element potentials: {what}: off by {np.abs(d[on]).max():.3g} RT for {m.species_names[int(np.argmax(np.abs(d) * on))]}')
            rank = np.linalg.matrix_rank(B[on])
            elements = [e for e in range(A.shape[1]) if (A[on, e] != 0).any()]
            for q in np.nonzero(~on & valid)[0]:
                # only species of the elements whose potentials are known
                row = A[q]
                if any(row[e] for e in range(A.shape[1]) if e not in elements) or np.linalg.matrix_rank(np.vstack([B[on], B[q]])) > rank:
                    continue
                ctx.check(f'{key}:absent', d[q] > -1e-4, f'{m.species_names[q]} is absent though forming it would lower the Gibbs energy (affinity {-d[q]:.4g} RT): {what}')
            ctx.outcome((name, xy, solver))
            if xy == 'TP':
                got.append((solver, n.copy()))
        # solvers differ in whether they use phases outside their range of temperatures
        if not all(q.n_species > 1 or q.min_temp <= T <= q.max_temp for q in ref):
            got = []
        for a, b in itertools.combinations(got, 2):
            ctx.close(f'multi:{name}:agree', b[1], a[1], rtol=1e-3, atol=1e-6, msg=f'{name} {ns} {comp} T={T} P={P:.6g}: moles of {b[0]} against {a[0]}')


def run(task, ctx):
    if 'multi' in task:
        return multi(task['multi'], task['state'], ctx)
    if 'bad' in task:
        return bad(task['bad'], ctx)
    name, T = task['ph'], task['T']
    f, el, Ts, Ps = PH[name]
    s, ref = load(name), load(name)
    A = amat(s)
    Z = s.charges
    start = el[task['el']]
    for P in Ps:
        for xy in PAIRS:
            x, y = ({'H': 'h', 'S': 's', 'U': 'u', 'V': 'v'}.get(c, c) for c in xy)
            found = []
            fixed = None
            for i, X0 in enumerate(start):
                # the first starting point fixes the constraints
                if fixed is None:
                    s.TPX = T, P, X0
                    fixed = (getattr(s, SAME[x]), getattr(s, SAME[y]))
                    init = s.state
                else:
                    try:
                        s.TPX = T, P, X0
                        setattr(s, *(('TD', (fixed[0], 1 / fixed[1])) if xy == 'TV' else (xy, fixed)))
                        init = s.state
                    except ct.CanteraError:
                        ctx.skip('starting point')
                        continue
                for solver in SOLVERS:
                    s.state = init
                    E0, q0 = A.T @ s.X / s.mean_molecular_weight, Z @ s.X / s.mean_molecular_weight
                    G0 = s.gibbs_mass / (ct.gas_constant * s.T)
                    ctx.ev()
                    key = f'{name}:{xy}:{solver}'
                    what = f'{name} {X0} T={T} P={P:.6g} {xy} {solver} (constraints of {start[0]})'
                    try:
                        s.equilibrate(xy, solver=solver, rtol=1e-9, max_steps=300)
                    except (ct.CanteraError, NotImplementedError) as e:
                        if solver == 'auto':
                            ctx.check(f'{key}:auto', not any(r[0].endswith(f'from {X0}') for r in found), f'the automatic choice fails although one of the solvers succeeds: {what}')
                        ctx.skip(f'{name} {xy} {solver} gave up')
                        ctx.close(f'{key}:restored', s.state, init, rtol=1e-10, atol=1e-16, msg=f'state after failed {what}')
                        continue
                    ctx.state((name, tuple(s.state)))
                    ctx.trans()
                    ctx.outcome((name, xy, solver))
                    ctx.trace()
                    if not ctx.check(f'{key}:finite', np.isfinite(s.state).all() and (s.X >= -1e-15).all() and abs(s.X.sum() - 1) < 1e-9, f'not a valid state: {what}: {s.state}'):
                        continue
                    final = s.state.copy()
                    # judged by a separate object
                    ref.TDX = s.T, s.density_mass, s.X
                    ctx.close(f'{key}:elements', A.T @ ref.X / ref.mean_molecular_weight, E0, rtol=1e-7, atol=2e-9 * E0.max(), msg=f'elements: {what}')
                    ctx.close(f'{key}:charge', Z @ ref.X / ref.mean_molecular_weight, q0, atol=1e-10 * E0.max(), msg=f'charge: {what}')
                    sc = dict(h=ct.gas_constant * s.T / s.mean_molecular_weight, u=ct.gas_constant * s.T / s.mean_molecular_weight, s=ct.gas_constant / s.mean_molecular_weight)
                    for c, v in zip((x, y), fixed):
                        ctx.close(f'{key}:hold:{c}', getattr(ref, SAME[c]), v, rtol=2e-7, scale=max(abs(v), sc.get(c, 0)), msg=f'{c}: {what}')
                    d, on = affinity(ref, A)
                    ctx.check(f'{key}:affinity', np.abs(d[on]).max() < AFF(name), f'chemical potentials are no combination of element potentials: {what}: species '
                              f'{ref.species_names[int(np.argmax(np.abs(d * on)))]} X={ref.X[int(np.argmax(np.abs(d * on)))]:.3g} off by {np.abs(d[on]).max():.3g} RT')
                    if xy == 'TP':
                        G1 = ref.gibbs_mass / (ct.gas_constant * ref.T)
                        ctx.check(f'{key}:gibbs', G1 <= G0 + 1e-8 * max(1 / ref.mean_molecular_weight, abs(G0)), f'Gibbs energy rose from {G0} to {G1}: {what}')
                    if solver == 'auto':
                        # the automatic choice is the first solver that succeeds
                        first = next(iter([r for r in found if r[0].endswith(f'from {X0}')]), None)
                        if first:
                            ctx.close(f'{key}:auto', s.state, first[4], rtol=1e-9, atol=1e-14, msg=f'result differs from that of {first[0]}: {what}')
                    found.append((f'{solver} from {X0}', final[0], ref.P, ref.X.copy(), final))
            if name in IDEAL:
                for a in found[1:]:
                    b = found[0]
                    ctx.close(f'{name}:{xy}:agree:TP', a[1:3], b[1:3], rtol=1e-5, msg=f'{name} {start[0]} T={T} P={P:.6g} {xy}: T, P of {a[0]} against {b[0]}')
                    ctx.close(f'{name}:{xy}:agree', a[3], b[3], rtol=2e-4, atol=1e-8, msg=f'{name} {start[0]} T={T} P={P:.6g} {xy}: mole fractions of {a[0]} against {b[0]}')


def AFF(name):
    return 1e-4


def bad(name, ctx):
    """Requests that cannot be served raise an error and leave the state alone."""
    s = load(name)
    for X0 in PH[name][1][0]:
        s.TPX = 1000., ATM, X0
        st = s.state
        for a, k in [(('XY',), {}), (('TT',), {}), (('P',), {}), (('',), {}), (('TP',), dict(solver='nothing')), (('TP',), dict(solver='')), (('HP',), dict(max_steps=1)), (('UV',), dict(max_steps=1)),
                     (('HP',), dict(max_steps=1, max_iter=1, solver='vcs')), (('HP',), dict(max_steps=1, max_iter=1, solver='gibbs')), (('SV',), dict(max_steps=1, solver='element_potential')), (('TP',), dict(max_steps=1, solver='element_potential'))]:
            ctx.ev()
            ctx.trace()
            try:
                s.equilibrate(*a, **k)
            except (ct.CanteraError, ValueError) as e:
                ctx.outcome(str(a) + str(k))
                ctx.close(f'{name}:refused:restored', s.state, st, rtol=1e-10, atol=1e-16, msg=f'state after refused equilibrate{a} {k}')
            else:
                ctx.check(f'{name}:refused', 'max_steps' in k, f'equilibrate{a} {k} accepted')
                s.state = st
