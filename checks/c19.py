"""C19: histories of a mixture of phases against mole-weighted sums; conservation in multiphase equilibration."""
import itertools, os
import numpy as np
import models
import cantera as ct
import clib
from clib import I, D, S, Z, P, fn, vec

PROPERTY, LEVEL = 'C19', 'model_checking'
BUILD = ['py']
TECHNIQUE = ('explicit exploration of all operation sequences up to a depth on the real MultiPhase object (through the C interface, and through the Python Mixture), '
             'against a reference state (T, P, moles and composition of each phase) whose properties are summed over separate phase objects; '
             'exhaustive enumeration of equilibration problems with element, charge and constraint balances')
LEVEL_NOTE = 'After every operation of a sequence every query is compared; the order of the queries is rotated, so that no query depends on another one having been made first.'
RULE = 'A case is a sequence of operations (or one equilibration problem); it is non-trivial when the mixture changed. States are distinct reference states.'
ASSUMPTIONS = ['properties of a single phase at given T, P and composition are those of a separate phase object (C01, C05)',
               'the mixture keeps its own T, P and compositions: changing a constituent phase object does not change the mixture']
BOUNDS = {'quick': '4 mixtures, 15-20 operations, depth 2 (C interface) and 2 (Python); 5 mixtures x states x 3 constraint pairs x 3 solvers', 'thorough': 'depth 3'}

ATM = ct.one_atm
R = models.R
KOH = [('KOH.yaml', n) for n in ('KOH_plasma', 'K_liquid', 'KOH_a', 'KOH_liquid', 'K2O_solid', 'ice', 'liquid_water')]
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'mix.yaml')
MIX = {
    'gas-graphite': dict(ph=[(F, 'gas'), (F, 'graphite')], n=[1., 0.5], comp=[['CH4:1,O2:2,N2:7.52', 'H2:1,CO:1,AR:1'], []], name='CH4:1.5, O2:0.25, C(gr):2'),
    'condensed': dict(ph=[(F, 'KOH'), (F, 'liquid'), (F, 'ice')], n=[1., 0.3, 0.], comp=[[''] * 2, [], []], name='H2O(s):2, KOH(L):0.5'),
    'ions': dict(ph=[(F, 'ions'), (F, 'gas2'), (F, 'graphite')], n=[1., 0.2, 0.1], comp=[['N2:1,O:0.2,NO+:0.2,e-:0.1', 'N2:1,O2:1'], ['CO2:1,H2:1', 'N2:1'], []], name='NO+:0.5, e-:0.4, C(gr):2'),
    'salt': dict(ph=[(R + '/test/data/HMW_NaCl.yaml', 'NaCl_electrolyte_complex_shomate'), (R + '/test/data/thermo-models.yaml', 'NaCl(s)'), (F, 'gas')], n=[2., 0.5, 0.25],
                 comp=[['H2O(L):0.8,Na+:0.1,Cl-:0.1', 'H2O(L):0.9,Na+:0.04,Cl-:0.05,H+:0.01'], [], ['H2O:1', 'O2:1,H2:1']], name='H2O(L):5, Na+:0.5, Cl-:0.5, O2:1'),
    'two-gases': dict(ph=[(F, 'gas'), (F, 'gas2')], n=[0.7, 0.3], comp=[['H2:2,O2:1,AR:3', 'O2:1,H:0.1'], ['CH4:1,O2:2', 'N2:1']], name='AR:1, OH:2'),
}
TS, PS = (700., 950.), (2e5, 8e4)
TSALT, PSALT = (310., 340.), (2e5, 5e5)


def solutions(name):
    return [ct.Solution(f, n, transport_model=None) for f, n in MIX[name]['ph']]


class Ref:
    """T, P, moles and compositions; properties from separate phase objects."""

    def __init__(self, name, sols):
        self.name, self.s = name, sols
        self.n = list(MIX[name]['n'])
        self.X = [s.X.copy() for s in sols]
        # rule of addPhase: the first phase whose temperature is adopted
        self.T, self.P = 298.15, None
        self.cache = {}

    def key(self):
        return (self.T, self.P, tuple(self.n), tuple(x.tobytes() for x in self.X))

    def values(self):
        k = self.key()
        if k in self.cache:
            return self.cache[k]
        o = dict(h=0., s=0., g=0., cp=0., v=0., mu=[], sm=[], X=[], q=[], el={})
        for s, x, n in zip(self.s, self.X, self.n):
            s.TPX = self.T, self.P, x
            o['mu'].extend(s.chemical_potentials)
            o['sm'].extend(n * s.X)
            o['X'].extend(s.X)
            o['q'].append(ct.faraday * n * float(np.dot(s.charges, s.X)))
            if n > 0:
                o['h'] += n * s.enthalpy_mole
                o['s'] += n * s.entropy_mole
                o['g'] += n * s.gibbs_mole
                o['cp'] += n * s.cp_mole
                o['v'] += n * s.volume_mole
            for m in range(s.n_elements):
                e = s.element_names[m]
                o['el'][e] = o['el'].get(e, 0.) + n * sum(s.n_atoms(j, m) * s.X[j] for j in range(s.n_species))
        self.cache[k] = o
        return o


def api():
    g = {}
    for n, r, *a in [('mix_new', I), ('mix_del', I, I), ('mix_addPhase', I, I, I, D), ('mix_init', I, I), ('mix_updatePhases', I, I), ('mix_nElements', Z, I),
                     ('mix_elementIndex', Z, I, S), ('mix_speciesIndex', Z, I, I, I), ('mix_nSpecies', Z, I), ('mix_setTemperature', I, I, D), ('mix_temperature', D, I),
                     ('mix_minTemp', D, I), ('mix_maxTemp', D, I), ('mix_charge', D, I), ('mix_phaseCharge', D, I, I), ('mix_setPressure', I, I, D), ('mix_pressure', D, I),
                     ('mix_nAtoms', D, I, I, I), ('mix_nPhases', Z, I), ('mix_phaseMoles', D, I, I), ('mix_setPhaseMoles', I, I, I, D), ('mix_setMoles', I, I, Z, P),
                     ('mix_setMolesByName', I, I, S), ('mix_speciesMoles', D, I, I), ('mix_elementMoles', D, I, I), ('mix_getChemPotentials', I, I, Z, P),
                     ('mix_enthalpy', D, I), ('mix_entropy', D, I), ('mix_gibbs', D, I), ('mix_cp', D, I), ('mix_volume', D, I), ('mix_speciesPhaseIndex', Z, I, I),
                     ('mix_moleFraction', D, I, I), ('soln_newSolution', I, S, S, S), ('soln_thermo', I, I), ('thermo_setTemperature', I, I, D), ('thermo_setPressure', I, I, D),
                     ('thermo_setMoleFractionsByName', I, I, S), ('thermo_set_TP', I, I, P), ('thermo_temperature', D, I), ('ct_resetStorage', I)]:
        g[n] = fn(n, r, *a)
    return g


class CMix:
    """Mixture behind the C interface."""

    def __init__(self, name):
        self.a = a = api()
        m = MIX[name]
        self.th = []
        for f, n in m['ph']:
            h = a['soln_newSolution'](f.encode(), n.encode(), b'none')
            assert h >= 0, clib.err()
            self.th.append(a['soln_thermo'](h))
        self.m = a['mix_new']()
        for t, n in zip(self.th, m['n']):
            assert a['mix_addPhase'](self.m, t, n) == 0, clib.err()
        a['mix_init'](self.m)

    def ok(self, r):
        if r < 0:
            raise RuntimeError(clib.err())

    def setT(self, t):
        self.ok(self.a['mix_setTemperature'](self.m, t))

    def setP(self, p):
        self.ok(self.a['mix_setPressure'](self.m, p))

    def phase_moles(self, i, v):
        self.ok(self.a['mix_setPhaseMoles'](self.m, i, v))

    def moles(self, v):
        w, p = vec(v)
        self.ok(self.a['mix_setMoles'](self.m, len(w), p))

    def moles_by_name(self, s):
        self.ok(self.a['mix_setMolesByName'](self.m, s.encode()))

    def ext(self, i, T, p, X):
        a = self.a
        if X:
            self.ok(a['thermo_setMoleFractionsByName'](self.th[i], X.encode()))
        w, q = vec([T, p])
        self.ok(a['thermo_set_TP'](self.th[i], q))

    def update(self):
        self.ok(self.a['mix_updatePhases'](self.m))

    def query(self, q, N, E):
        a, m = self.a, self.m
        if q == 'mu':
            w, p = vec(np.zeros(N))
            self.ok(a['mix_getChemPotentials'](m, N, p))
            return w
        if q in ('h', 's', 'g', 'cp', 'v', 'T', 'P', 'Q'):
            return a['mix_' + dict(h='enthalpy', s='entropy', g='gibbs', cp='cp', v='volume', T='temperature', P='pressure', Q='charge')[q]](m)
        if q == 'sm':
            return [a['mix_speciesMoles'](m, k) for k in range(N)]
        if q == 'X':
            return [a['mix_moleFraction'](m, k) for k in range(N)]
        if q == 'n':
            return [a['mix_phaseMoles'](m, i) for i in range(len(self.th))]
        if q == 'q':
            return [a['mix_phaseCharge'](m, i) for i in range(len(self.th))]
        if q == 'el':
            return [a['mix_elementMoles'](m, a['mix_elementIndex'](m, e.encode())) for e in E]


class PMix:
    """Python Mixture."""

    def __init__(self, name):
        m = MIX[name]
        self.s = solutions(name)
        self.m = ct.Mixture(list(zip(self.s, m['n'])))

    def setT(self, t):
        self.m.T = t

    def setP(self, p):
        self.m.P = p

    def phase_moles(self, i, v):
        self.m.set_phase_moles(i if i % 2 else self.s[i].name, v)

    def moles(self, v):
        self.m.species_moles = list(v)

    def moles_by_name(self, s):
        self.m.species_moles = s

    def ext(self, i, T, p, X):
        self.s[i].TPX = (T, p, X) if X else (T, p, self.s[i].X)

    def update(self):
        self.m.report()

    def query(self, q, N, E):
        m = self.m
        if q == 'mu':
            return m.chemical_potentials
        if q in ('T', 'P', 'Q'):
            return m.T if q == 'T' else m.P if q == 'P' else m.charge
        if q == 'sm':
            return m.species_moles
        if q == 'n':
            return m.phase_moles()
        if q == 'q':
            return [m.phase_charge(i) for i in range(m.n_phases)]
        if q == 'el':
            return [m.element_moles(e) for e in E]


QC = ('v', 'n', 'mu', 'h', 'sm', 's', 'g', 'X', 'cp', 'el', 'q', 'Q', 'T', 'P')
QP = ('mu', 'n', 'sm', 'el', 'q', 'Q', 'T', 'P')



def spvec(name, sols, which):
    """Species mole vectors: all phases, one empty phase, unnormalised."""
    v = []
    for i, s in enumerate(sols):
        c = MIX[name]['comp'][i]
        if c:
            s.TPX = s.T, s.P, c[which % 2]
            x = s.X.copy()
        else:
            x = np.ones(1)
        v.append((0.0 if which == 2 and i == (0 if len(sols) == 1 else 1) or which == 1 and i == len(sols) - 1 else 0.37 + 0.2 * i) * (3 if which == 1 else 1) * x)
    return v


def ops(name, sols):
    ts, ps = (TSALT, PSALT) if name == 'salt' else (TS, PS)
    out = [('T', t) for t in ts] + [('P', p) for p in ps]
    for i in range(min(3, len(sols))):
        out += [('n', i, v) for v in (0., 1.75)]
    out += [('moles', w) for w in range(3)]
    out += [('name', MIX[name]['name'])]
    out += [('ext', 0, ts[0] + 30, ps[1] * 3, MIX[name]['comp'][0][1]), ('ext', 1, ts[1] - 20, ps[0] * 2, (MIX[name]['comp'][1] or [''])[0])]
    out += [('update',), ('query', 'v'), ('query', 'mu')]
    return out


def apply(m, ref, op, sols, ctx, ext):
    k = op[0]
    n0 = [0]
    for s in sols:
        n0.append(n0[-1] + s.n_species)
    if k == 'T':
        m.setT(op[1])
        ref.T = op[1]
    elif k == 'P':
        m.setP(op[1])
        ref.P = op[1]
    elif k == 'n':
        m.phase_moles(op[1], op[2])
        ref.n[op[1]] = op[2]
    elif k in ('moles', 'name'):
        if k == 'moles':
            v = spvec(ref.name, sols, op[1])
            m.moles(np.concatenate(v))
        else:
            d = {a.split(':')[0].strip(): float(a.split(':')[1]) for a in op[1].split(',')}
            m.moles_by_name(op[1])
            v = [np.array([d.get(x, 0.) for x in s.species_names]) for s in sols]
        for i, w in enumerate(v):
            ref.n[i] = w.sum()
            if w.sum() > 0:
                ref.X[i] = w / w.sum()
            elif ext.get(i) is not None:
                # an emptied phase keeps the composition of its phase object
                ref.X[i] = np.array(m.query('X', n0[-1], None))[n0[i]:n0[i + 1]] if hasattr(m, 'a') else None
    elif k == 'ext':
        m.ext(*op[1:])
        ext[op[1]] = op[4] or None
    elif k == 'update':
        m.update()
        ext.clear()


def compare(m, ref, ctx, key, hist, queries, rot, N, E):
    o = ref.values()
    sc = dict(h=abs(o['h']) + 8314 * ref.T, s=abs(o['s']) + 8314, g=abs(o['g']) + 8314 * ref.T, cp=abs(o['cp']) + 8314, mu=8314 * ref.T, q=ct.faraday, Q=ct.faraday)
    qs = queries[rot % len(queries):] + queries[:rot % len(queries)]
    ok = True
    for q in qs:
        got = np.array(m.query(q, N, E), float)
        want = {'T': ref.T, 'P': ref.P, 'n': ref.n, 'Q': sum(o['q']), 'el': [o['el'][e] for e in E]}.get(q)
        if want is None:
            want = o[q]
        want = np.array(want, float)
        s_ = sc.get(q)
        if q == 'mu':
            # species that are absent have chemical potentials at the floor of the logarithm
            s_ = np.maximum(np.abs(want), 8314 * ref.T)
        ok &= ctx.close(f'{key}:{q}', got, want, rtol=1e-8, atol=1e-13, scale=s_, msg=f'{q} after {hist} (first query: {qs[0]})')
        if not ok:
            break
    return ok


def start(name, kind, ref_sols, X0):
    m = (CMix if kind == 'C' else PMix)(name)
    ref = Ref(name, ref_sols)
    ref.X = [x.copy() for x in X0]
    N = sum(s.n_species for s in ref_sols)
    ref.T, ref.P = float(m.query('T', N, [])), float(m.query('P', N, []))
    return m, ref


def tasks(tier):
    out = []
    for name in EQ:
        for j in reversed(range(len(EQ[name][1]))):
            out.append(dict(eq=name, state=j))
    for name in MIX:
        nops = len(ops(name, solutions(name)))
        for kind in 'CP':
            for i in range(nops):
                out.append(dict(mix=name, kind=kind, first=i, depth=2 if tier == 'quick' else 3))
    for name in MIX:
        out.append(dict(index=name))
    return out


def run(task, ctx):
    if 'index' in task:
        return index(task['index'], ctx)
    if 'eq' in task:
        return equil(task['eq'], task['state'], ctx)
    name, kind = task['mix'], task['kind']
    rs, aux = solutions(name), solutions(name)
    all_ops = ops(name, aux)
    N = sum(s.n_species for s in rs)
    E = sorted({e for s in rs for e in s.element_names})
    cache = {}
    X0 = [q.X.copy() for q in rs]
    api()['ct_resetStorage']() if kind == 'C' else None
    for tail in itertools.product(range(len(all_ops)), repeat=task['depth'] - 1):
        seq = [all_ops[task['first']]] + [all_ops[i] for i in tail]
        if sum(o[0] in ('query', 'update') for o in seq) > 1:
            continue
        if kind == 'C':
            api()['ct_resetStorage']()
        m, ref = start(name, kind, rs, X0)
        ref.cache = cache
        ext = {}
        rot = task['first'] + sum(tail)
        # a common starting state
        ts, ps = (TSALT, PSALT) if name == 'salt' else (TS, PS)
        if ref.T < 250:
            m.setT(600.)
            ref.T = 600.
        for n, op in enumerate(seq):
            try:
                if op[0] == 'query':
                    if kind == 'C' or op[1] != 'v':
                        m.query(op[1], N, E)
                else:
                    apply(m, ref, op, aux, ctx, ext)
            except Exception as x:
                ctx.violation(f'{kind}:{op[0]}', f'{name} {seq[:n + 1]}: {type(x).__name__}: {str(x)[:400]}')
                break
            ctx.trans()
            if any(x is None for x in ref.X):
                ctx.skip('composition of an emptied phase')
                break
            ctx.state((name, ref.key()))
            if n == len(seq) - 1 or n == 0 and not any(tail):
                ctx.ev()
                if not compare(m, ref, ctx, f'{kind}:{name}:{op[0]}', f'{seq[:n + 1]} of {name}', list(QC if kind == 'C' else QP), rot, N, E):
                    break
        ctx.trace()


def index(name, ctx):
    """Species, phase and element indices."""
    s = solutions(name)
    m = PMix(name).m
    api()['ct_resetStorage']()
    c = CMix(name)
    a = c.a
    k = 0
    names = []
    for i, p in enumerate(s):
        for j in range(p.n_species):
            ctx.eq('index:species', (m.species_index(i, j), m.species_index(p.name, p.species_name(j)), m.species_name(k), a['mix_speciesIndex'](c.m, j, i), a['mix_speciesPhaseIndex'](c.m, k)),
                   (k, k, p.species_name(j), k, i), f'{name}: species {p.species_name(j)}')
            for e in {e for q in s for e in q.element_names}:
                w = p.n_atoms(j, e) if e in p.element_names else 0
                me = m.element_index(e)
                ctx.eq('index:atoms', (m.n_atoms(k, me), a['mix_nAtoms'](c.m, k, a['mix_elementIndex'](c.m, e.encode()))), (w, w), f'{name}: {e} in {p.species_name(j)}')
            names.append(p.species_name(j))
            k += 1
        ctx.eq('index:phase', (m.phase_index(p.name), m.phase(i).name, m.phase_names[i]), (i, p.name, p.name), name)
    ctx.eq('index:count', (m.n_species, m.n_phases, m.n_elements, a['mix_nSpecies'](c.m), a['mix_nPhases'](c.m), a['mix_nElements'](c.m)),
           (k, len(s), len({e for q in s for e in q.element_names})) * 2, name)
    ctx.eq('index:names', m.species_names, names, name)
    sol = [p for p in s if p.n_species > 1]
    if sol:
      ctx.close('index:limits', [m.min_temp, m.max_temp, a['mix_minTemp'](c.m), a['mix_maxTemp'](c.m)], [max(p.min_temp for p in sol), min(p.max_temp for p in sol)] * 2, rtol=1e-12, msg=name)
    for bad in (lambda: m.species_index(0, 'nothing'), lambda: m.species_index(99, 0), lambda: m.element_index('Zz'), lambda: m.element_index(99), lambda: m.phase_index('none'), lambda: m.phase_index(99),
                lambda: m.species_index(0, 999), lambda: m.species_name(999) , lambda: m.n_atoms(999, 0), lambda: m.n_atoms(0, 99), lambda: m.phase(99), lambda: m.set_phase_moles(99, 1.),
                lambda: m.phase_moles(99), lambda: m.phase_charge(99), lambda: m.element_moles('Zz')):
        ctx.ev()
        try:
            v = bad()
            ctx.violation('index:bad', f'{name}: an index out of range was accepted (gave {v!r})')
        except (ct.CanteraError, IndexError, ValueError, KeyError):
            pass
    ctx.trace()


# equilibration problems: phases, initial (moles by phase, compositions), T, P
EQ = {
    'gas-graphite': ([('gri30.yaml', 'gri30'), ('graphite.yaml', 'graphite')],
                     [([1., 0.], ['CH4:1,O2:0.2']), ([1., 0.5], ['CO2:1,H2:1']), ([1., 0.], ['CH4:1,O2:2,N2:7.52']), ([.5, 2.], ['O2:1,N2:1'])], (900., 1600.), (ATM, 10 * ATM)),
    'koh': (KOH, [([1., 0.2, 0.1, 0., 0.3, 0., 0.], ['K:1,H2:2,O2:0.4']), ([1., 0, 0, 0., 0.5, 0., 0.], ['K:1,H2:2,O2:0.4,H2O:0.01']), ([0.1, 0, 0, 0., 0., 0.3, 0.], ['KOH:1,H2O:3'])], (500., 1300., 2500.), (ATM,)),
    'water': ([('h2o2.yaml', 'ohmech'), ('KOH.yaml', 'liquid_water'), ('KOH.yaml', 'ice')], [([1., 0.5, 0.], ['O2:1,AR:1,H2O:0.1']), ([1., 0., 0.2], ['H2:2,O2:1,AR:3']), ([1., 0., 0.], ['H2O:1,AR:0.1'])], (300., 400.), (ATM,)),
    'gas': ([('gri30.yaml', 'gri30')], [([2.], ['CH4:1,O2:2,N2:7.52']), ([1.], ['C2H4:1,O2:2,AR:1'])], (1000., 2200.), (ATM, 20 * ATM)),
}


def equil(name, j, ctx):
    ph, states, Ts, Ps = EQ[name]
    ns, comp = states[j]
    results = {}
    for T, p in itertools.product(Ts, Ps):
        for xy, solver in itertools.product(('TP', 'HP', 'SP'), ('auto', 'vcs', 'gibbs')):
            sols = [ct.Solution(f, n, transport_model=None) for f, n in ph]
            sols[0].TPX = T, p, comp[0]
            m = ct.Mixture(list(zip(sols, ns)))
            m.T, m.P = T, p
            E = [m.element_moles(e) for e in range(m.n_elements)]
            q0 = m.charge
            ref = [ct.Solution(f, n, transport_model=None) for f, n in ph]

            def total(prop):
                o, k = 0., 0
                sm = m.species_moles
                for r in ref:
                    w = sm[k:k + r.n_species]
                    k += r.n_species
                    if w.sum() > 0:
                        r.TPX = m.T, m.P, w / w.sum()
                        o += w.sum() * getattr(r, prop)
                return o
            H0, S0, G0 = total('enthalpy_mole'), total('entropy_mole'), total('gibbs_mole')
            ctx.ev()
            key = f'equil:{name}:{xy}:{solver}'
            what = f'{name} {ns} {comp} T={T} P={p} {xy} {solver}'
            try:
                m.equilibrate(xy, solver=solver, rtol=1e-9, max_steps=300)
            except ct.CanteraError as x:
                ctx.skip(f'{xy} {solver} failed')
                if solver == 'auto':
                    ctx.close(f'{key}:failed', [m.T, m.P] + [m.element_moles(e) for e in range(m.n_elements)], [T, p] + E, rtol=1e-9, atol=1e-13, msg=f'state after failure of {what}')
                continue
            E1 = np.array([m.element_moles(e) for e in range(m.n_elements)])
            ctx.close(f'{key}:elements', E1, E, rtol=1e-8, atol=1e-10 * max(np.abs(E)), msg=f'element moles {[m.element_index]and ""} {what}')
            ctx.close(f'{key}:charge', m.charge, q0, rtol=1e-8, atol=1e-9 * ct.faraday * max(np.abs(E)), msg=f'charge, {what}')
            sm = m.species_moles
            ctx.check(f'{key}:negative', (sm >= -1e-12).all() and np.isfinite(sm).all(), f'negative moles {sm.min()}: {what}')
            ctx.close(f'{key}:P', m.P, p, rtol=1e-12, msg=f'pressure, {what}')
            R_ = ct.gas_constant
            nt = sum(ns)
            if xy == 'TP':
                ctx.close(f'{key}:T', m.T, T, rtol=1e-12, msg=f'temperature, {what}')
                G1 = total('gibbs_mole')
                ctx.check(f'{key}:gibbs', G1 <= G0 + 1e-7 * R_ * T * nt, f'Gibbs energy rose by {(G1 - G0) / (R_ * T * nt)} nRT: {what}')
            elif xy == 'HP':
                ctx.close(f'{key}:H', total('enthalpy_mole'), H0, rtol=1e-6, scale=max(abs(H0), R_ * T * nt), msg=f'enthalpy, {what}')
            else:
                ctx.close(f'{key}:S', total('entropy_mole'), S0, rtol=1e-6, scale=max(abs(S0), R_ * nt), msg=f'entropy, {what}')
            results.setdefault((T, p, xy), []).append((solver, m.T, sm / nt))
            ctx.outcome((name, xy, solver))
            ctx.trace()
    lim = [ct.Solution(f, n, transport_model=None) for f, n in ph]
    for k, rs in results.items():
        # solvers differ in whether they use phases outside their range of temperatures
        rs = [r for r in rs if all(q.n_species > 1 or q.min_temp <= r[1] <= q.max_temp for q in lim)]
        for a, b in itertools.combinations(rs, 2):
            ctx.close(f'equil:{name}:agree', b[2], a[2], rtol=1e-3, atol=2e-6, msg=f'{name} {ns} {comp} {k}: moles of {b[0]} against {a[0]}')
            ctx.close(f'equil:{name}:agreeT', b[1], a[1], rtol=1e-5, msg=f'{name} {ns} {comp} {k}: T of {b[0]} against {a[0]}')
