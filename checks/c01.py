"""C01: thermodynamic properties depend on the current state only (history exploration vs fresh objects)."""
import itertools
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C01', 'model_checking'
BUILD = ['py']
TECHNIQUE = 'exhaustive exploration of operation words on the real phase objects against a fresh-object oracle (explicit-state, bounded depth)'
LEVEL_NOTE = 'Every word over the model alphabet up to the stated depth is executed on the real code; the reference is the same code in a fresh object, so a formula wrong in both is out of scope here (see C05).'
RULE = ('every word (full state, query|nothing|use of a second object, state change, query) over the alphabet of the model, '
        'and every word (state, query group, change, change, query group); each query result is compared with a newly created phase '
        'brought to the reported T, density or P, composition and potential')
ASSUMPTIONS = ['a freshly created phase set once to the reported state is the reference for that state',
               'native state variables (T, D or P, X, electric potential; Te for plasma) define the state']
BOUNDS = {'quick': 'word depth 4 with single getters (lattice of all T,P,X start states; 2 start states for slow models), depth 5 with 6 query groups',
          'thorough': 'depth 4 with single getters over all start states for every model, depth 7 with query groups'}

SCALAR = ['enthalpy_mass', 'enthalpy_mole', 'int_energy_mass', 'int_energy_mole', 'entropy_mass', 'entropy_mole', 'gibbs_mass',
          'gibbs_mole', 'cp_mass', 'cp_mole', 'cv_mass', 'cv_mole', 'P', 'density', 'density_mole', 'volume_mass', 'volume_mole',
          'isothermal_compressibility', 'thermal_expansion_coeff', 'sound_speed', 'mean_molecular_weight']
VECTOR = ['chemical_potentials', 'electrochemical_potentials', 'activities', 'activity_coefficients',
          'partial_molar_enthalpies', 'partial_molar_entropies', 'partial_molar_int_energies', 'partial_molar_cp',
          'partial_molar_volumes', 'standard_enthalpies_RT', 'standard_entropies_R', 'standard_int_energies_RT',
          'standard_gibbs_RT', 'standard_cp_R', 'Y', 'concentrations']
PURE = ['P_sat', 'T_sat', 'critical_density', 'critical_temperature']
PLASMA = ['Te', 'Pe', 'mean_electron_energy', 'electron_energy_distribution']
GROUPS = [['enthalpy_mole', 'cp_mole', 'int_energy_mole', 'cv_mole'], ['entropy_mole', 'gibbs_mole'],
          ['chemical_potentials', 'activities', 'activity_coefficients', 'electrochemical_potentials'],
          ['standard_gibbs_RT', 'standard_enthalpies_RT', 'standard_cp_R', 'standard_entropies_R', 'standard_int_energies_RT'],
          ['partial_molar_enthalpies', 'partial_molar_volumes', 'partial_molar_entropies', 'partial_molar_cp', 'partial_molar_int_energies'],
          ['density', 'P', 'thermal_expansion_coeff', 'isothermal_compressibility', 'sound_speed']]


def getters(m):
    g = SCALAR + VECTOR
    if m.kw.get('pure'):
        g = g + PURE
    if m.kw.get('plasma'):
        g = g + PLASMA
    if m.kw.get('surf'):
        g = g + ['coverages']
    return g


def get(p, name):
    try:
        v = getattr(p, name)
        return np.array(v, dtype=float) if not isinstance(v, float) else v
    except (ct.CanteraError, NotImplementedError):
        return None


def scale_of(name, p, m):
    T = p.T
    if name.startswith('partial_molar_vol'):
        return 1e-3
    if name in ('chemical_potentials', 'electrochemical_potentials') or name.endswith('enthalpies') or name.endswith('int_energies'):
        return 8314. * T
    if name.endswith('_mole') and not name.startswith(('density', 'volume')):
        return 8314. * T if name[0] in 'eig' and name != 'entropy_mole' else 8314.
    if name.endswith('_mass') and name != 'volume_mass':
        return (8314. * T if name[0] in 'eig' and name != 'entropy_mass' else 8314.) / p.mean_molecular_weight
    if name in ('partial_molar_entropies', 'partial_molar_cp'):
        return 8314.
    if name.startswith('standard_'):
        return 1.0
    if name in ('thermal_expansion_coeff',):
        return 1e-3
    return 0.0


class Sys:
    """The phase object under exploration, a second object of the same model, and the memo of references."""

    def __init__(self, m, ctx):
        self.m, self.ctx = m, ctx
        self.p = m.make()
        self.other = None
        self.tp = self.p._native_state[1] == 'P'
        self.comps = models.comps(m, m.make())
        self.names = getters(m)
        self.memo = {}
        self.reffail = 0

    def key(self, p=None):
        p = p or self.p
        ex = (p.Te, p.mean_electron_energy, p.electron_energy_distribution_type) if self.m.kw.get('plasma') else ()
        return (p.T, p.P if self.tp else p.density, p.X.tobytes(), p.electric_potential) + ex

    def ref(self):
        p = self.p
        k = self.key()
        r = self.memo.get(k)
        if r is None:
            f = self.m.make()
            if self.m.kw.get('plasma'):
                f.electron_energy_distribution_type = p.electron_energy_distribution_type
                if p.electron_energy_distribution_type == 'isotropic':
                    f.Te = p.Te
            if self.tp:
                f.TPX = k[0], k[1], np.frombuffer(k[2])
            else:
                f.TDX = k[0], k[1], np.frombuffer(k[2])
            if self.m.kw.get('plasma') and p.electron_energy_distribution_type == 'isotropic':
                f.Te = p.Te
            if k[3]:
                f.electric_potential = k[3]
            r = {}
            for n in self.names:
                r[n] = get(f, n)
            r['_scale'] = {n: scale_of(n, f, self.m) for n in self.names}
            self.memo[k] = r
            self.ctx.state((self.m.name, k))
        return r

    # --- operations ---
    def setters(self):
        m, p = self.m, self.p
        S = []
        Ts, Ps, C = m.T, m.P, self.comps
        S.append(('TP1', lambda: setattr(p, 'TP', (Ts[0], Ps[-1]))))
        S.append(('TP2', lambda: setattr(p, 'TP', (Ts[-1], Ps[0]))))
        for i, T in enumerate(Ts):
            S.append((f'T{i}', lambda T=T: setattr(p, 'TP', (T, None))))
        for i, P in enumerate(Ps):
            S.append((f'P{i}', lambda P=P: setattr(p, 'TP', (None, P))))
        if len(C) > 1:
            for i, c in enumerate(C):
                S.append((f'X{i}', lambda c=c: setattr(p, 'X', c)))
            S.append(('TDX', lambda: setattr(p, 'TPX', (Ts[-1], Ps[-1], C[-1]))))
            w = self.w
            Y = [(c * w) / (c * w).sum() for c in C]
            if self.m.name != 'compound-lattice':
                S.append(('Y', lambda: setattr(p, 'Y', Y[-1])))
        if not self.tp:
            for i, T in enumerate(Ts[:2]):
                S.append((f'Tv{i}', lambda T=T: setattr(p, 'TD', (T, None))))
            S.append(('D', lambda: setattr(p, 'TD', (None, p.density * 1.1))))
        def phi():
            p.electric_potential = 0.25 if p.electric_potential == 0 else 0.0
        S.append(('phi', phi))
        if m.kw.get('plasma'):
            S.append(('Te', lambda: setattr(p, 'Te', 12000. if p.electron_energy_distribution_type == 'isotropic' else p.Te)))
        saved = self.saved
        S.append(('restore', lambda: setattr(p, 'state', saved)))
        for pair in ('HP', 'SP', 'UV', 'SV'):
            tgt = self.targets.get(pair)
            if tgt is not None:
                S.append((pair, lambda pair=pair, tgt=tgt: setattr(p, pair, tgt)))
        return S

    def prepare(self):
        m = self.m
        f = m.make()
        f.TPX = m.T[-1], m.P[0], self.comps[0]
        self.w = f.molecular_weights.copy()
        self.saved = f.state.copy()
        # property-pair targets computed by a fresh object; only pairs the model supports from a nearby start
        self.targets = {}
        for pair in ('HP', 'SP', 'UV', 'SV'):
            try:
                f = m.make()
                f.TPX = m.T[0], m.P[0], self.comps[0]
                f.TP = m.T[0] * 1.03, m.P[0]
                tgt = getattr(f, pair)
                f.TP = m.T[0], m.P[0]
                setattr(f, pair, tgt)
                self.targets[pair] = tgt
            except (ct.CanteraError, NotImplementedError, AttributeError):
                pass

    def starts(self):
        m = self.m
        return [(T, P, c) for c in self.comps for T in m.T for P in m.P]

    def reset(self, s):
        self.p.electric_potential = 0.0
        self.p.TPX = s
        if self.m.kw.get('plasma') and self.p.electron_energy_distribution_type == 'isotropic':
            self.p.Te = s[0]

    def query(self, names, word):
        ctx, p = self.ctx, self.p
        before = self.key()
        for n in names:
            v = get(p, n)
            ctx.ev()
            r = self.ref()
            w = r[n]
            if (v is None) != (w is None):
                ctx.violation(f'{self.m.name}:{n}', f'after {word}: query {"fails" if v is None else "works"}, on a fresh phase at the same state it does not', dict(word=word))
                continue
            if v is None:
                continue
            if type(v) is float and v == w:
                continue
            ctx.close(f'{self.m.name}:{n}', v, w, rtol=self.m.rtol, scale=r['_scale'][n] or None, atol=1e-300,
                      msg=f'{self.m.name}.{n} after {word} differs from a fresh phase at the same state', data=dict(word=word))
        after = self.key()
        if before != after:
            ctx.close(f'{self.m.name}:query-changes-state:{names[0]}', np.r_[after[0], after[1], np.frombuffer(after[2])],
                      np.r_[before[0], before[1], np.frombuffer(before[2])], rtol=1e-12, msg=f'{self.m.name}: state changed by querying {names} after {word}')


def tasks(tier):
    out = []
    for m in models.POOL:
        nparts = 3 if m.heavy or m.kw.get('pure') or len(m.T) > 2 else 1
        if tier == 'thorough':
            nparts = 4
        for part in range(nparts):
            out.append(dict(model=m.name, part=part, nparts=nparts))
    # slow ones first
    out.sort(key=lambda t: -(models.BY[t['model']].heavy or models.BY[t['model']].rtol == 1e-7))
    return out


def run(task, ctx):
    m = models.BY[task['model']]
    s = Sys(m, ctx)
    s.prepare()
    p = s.p
    setters = s.setters()
    starts = s.starts()
    Q = s.names
    # drop getters the model never supports (still compared above through the reference being None on both sides)
    f = m.make()
    f.TPX = starts[0]
    Q = [n for n in Q if get(f, n) is not None]
    quick = ctx.tier == 'quick'
    st = starts if not quick else [starts[0], starts[-1]]
    if quick and not m.heavy and not m.kw.get('pure') and len(starts) > 3:
        st = [starts[0], starts[len(starts) // 2], starts[-1]]
    q1s = [None, 'other'] + Q
    slow = m.heavy or m.kw.get('pure') or m.name == 'water-IAPWS'
    if slow and quick:
        q1s = [None, 'other', 'gibbs_mole', 'cp_mole', 'chemical_potentials', 'activities', 'partial_molar_cp', 'standard_gibbs_RT', 'density', 'T_sat']
        q1s = [q for q in q1s if q in (None, 'other') or q in Q]
        Q = [q for q in Q if q in ('gibbs_mole', 'enthalpy_mole', 'entropy_mole', 'cp_mole', 'cv_mole', 'int_energy_mole', 'chemical_potentials', 'activities', 'activity_coefficients',
             'partial_molar_cp', 'partial_molar_volumes', 'partial_molar_enthalpies', 'standard_gibbs_RT', 'standard_cp_R', 'density', 'T_sat', 'P_sat', 'vapor_fraction',
             'thermal_expansion_coeff', 'isothermal_compressibility', 'sound_speed', 'P', 'T', 'volume_mole')]
    other = m.make()
    n = 0

    def use_other():
        other.TPX = starts[-1]
        for q in GROUPS[0] + GROUPS[2] + GROUPS[3] + GROUPS[4]:
            get(other, q)
        other.TPX = starts[0]

    def apply(op, word):
        try:
            op()
            return True
        except ct.CanteraError:
            ctx.skip(f'{m.name}: {word[-1]} not reachable from this state')
            return False

    # words: start, q1, setter, q2
    combos = [(a, b) for a in range(len(st)) for b in range(len(q1s))]
    for idx, (a, b) in enumerate(combos):
        if idx % task['nparts'] != task['part']:
            continue
        for name, op in setters:
            for q2 in Q:
                s.reset(st[a])
                q1 = q1s[b]
                if q1 == 'other':
                    use_other()
                elif q1:
                    get(p, q1)
                ctx.trans(4)
                if not apply(op, [name]):
                    break
                s.query([q2], (f'TPX{a}', q1, name, q2))
                ctx.trace()
    # words with query groups: start, G, setter, setter, (G, setter,)* G
    deep = 2 if quick else 3
    G = [[q for q in g if q in Q] for g in GROUPS]
    G = [g for g in G if g]
    g1s = G if not slow or not quick else G[:3]
    names = [x for x in setters if not (quick and x[0] in ('restore', 'TP2'))]
    if quick and slow:
        names = names[:8]
    gi = -1
    sts = st[-1:] if quick else st
    for s0 in sts:
        for g1 in g1s:
            for seq in itertools.product(names, repeat=deep):
                gi += 1
                if gi % task['nparts'] != task['part']:
                    continue
                for g2 in ([None] if deep == 2 else [None, G[0], G[-1]]):
                    s.reset(s0)
                    for q in g1:
                        get(p, q)
                    ok = True
                    for i, (nm, op) in enumerate(seq):
                        ok = apply(op, [nm])
                        if not ok:
                            break
                        if g2 and i == 0:
                            for q in g2:
                                get(p, q)
                    if not ok:
                        break
                    g3 = G[gi % len(G)] if quick else [q for g in G for q in g]
                    s.query(g3, ('S', g1[0], [x[0] for x in seq], g2 and g2[0], g3[0]))
                    ctx.trans(3 + deep)
                    ctx.trace()
    ctx.sample(dict(model=m.name, starts=len(st), setters=[x[0] for x in setters], getters=len(Q), words=ctx.c['traces'], example=['TPX0', 'cp_mole', setters[2][0], 'chemical_potentials']))
