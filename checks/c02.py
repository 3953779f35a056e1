"""C02: reaction rates depend on the current state and settings only (history exploration vs new mechanisms)."""
import itertools
import numpy as np
import kinpool
import cantera as ct

PROPERTY, LEVEL = 'C02', 'model_checking'
BUILD = ['py']
TECHNIQUE = 'exhaustive exploration of operation words on real mechanisms against a fresh-mechanism oracle (explicit-state, bounded depth)'
LEVEL_NOTE = 'Every word up to the stated depth is executed on the real code for every rate type; a formula wrong in both objects is out of scope here (see C09, C10).'
RULE = ('every word (start state, rate query|nothing|second mechanism used, operation, rate query) and (start, query group, operation, operation, '
        'query group) over state changes of every participating phase, multipliers, replaced reactions and derivative settings; '
        'each result is compared with a newly created mechanism with the same reactions/multipliers brought to the same state')
ASSUMPTIONS = ['a newly created mechanism set once to the reported state is the reference']
BOUNDS = {'quick': 'depth 4 with single getters, depth 5 with query groups, 30 mechanisms (every rate type)',
          'thorough': 'all start states, depth 6 with query groups'}
BASE = ['forward_rate_constants', 'reverse_rate_constants', 'equilibrium_constants', 'forward_rates_of_progress', 'reverse_rates_of_progress',
        'net_rates_of_progress', 'creation_rates', 'destruction_rates', 'net_production_rates', 'delta_enthalpy', 'delta_gibbs',
        'delta_entropy', 'delta_standard_enthalpy', 'delta_standard_gibbs', 'delta_standard_entropy']
BULK = ['heat_release_rate', 'third_body_concentrations', 'forward_rate_constants_ddT', 'forward_rates_of_progress_ddT', 'net_production_rates_ddT',
        'forward_rate_constants_ddP', 'forward_rates_of_progress_ddP', 'net_production_rates_ddP', 'forward_rate_constants_ddC', 'reverse_rates_of_progress_ddC', 'net_production_rates_ddC',
        'net_production_rates_ddX', 'net_production_rates_ddCi']
GROUPS = [['forward_rate_constants', 'reverse_rate_constants'], ['equilibrium_constants', 'delta_gibbs', 'delta_enthalpy'],
          ['net_rates_of_progress', 'forward_rates_of_progress', 'reverse_rates_of_progress'], ['net_production_rates', 'creation_rates', 'destruction_rates'],
          ['forward_rates_of_progress_ddT', 'forward_rate_constants_ddP', 'net_production_rates_ddC', 'net_production_rates_ddT'], ['net_production_rates_ddX', 'net_production_rates_ddCi']]


def get(k, name):
    try:
        v = getattr(k, name)
        if name == 'electron_energy_distribution':
            return None
        return np.array(v.todense() if hasattr(v, 'todense') else v, dtype=float)
    except (ct.CanteraError, NotImplementedError):
        return None


def variant(kin, i):
    """Input data of reaction i with the rate parameters changed (same participants); None if not applicable."""
    r = kin.reaction(i)
    d = r.input_data

    def scale(x):
        if isinstance(x, dict):
            return {a: (scale(b) if a in ('rate-constant', 'low-P-rate-constant', 'high-P-rate-constant', 'sticking-coefficient', 'rate-constants', 'colliders')
                        else (b * 1.7 if a == 'A' and isinstance(b, float) else (b + 0.05 if a == 'b' else b))) for a, b in x.items()}
        if isinstance(x, list):
            return [scale(y) for y in x]
        return x
    d2 = scale(d)
    if 'efficiencies' in d2 and d2['efficiencies']:
        d2['efficiencies'] = dict(d2['efficiencies'])
    if d2 == d:
        return None
    return d2


class Sys:
    def __init__(self, k, ctx):
        self.k, self.ctx = k, ctx
        self.kin = k.make()
        self.ph = k.phases(self.kin)
        self.memo = {}
        self.mods = {}
        self.mult = np.ones(self.kin.n_reactions)
        self.dset = {}
        self.orig = [self.kin.reaction(i).input_data for i in range(self.kin.n_reactions)]
        self.var = {}
        seen = set()
        for i in range(self.kin.n_reactions):
            t = self.kin.reaction(i).reaction_type
            if t in seen or self.kin.reaction(i).duplicate and k.name != 'allrates':
                continue
            v = variant(self.kin, i)
            if v is None:
                continue
            try:
                x = k.make()
                x.modify_reaction(i, ct.Reaction.from_dict(v, x))
            except ct.CanteraError:
                continue
            seen.add(t)
            self.var[i] = v
        self.names = [n for n in BASE + ([] if k.surf else BULK)]
        self.cs = [kinpool.comps(k, k.make())] + [[kinpool.lattice_comp(p, 0), kinpool.lattice_comp(p, 1)] for p in self.ph[1:]]

    def key(self):
        st = []
        for p in self.ph:
            tp = p._native_state[1] == 'P'
            st.append((p.T, p.P if tp else p.density, p.X.tobytes(), p.electric_potential))
        if self.k.kw.get('plasma'):
            st.append(self.kin.Te)
        return tuple(st)

    def fullkey(self):
        return (self.key(), tuple(sorted(self.mods.items())), self.mult.tobytes(), tuple(sorted(self.dset.items())))

    def ref(self):
        fk = self.fullkey()
        r = self.memo.get(fk)
        if r is None:
            f = self.k.make()
            if self.mods and not self.k.surf and not self.k.kw.get('plasma'):
                rx = [ct.Reaction.from_dict(self.var[i] if i in self.mods else self.orig[i], f) for i in range(len(self.orig))]
                f = ct.Solution(thermo=self.ph[0].thermo_model, kinetics='gas', species=[s for s in f.species()], reactions=rx, name=self.kin.name)
            elif self.mods:
                for i in self.mods:
                    f.modify_reaction(i, ct.Reaction.from_dict(self.var[i], f))
            for i, m in enumerate(self.mult):
                if m != 1:
                    f.set_multiplier(m, i)
            if self.dset:
                f.derivative_settings = self.dset
            ph = self.k.phases(f)
            if self.k.kw.get('plasma'):
                f.Te = fk[0][-1]
            for p, s in zip(ph, fk[0]):
                X = np.frombuffer(s[2])
                if p._native_state[1] == 'P':
                    p.TPX = s[0], s[1], X
                else:
                    p.TDX = s[0], s[1], X
                if s[3]:
                    p.electric_potential = s[3]
            if self.k.kw.get('plasma'):
                f.Te = fk[0][-1]
            r = {n: get(f, n) for n in self.names}
            T = f.T
            r['_scale'] = {n: (8314. * T if n in ('delta_enthalpy', 'delta_gibbs', 'delta_standard_enthalpy', 'delta_standard_gibbs') else
                               8314. if n.startswith('delta') else
                               (np.nanmax(np.abs(r[n])) * 1e-3 if r[n] is not None and r[n].size and np.isfinite(np.nanmax(np.abs(r[n]))) and n.startswith(('net', 'heat')) else 0.0)) for n in self.names}
            ct_ = f.density_mole
            mag = {}
            if not self.k.surf:
                mag = {'forward_rate_constants': np.abs(r['forward_rate_constants']), 'forward_rates_of_progress': np.abs(r['forward_rates_of_progress']),
                       'reverse_rates_of_progress': np.abs(r['reverse_rates_of_progress']), 'net_production_rates': np.abs(r['creation_rates']) + np.abs(r['destruction_rates'])}
            for n in self.names:
                if n[-4:] in ('_ddT', '_ddP', '_ddC') and r[n] is not None:
                    r['_scale'][n] = mag[n[:-4]] / {'T': f.T, 'P': f.P, 'C': ct_}[n[-1]]
                elif n.endswith(('_ddX', '_ddCi')) and r[n] is not None and r[n].size:
                    r['_scale'][n] = float(np.abs(r[n]).max())
            self.memo[fk] = r
            self.ctx.state((self.k.name, fk))
        return r

    def ops(self):
        k, kin, ph = self.k, self.kin, self.ph
        O = []
        T, P, C = k.T, k.P, self.cs[0]
        O.append(('T0', lambda: setattr(kin, 'TP', (T[0], None))))
        O.append(('T1', lambda: setattr(kin, 'TP', (T[1], None))))
        O.append(('P0', lambda: setattr(kin, 'TP', (None, P[0]))))
        O.append(('P1', lambda: setattr(kin, 'TP', (None, P[1]))))
        O.append(('X0', lambda: setattr(kin, 'X', C[0])))
        O.append(('X1', lambda: setattr(kin, 'X', C[1])))
        O.append(('TPX', lambda: setattr(kin, 'TPX', (T[1], P[0], C[0]))))
        if not k.surf:
            O.append(('Tv', lambda: setattr(kin, 'TD', (T[1] if abs(kin.T - T[0]) < 1e-3 * T[0] else T[0], None))))
            O.append(('D', lambda: setattr(kin, 'TD', (None, kin.density * 2))))
        saved = self.saved
        O.append(('restore', lambda: setattr(kin, 'state', saved)))
        if k.kw.get('plasma'):
            O.append(('Te', lambda: setattr(kin, 'Te', 15000.)))
        for j, p in enumerate(ph[1:3] if len(ph) > 3 else ph[1:], 1):
            c = self.cs[j]
            O.append((f'{p.name}.T', lambda p=p: setattr(p, 'TP', (T[0] * 1.05, None))))
            O.append((f'{p.name}.P', lambda p=p: setattr(p, 'TP', (None, P[1]))))
            if p.n_species > 1:
                O.append((f'{p.name}.X', lambda p=p, c=c: setattr(p, 'X', c[1])))
        for nm in k.kw.get('phi', []):
            p = [x for x in ph if x.name == nm]
            if p:
                def phi(p=p[0]):
                    p.electric_potential = 0.3 if p.electric_potential == 0 else 0.0
                O.append((f'{nm}.phi', phi))

        def mult_all(v):
            kin.set_multiplier(v)
            self.mult[:] = v

        def mult_i(v, i):
            kin.set_multiplier(v, i)
            self.mult[i] = v
        O.append(('mult*', lambda: mult_all(0.5)))
        O.append(('mult0', lambda: mult_i(0.0, 0)))
        if len(self.orig) > 1:
            O.append(('mult-last', lambda: mult_i(3.0, len(self.orig) - 1)))

        def modify(i):
            if i in self.mods:
                kin.modify_reaction(i, ct.Reaction.from_dict(self.orig[i], kin))
                del self.mods[i]
            else:
                kin.modify_reaction(i, ct.Reaction.from_dict(self.var[i], kin))
                self.mods[i] = 1
        for i in self.var:
            O.append((f'mod{i}', lambda i=i: modify(i)))
        if not k.surf:
            def dset(s):
                kin.derivative_settings = s
                self.dset = {**self.dset, **s}
            O.append(('skip3b', lambda: dset({'skip-third-bodies': True, 'skip-falloff': False})))
            O.append(('skipfall', lambda: dset({'skip-falloff': True, 'skip-third-bodies': False})))
            O.append(('dT', lambda: dset({'rtol-delta': 1e-7})))
        return O

    def reset(self, s, comp=0):
        T, P, c = s
        kin = self.kin
        for i in list(self.mods):
            kin.modify_reaction(i, ct.Reaction.from_dict(self.orig[i], kin))
        self.mods.clear()
        if (self.mult != 1).any():
            kin.set_multiplier(1.0)
            self.mult[:] = 1
        if self.dset:
            kin.derivative_settings = {'skip-third-bodies': False, 'skip-falloff': False, 'rtol-delta': 1e-8}
            self.dset = {}
        for j, p in enumerate(self.ph):
            p.electric_potential = 0.0
            p.TPX = T, P, self.cs[j][c if j == 0 else 0]
        if self.k.kw.get('plasma'):
            kin.Te = 9000.

    def query(self, names, word, count=True):
        ctx = self.ctx
        before = self.key()
        for n in names:
            v = get(self.kin, n)
            ctx.ev()
            r = self.ref()
            w = r[n]
            if (v is None) != (w is None):
                ctx.violation(f'{self.k.name}:{n}', f'after {word}: query {"fails" if v is None else "works"}, on a new mechanism at the same state it does not', dict(word=word))
                continue
            if v is None:
                continue
            ddX = n.endswith(('_ddT', '_ddP', '_ddC'))
            sc = r['_scale'][n]
            ctx.close(f'{self.k.name}:{n}', v, w, rtol=1e-5 if ddX else 1e-6 if '_dd' in n else 1e-9, scale=sc if isinstance(sc, np.ndarray) else (sc or None), atol=1e-250,
                      msg=f'{self.k.name}.{n} after {word} differs from a new mechanism at the same state', data=dict(word=word))
        after = self.key()
        if before != after:
            for a, b, p in zip(before, after, self.ph):
                ctx.close(f'{self.k.name}:query-changes-state:{names[0]}', np.r_[b[0], b[1], np.frombuffer(b[2])], np.r_[a[0], a[1], np.frombuffer(a[2])], rtol=1e-12, msg=f'{self.k.name}: state of {p.name} changed by querying {names} after {word}')


def tasks(tier):
    out = []
    for k in kinpool.POOL:
        n = 8 if k.heavy else (6 if k.name == 'allrates' else (4 if k.name in ('scratch', 'h2o2', 'pt', 'pt-motzwise') else 1))
        if k.name == 'covdep':
            continue
        if tier == 'thorough':
            n = 8
        out += [dict(mech=k.name, part=i, nparts=n) for i in range(n)]
    out.sort(key=lambda t: -t['nparts'])
    return out


def run(task, ctx):
    k = kinpool.BY[task['mech']]
    s = Sys(k, ctx)
    f = k.make()
    f.TPX = k.T[0], k.P[1], s.cs[0][1]
    s.saved = f.state.copy()
    O = s.ops()
    quick = ctx.tier == 'quick'
    starts = [(T, P, c) for T in k.T for P in k.P for c in (0, 1)]
    other = k.make()
    Q = [n for n in s.names if get(other, n) is not None]
    st = [starts[1]] if quick else starts
    q1s = [None, 'other'] + Q
    if k.heavy:
        q1s = [None, 'other', 'forward_rate_constants', 'net_production_rates', 'forward_rates_of_progress_ddT', 'equilibrium_constants']
        if quick:
            Q = ['forward_rate_constants', 'equilibrium_constants', 'reverse_rate_constants', 'net_rates_of_progress', 'net_production_rates', 'delta_gibbs', 'forward_rates_of_progress_ddT', 'net_production_rates_ddC', 'creation_rates']
    elif quick:
        q1s = [q for q in q1s if q in (None, 'other') or q in ('forward_rate_constants', 'reverse_rate_constants', 'equilibrium_constants', 'net_rates_of_progress',
               'net_production_rates', 'delta_gibbs', 'delta_standard_enthalpy', 'forward_rates_of_progress_ddT', 'forward_rate_constants_ddP', 'net_production_rates_ddC', 'net_production_rates_ddX', 'third_body_concentrations')]

    def apply(op, nm):
        try:
            op()
            return True
        except ct.CanteraError as e:
            ctx.skip(f'{k.name}: {nm} refused')
            return False

    n = -1
    for a in range(len(st)):
        for q1 in q1s:
            for nm, op in O:
                n += 1
                if n % task['nparts'] != task['part']:
                    continue
                for q2 in Q:
                    s.reset(st[a])
                    if q1 == 'other':
                        other.TPX = k.T[1], k.P[0], s.cs[0][1]
                        for q in ('net_production_rates', 'equilibrium_constants'):
                            get(other, q)
                    elif q1:
                        get(s.kin, q1)
                    ctx.trans(4)
                    if not apply(op, nm):
                        break
                    s.query([q2], (st[a], q1, nm, q2))
                    ctx.trace()
    G = [[q for q in g if q in Q] for g in GROUPS]
    G = [g for g in G if g]
    depth = 2 if quick else 3
    Os = O if not (quick and k.heavy) else [o for o in O if o[0] in ('T0', 'T1', 'P0', 'X1', 'D', 'mult0', 'mult*', 'restore') or o[0].startswith('mod')]
    if depth == 3 and k.heavy:
        Os = [o for o in O if o[0] in ('T0', 'T1', 'P0', 'X1', 'D', 'mult0', 'mult*') or o[0].startswith('mod')][:9]
    for g1 in (G[2:4] if quick else G):
        for seq in itertools.product(Os, repeat=depth):
            n += 1
            if n % task['nparts'] != task['part']:
                continue
            for g3 in ([G[n % len(G)], G[3]] if quick else G):
                s.reset(st[-1])
                for q in g1:
                    get(s.kin, q)
                ok = True
                for i, (nm, op) in enumerate(seq):
                    ok = apply(op, nm)
                    if not ok:
                        break
                    if depth == 3 and i == 0:
                        get(s.kin, 'net_rates_of_progress')
                if not ok:
                    break
                s.query(g3, (g1[0], [x[0] for x in seq], g3[0]))
                ctx.trans(3 + depth)
                ctx.trace()
    ctx.sample(dict(mechanism=k.name, ops=[o[0] for o in O], getters=len(Q), words=ctx.c['traces']))
