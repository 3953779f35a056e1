"""C04: every supported state pair reproduces itself, from every start state, for every model; input-file states; rejections."""
import itertools, json, os
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C04', 'model_checking'
BUILD = ['py']
TECHNIQUE = 'exhaustive enumeration of (start state, target state, state pair, basis, composition form) transitions on the real phase objects; explicit-state graph of the state lattice of every model'
LEVEL_NOTE = 'Every transition of the complete graph over the state lattice of each model is executed through every advertised setter; states off the lattice are not visited.'
RULE = ('for each model: complete graph over the lattice T x P x composition; edge = one advertised full or partial setter fed with values read at the target state; every edge checks the values read back, '
        'T, P, density, composition and the saved-state vector; plus every state form in an input file, None placeholders, and every invalid value in every slot')
ASSUMPTIONS = ['lattice states lie inside the validity range of the models and away from phase transitions of real-gas models (no second solution)',
               'tolerance 1e-7 relative (iterative setters converge to 1e-9)', 'pairs a model does not support on the reference tree (table UNSUP) raise an error']
BOUNDS = {'quick': 'T,P,X lattice of every model in the pool (up to 24 states -> up to 576 ordered pairs x 14 setters x 2 bases; 3 start states for slow models)', 'thorough': 'lattice refined with intermediate and extreme temperatures; all start states for every model'}
LET = {'T': 'T', 'P': 'P', 'D': 'density', 'H': 'h', 'U': 'u', 'S': 's', 'V': 'v', 'Q': 'Q', 'X': 'X', 'Y': 'Y'}
# (model, pair) combinations that raise an error by design of the model (no such solution method)
UNSUP = {'peng-robinson': {'DP'}, 'redlich-kwong': {'DP'}, 'peng-robinson-params': {'DP'}, 'redlich-kwong-params': {'DP'}, 'plasma': {'HP'}, 'plasma-disc': {'HP'}}   # PlasmaPhase::cp_mole is not implemented


def getv(ph, l):
    return getattr(ph, 'density' if l == 'D' else LET[l])


def snap(ph):
    d = dict(T=ph.T, P=ph.P, D=ph.density, X=ph.X.copy(), Y=ph.Y.copy(), h=ph.h, v=ph.v)
    try:
        d['s'] = ph.s
    except NotImplementedError:
        d['s'] = 0.0
    return d


def make(m):
    return ct.PureFluid(m.file, m.phase) if m.kw.get('pure') else m.make()


def unsup(m):
    return UNSUP.get(m.name, {'DP'} if m.kw.get('pure') or m.name == 'water-IAPWS' else set())


def multivalued(m, ph, L, comps):
    """compositions for which temperature and pressure leave a choice of fluid phase (real-gas models only)."""
    bad = set()
    if 'redlich' in m.name or 'peng' in m.name:
        for c in comps:
            for T, P in itertools.product(m.T, m.P):
                rho = []
                for T0, P0, c0 in itertools.product(m.T, m.P, comps):
                    ph.TPX = T0, P0, c0
                    ph.TPX = T, P, c
                    rho.append(ph.density)
                    ph.TPX = T0, P0, c
                    ph.TP = T, P
                    rho.append(ph.density)
                if max(rho) > 1.05 * min(rho):
                    bad.add(c.tobytes())
    return bad


def lattice(m, th):
    ph = make(m)
    C = models.comps(m, ph)
    bad = multivalued(m, ph, None, C)
    C = [c for c in C if c.tobytes() not in bad]
    T = list(m.T)
    if th:
        T = sorted(T + [T[0] + 0.37 * (T[-1] - T[0]), T[0] + 0.91 * (T[-1] - T[0])])
    if m.name in ('ideal-gas', 'ideal-gas-nasa9b') or (th and m.name.startswith('ideal-gas')):
        # outside the temperature range of the species data (extrapolated, still a valid state)
        T = sorted(set(T + [round(ph.min_temp * 0.8, 1), round(ph.max_temp * 1.12, 1)]))
        if not th and m.name == 'ideal-gas':
            T = [t for t in T if t != 2500.]
    out = []
    for t, p_, c in itertools.product(T, m.P, C):
        out.append((t, p_, c))
    return ph, out


def scales(ph):
    w = ph.mean_molecular_weight if ph.basis == 'mass' else 1.0
    T = ph.T
    try:
        cp = abs(ph.cp)
    except NotImplementedError:
        cp = 1.0
    return {'T': T, 'P': ph.P, 'D': 0, 'H': max(8314. / w, cp) * T, 'U': max(8314. / w, cp) * T, 'S': max(8314. / w, cp), 'V': 0, 'X': 1.0, 'Y': 1.0, 'Q': 1.0}


def usable(x):
    return np.all(np.isfinite(x))


def run_pairs(task, ctx):
    m = models.BY[task['model']]
    th = ctx.tier == 'thorough'
    ph, L = lattice(m, th)
    nm = m.name
    uns = unsup(m)
    full, part = list(ph._full_states.values()), list(ph._partial_states.values())
    if m.kw.get('pure'):
        full = [f for f in full if 'Q' not in f and hasattr(type(ph), f)] + ['TP']
    surfX = nm == 'compound-lattice'
    if surfX:
        full = [f for f in full if 'Y' not in f]     # mass fractions are not implemented for this model
    starts = L
    if m.heavy and not th:
        starts = [L[0], L[-1]]
        L = L[:: max(1, len(L) // 6)]
    elif len(L) > 14 and not th:
        starts = [L[0], L[len(L) // 2], L[-1]]
    for basis in ('mass', 'molar'):
        ph.basis = basis
        for (T, P, X) in L:
            ph.TPX = T, P, X
            tgt = snap(ph)
            vals = {}
            for l in 'TPDHUSVXY':
                try:
                    vals[l] = getv(ph, l)
                    if l in 'XY':
                        vals[l] = vals[l].copy()
                except (ct.CanteraError, NotImplementedError):
                    pass
            sc = scales(ph)
            degen = not m.kw.get('plasma') and abs(ph.cp_mole) < 1.0
            sv = ph.state.copy()
            ctx.state((nm, basis, T, P, X.tobytes()))
            for (T0, P0, X0) in starts:
                for names in full + part:
                    if any(l not in vals for l in names) or any(not usable(vals[l]) for l in names):
                        ctx.skip(f'{nm}: {names} not available')
                        continue
                    ph.TPX = T0, P0, (X if names in part else X0)
                    if names in part and not m.kw.get('pure') and len(ph.X) > 1:
                        x0 = ph.X.copy()
                    else:
                        x0 = None
                    ctx.trans()
                    try:
                        setattr(ph, names, tuple(vals[l] for l in names))
                    except (ct.CanteraError, NotImplementedError) as e:
                        if names == 'SH':
                            ctx.skip(f'{nm}: SH solver does not converge from a distant start (documented to raise)')
                        elif names[:2] not in uns:
                            ctx.violation(f'{nm}:{names}:raises', f'{basis}: from T={T0} P={P0} X={X0} setting {names} to the values of T={T} P={P} X={X}: {str(e)[:300]}', dict(pair=names))
                        continue
                    if names[:2] in uns:
                        ctx.skip(f'{nm}: {names[:2]} unsupported')
                        continue
                    ctx.ev()
                    for l in names:
                        got = getv(ph, l)
                        ctx.close(f'{nm}:{names}:{l}', got, vals[l], rtol=max(1e-7, m.rtol), scale=sc[l], msg=f'{basis}: from T={T0} P={P0} X={X0}, {names} of T={T} P={P} X={X}: reads back {l}')
                    if x0 is not None and not surfX:
                        ctx.close(f'{nm}:{names}:composition', ph.X, x0, rtol=1e-12, atol=1e-14, msg=f'two-property setter {names} changed the composition')
                    now = snap(ph)
                    uniq = names[:2] in ('TP', 'TD', 'HP', 'SP', 'UV', 'SV', 'TV', 'DP', 'PV')
                    if degen and names[:2] not in ('TP', 'TD', 'TV'):
                        uniq = False       # enthalpy and entropy do not depend on temperature
                    if uniq and nm not in ('electron-cloud',):
                        for k, s in (('T', 0), ('P', 0), ('D', 0), ('X', 1.0), ('Y', 1.0), ('h', sc['H']), ('s', sc['S'])):
                            if surfX and k in 'XY':
                                continue
                            # pressure of nearly incompressible real fluids amplifies density/temperature errors
                            amp = 1.0
                            if k == 'P' and names[:2] not in ('TP', 'HP', 'SP', 'DP', 'PV'):
                                amp = 1e4
                            ctx.close(f'{nm}:{names}:state-{k}', now[k], tgt[k], rtol=max(3e-6 if m.kw.get('pure') else 3e-7, m.rtol) * amp, scale=s or None, msg=f'{basis}: from T={T0} P={P0} X={X0}, {names} of T={T} P={P} X={X}: resulting {k}')
                # save / restore
                ph.TPX = T0, P0, X0
                ph.state = sv
                ctx.trans()
                ctx.trace()
                ctx.check(f'{nm}:restore', np.array_equal(ph.state, sv), 'saved state vector is not reproduced by restoring it')
                now = snap(ph)
                for k in ('T', 'P', 'D', 'X', 'h', 's'):
                    ctx.close(f'{nm}:restore-{k}', now[k], tgt[k], rtol=max(1e-9, m.rtol), scale={'h': sc['H'], 's': sc['S'], 'X': 1.0}.get(k), msg=f'{k} after save/restore')


def run_none(task, ctx):
    """None placeholders keep the current value; single-letter pairs of compressible/incompressible phases."""
    m = models.BY[task['none']]
    ph, L = lattice(m, False)
    nm = m.name
    uns = unsup(m)
    L = L[:8]
    for (T, P, X) in L:
        for names in list(ph._full_states.values()) + list(ph._partial_states.values()):
            if 'Q' in names or names[:2] in uns or not hasattr(type(ph), names) or (nm == 'compound-lattice' and 'Y' in names):
                continue
            for mask in itertools.product((0, 1), (0, 1), *[(0,)] * (len(names) - 2)):
                ph.TPX = T, P, X
                try:
                    cur = [getv(ph, l) for l in names]
                    cur = [c.copy() if isinstance(c, np.ndarray) else c for c in cur]
                except (ct.CanteraError, NotImplementedError):
                    continue
                if not all(usable(c) for c in cur):
                    continue
                sc = scales(ph)
                ctx.trans()
                try:
                    setattr(ph, names, tuple(None if k else c for k, c in zip(mask, cur)))
                except (ct.CanteraError, NotImplementedError) as e:
                    if names[:2] not in unsup(m):
                        ctx.violation(f'{nm}:none:{names}', f'{names} with placeholders {mask}: {str(e)[:200]}')
                    continue
                ctx.ev()
                for l, c in zip(names, cur):
                    ctx.close(f'{nm}:none:{names}:{l}', getv(ph, l), c, rtol=max(1e-7, m.rtol), scale=sc[l], msg=f'{names} with None at {mask}: {l}')


def run_reject(task, ctx):
    m = models.BY[task['reject']]
    ph, L = lattice(m, False)
    nm = m.name
    T, P, X = L[0]
    uns = unsup(m)
    good = {}
    ph.TPX = T, P, X
    for l in 'TPDHUSVXY':
        try:
            good[l] = getv(ph, l)
        except Exception:
            pass
    for names in list(ph._full_states.values()) + list(ph._partial_states.values()):
        if 'Q' in names or names[:2] in uns or not hasattr(type(ph), names) or (nm == 'compound-lattice' and 'Y' in names) or any(l not in good for l in names):
            continue
        for i, l in enumerate(names):
            bads = []
            if l in 'TDV':
                bads = [-1.0, -300.0, 0.0, -1e-300]
            elif l == 'P' and (ph.is_compressible or m.kw.get('pure')):
                bads = [-1e5, -1.0]
            elif l in 'XY':
                bads = [[1.0] * (ph.n_species + 1), [1.0] * (ph.n_species - 1) if ph.n_species > 1 else None, 'nosuchspecies:1', {'nosuchspecies': 1.0}, 'abc', {ph.species_name(0): 'x'}]
            for b in bads:
                if b is None:
                    continue
                v = [good[x] for x in names]
                v[i] = b
                ph.TPX = T, P, X
                ctx.trans()
                ctx.ev()
                ctx.outcome((nm, names, l, str(b)))
                try:
                    setattr(ph, names, tuple(v))
                except (ct.CanteraError, NotImplementedError, ValueError, TypeError, ArithmeticError):
                    # the object stays usable
                    try:
                        ph.TPX = T, P, X
                    except ct.CanteraError:
                        if not m.kw.get('pure'):
                            raise
                        ctx.note(f'{nm}: object not usable after a rejected {names}')
                        ph = make(m)
                        ph.TPX = T, P, X
                    ctx.close(f'{nm}:reject-after', ph.density, good['D'], rtol=max(1e-9, m.rtol), msg=f'state after rejected {names} {l}={b!r}')
                    continue
                key = f'{nm}:reject:{l}' if l not in 'XY' else f'{nm}:reject:{l}:{str(b)[:20]}'
                ctx.violation(key, f'{names} with {l}={b!r} accepted; now T={ph.T} P={ph.P} D={ph.density}', dict(pair=names))
        for bad in [(1.0,) * (len(names) - 1), (1.0,) * (len(names) + 1)]:
            ctx.trans()
            ctx.ev()
            try:
                setattr(ph, names, bad)
            except (ct.CanteraError, ValueError, TypeError, IndexError, AssertionError):
                continue
            if m.kw.get('pure'):
                ctx.note('pure fluid pair setter ignores superfluous values')
                continue
            ctx.violation(f'{nm}:reject:count', f'{names} accepted {len(bad)} values')


ALIAS = {'T': ['T', 'temperature'], 'P': ['P', 'pressure'], 'D': ['D', 'density'], 'H': ['H', 'enthalpy'], 'U': ['U', 'internal-energy', 'int-energy'],
         'S': ['S', 'entropy'], 'V': ['V', 'specific-volume'], 'Q': ['Q', 'vapor-fraction'], 'X': ['X', 'mole-fractions'], 'Y': ['Y', 'mass-fractions']}
UNITS = {'T': [('K', 1), ('degR-none', 0)], 'P': [('Pa', 1), ('atm', 101325.), ('bar', 1e5), ('kPa', 1e3), ('dyn/cm^2', 0.1)], 'D': [('kg/m^3', 1), ('g/cm^3', 1000.)],
         'H': [('J/kg', 1), ('kJ/g', 1e6), ('cal/g', 4184.)], 'U': [('J/kg', 1), ('kJ/kg', 1e3)], 'S': [('J/kg/K', 1), ('cal/g/K', 4184.)], 'V': [('m^3/kg', 1), ('cm^3/g', 1e-3)]}


def run_yaml(task, ctx):
    """states given in phase definitions: every pair x alias x unit x composition form."""
    kind = task['yaml']
    if kind == 'gas':
        hdr = "phases:\n- name: g\n  thermo: ideal-gas\n  species: [{h2o2.yaml/species: [H2, O2, H2O, AR]}]\n"
        states_ = [(400., 2e5, 'H2:0.2,O2:0.3,H2O:0.1,AR:0.4'), (1500., 3e4, 'H2:1,AR:3')]
        pairs = ['TP', 'TD', 'HP', 'UV', 'SP', 'SV', 'DP']
        file = 'h2o2.yaml'
    else:
        hdr = "phases:\n- name: g\n  thermo: pure-fluid\n  pure-fluid-name: %s\n  elements: [{E}]\n  species: [{liquidvapor.yaml/species: [{S}]}]\n"
        pairs = ['TP', 'TD', 'HP', 'UV', 'SP', 'SV', 'ST', 'TV', 'PV', 'UP', 'VH', 'TH', 'SH', 'PQ', 'TQ', 'TPQ']
        hdr = hdr % 'nitrogen'
        hdr = hdr.replace('{E}', 'N').replace('{S}', 'N2')
        states_ = [(300., 2e5, None), (90., 4e6, None), (85., None, 0.35)]
    base = ct.Solution(yaml=hdr, transport_model=None) if kind == 'gas' else ct.PureFluid(yaml=hdr)
    for (T, P, X) in states_:
        if kind == 'gas':
            base.TPX = T, P, X
        elif P is None:
            base.TQ = T, X
        else:
            base.TP = T, P
        cur = {l: getv(base, l) for l in 'TPDHUSV'}
        if kind != 'gas':
            cur['Q'] = base.Q
        ref = snap(base)
        forms = [None]
        if kind == 'gas':
            sp = base.species_names
            x, y = base.X, base.Y
            forms = []
            for l, arr in (('X', x), ('Y', y)):
                t = ', '.join(f'{s}: {3.0 * float(v)!r}' for s, v in zip(sp, arr) if v)
                for al in ALIAS[l]:
                    forms += [f'{al}: {{{t}}}', f'{al}: "{t}"']
        for pair in pairs:
            if kind != 'gas':
                if 'Q' in pair and P is not None:
                    continue
                if pair in ('TP', 'TD', 'TV', 'TH', 'ST') and P is None and pair == 'TP':
                    continue
            opts = []
            for l in pair:
                o = []
                for al in ALIAS[l]:
                    if l in ('T', 'Q'):
                        o.append(f'{al}: {float(cur[l])!r}')
                    else:
                        for un, f in UNITS[l]:
                            o.append(f'{al}: {float(cur[l]) / f!r} {un}')
                        o.append(f'{al}: {float(cur[l])!r}')
                opts.append(o)
            combos = list(itertools.product(*opts)) if ctx.tier == 'thorough' else [tuple(o[(i + j) % len(o)] for j, o in enumerate(opts)) for i in range(max(map(len, opts)))] + [tuple(o[(2 * i + j) % len(o)] for j, o in enumerate(opts[::1])) for i in range(max(map(len, opts)))]
            for n, combo in enumerate(combos):
                fs = forms if (n == 0 or ctx.tier == 'thorough') else [forms[n % len(forms)]]
                for form in fs:
                    for order in (0, 1):
                        items = list(combo) + ([form] if form else [])
                        if order:
                            items = items[::-1]
                        txt = hdr + '  state: {' + ', '.join(items) + '}\n'
                        ctx.trans()
                        ctx.ev()
                        ctx.outcome((kind, T, P, str(items)))
                        try:
                            g = ct.Solution(yaml=txt, transport_model=None)
                        except ct.CanteraError as e:
                            ctx.violation(f'yaml:{kind}:{pair}:raises', f'state {items}: {str(e)[:300]}', dict(items=items))
                            continue
                        now = snap(g)
                        for k in ('T', 'P', 'D', 'h', 's', 'X'):
                            if kind != 'gas' and pair in ('VH', 'TH', 'SH') and not (pair == 'TH' and k in 'Th') and k in 'TPDhs':
                                continue
                            if pair == 'TPQ' and k in 'hs':
                                pass
                            s = {'h': base.cp * T if np.isfinite(base.cp) else 1e6, 's': 8314. / base.mean_molecular_weight, 'X': 1.0}.get(k)
                            ctx.close(f'yaml:{kind}:{pair}:{k}', now[k], ref[k], rtol=1e-6 if kind != 'gas' else 1e-8, scale=s, msg=f'{k} of phase defined with state {items}', data=dict(items=items))
    # defaults
    if kind == 'gas':
        for txt, T, P in (("{T: 500}", 500., 101325.), ("{P: 3 bar}", 298.15, 3e5), ("{X: {O2: 1}}", 298.15, 101325.), ("{}", 298.15, 101325.), ("{temperature: 500}", 500., 101325.), ("{pressure: 2 atm}", 298.15, 202650.), ("{T: 500, Y: {O2: 1}}", 500., 101325.)):
            g = ct.Solution(yaml=hdr + f'  state: {txt}\n', transport_model=None)
            ctx.ev()
            ctx.close('yaml:default', [g.T, g.P], [T, P], rtol=1e-12, msg=f'state {txt}')
        for txt in ("{H: 1e5}", "{S: 3, T2: 4}", "{density: 3}", "{X: {nosuch: 1}, T: 300, P: 1 atm}", "{T: 300 Pa, P: 1 atm}", "{T: 300, P: 1 K}", "{T: -300, P: 1 atm}", "{T: 300, P: -1 atm}", "{T: 300, D: -1}", "{H: 1e5 J/mol/K, P: 1 atm}"):
            ctx.ev()
            try:
                g = ct.Solution(yaml=hdr + f'  state: {txt}\n', transport_model=None)
            except ct.CanteraError:
                continue
            ctx.violation(f'yaml:reject:{txt}', f'phase with state {txt} accepted: T={g.T} P={g.P}')


def tasks(tier):
    out = [dict(model=m.name) for m in models.POOL]
    out.sort(key=lambda t: not models.BY[t['model']].heavy)
    out += [dict(yaml='gas'), dict(yaml='fluid')]
    out += [dict(none=m.name) for m in models.POOL if not m.heavy or tier == 'thorough']
    out += [dict(reject=m.name) for m in models.POOL]
    return out


def run(task, ctx):
    if 'model' in task:
        run_pairs(task, ctx)
    elif 'none' in task:
        run_none(task, ctx)
    elif 'reject' in task:
        run_reject(task, ctx)
    else:
        run_yaml(task, ctx)
