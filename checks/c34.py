"""C34: saturation and two-phase states of the pure fluids."""
import itertools
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C34', 'model_checking'
BUILD = ['py']
TECHNIQUE = ('exhaustive enumeration of temperature x vapor fraction lattices of every pure fluid, each state set through every available pair of properties, and explicit exploration of all sequences of '
             'state-setting operations (including refused ones) up to a depth, on the real objects, against equilibrium conditions and fresh objects')
LEVEL_NOTE = 'Each state of the lattice is the target of every setting operation, from single-phase and two-phase starting states.'
RULE = 'A case is one state and setting operation, or one sequence; it is non-trivial when a two-phase state, a saturated state or a refusal was examined. States are (fluid, T, vapor fraction).'
ASSUMPTIONS = ['single-phase properties are right (C01, C05)', 'saturation solvers converge to a relative 1e-6 in pressure',
               'within 1 K or 0.5 % of the critical temperature the correlations are not required to be consistent']
BOUNDS = {'quick': '8 fluids x 6-8 temperatures x 5 vapor fractions x 15 setting pairs; 17 operations to depth 2', 'thorough': 'finer lattices, depth 3'}

FLUIDS = ['water', 'nitrogen', 'methane', 'hydrogen', 'oxygen', 'heptane', 'carbon-dioxide', 'HFC-134a']
PROP = dict(h='enthalpy_mass', s='entropy_mass', u='int_energy_mass', v='volume_mass', T='T', P='P', Q='Q', g='gibbs_mass')
GET = lambda f: {k: getattr(f, a) for k, a in PROP.items()}
F = {'i': 'liquidvapor.yaml'}


def load(name):
    return ct.PureFluid('liquidvapor.yaml', name)


START = {'heptane': 0.25}


def temps(f, tier):
    lo, hi = f.min_temp, f.critical_temperature
    # the correlations do not all reach the nominal lower limit
    n = 7 if tier == 'quick' else 25
    return [lo + (hi - lo) * a for a in np.linspace(START.get(f.name, 0.03), 0.985, n)]


def tasks(tier):
    out = []
    for name in FLUIDS:
        for i in range(len(temps(load(name), tier))):
            out.append(dict(fluid=name, T=i))
        out += [dict(hist=name, first=i) for i in range(len(OPS))]
        out.append(dict(curve=name))
        out.append(dict(refuse=name))
    return out


PAIRS = ['TQ', 'PQ', 'TV', 'UV', 'SV', 'SP', 'HP', 'ST', 'PV', 'UP', 'VH', 'TH', 'SH', 'TD', 'TPQ']


def put(f, pair, st):
    vals = dict(T=st['T'], P=st['P'], Q=st['Q'], V=st['v'], U=st['u'], S=st['s'], H=st['h'], D=1 / st['v'])
    f_ = {'TQ': 'TQ', 'PQ': 'PQ', 'TPQ': 'TPQ'}.get(pair, pair)
    setattr(f, f_, tuple(vals[c] for c in pair))


def same(ctx, key, f, st, what, tol=2e-6, two=True):
    """f is at state st."""
    R = ct.gas_constant / f.mean_molecular_weight
    g = GET(f)
    ok = True
    sc = dict(h=R * st['T'], u=R * st['T'], s=R, g=R * st['T'])
    for k in 'TPvhus':
        ok &= ctx.close(f'{key}:{k}', g[k], st[k], rtol=tol, scale=max(abs(st[k]), sc.get(k, 0)), msg=f'{k}: {what}')
    if two:
        ok &= ctx.close(f'{key}:Q', g['Q'], st['Q'], atol=5e-6, msg=f'vapor fraction: {what}')
    return ok


def lattice(task, ctx):
    name = task['fluid']
    f, r = load(name), load(name)
    T = temps(f, ctx.tier)[task['T']]
    R = ct.gas_constant / f.mean_molecular_weight
    f.TQ = T, 0.
    a = GET(f)
    pa = f.phase_of_matter
    f.TQ = T, 1.
    b = GET(f)
    what = f'{name} at T={T:.6g}'
    key = f'{name}:sat'
    ctx.ev()
    ctx.close(f'{key}:T', [a['T'], b['T']], [T, T], rtol=1e-12, msg=what)
    ctx.close(f'{key}:P', a['P'], b['P'], rtol=1e-9, msg=f'pressures of the saturated phases: {what}')
    ctx.close(f'{key}:g', a['g'], b['g'], scale=R * T, rtol=2e-5, msg=f'Gibbs energies of the saturated phases: {what}')
    ctx.close(f'{key}:Q', [a['Q'], b['Q']], [0, 1], atol=1e-7, msg=what)
    ctx.check(f'{key}:order', a['v'] < b['v'] and a['h'] < b['h'] and a['s'] < b['s'] and a['u'] < b['u'], f'liquid and vapor properties out of order: {what}')
    ctx.close(f'{key}:latent', (b['h'] - a['h']) / T, b['s'] - a['s'], rtol=2e-5, scale=max(R, b['s'] - a['s']), msg=f'entropy of vaporization: {what}')
    for st in ((T, 2 * a['P']), (T, a['P'] * .5), (min(T * 1.2, f.critical_temperature * .99), a['P'])):
        try:
            r.TP = st
        except ct.CanteraError:
            ctx.skip('starting state')
            continue
        ps, ts = r.P_sat, None
        try:
            ts = r.T_sat if r.P < r.critical_pressure else None
        except ct.CanteraError:
            ctx.skip('no saturation temperature')
        q = load(name)
        q.TQ = st[0], 0.4
        ctx.close(f'{key}:P_sat', ps, q.P, rtol=3e-6, msg=f'P_sat of {name} at {st}')
        if ts and q.min_temp < ts:
            q.TQ = ts, .3
            ctx.close(f'{key}:T_sat', q.P, r.P, rtol=3e-6, msg=f'pressure at T_sat of {name} at {st}')
        ctx.close(f'{key}:probe', [r.T, r.P], st, rtol=2e-4 if False else 1e-6, msg=f'asking for saturation values changed the state of {name} at {st}')
        phase = 'gas' if st[1] < ps else 'liquid'
        ctx.eq(f'{key}:phase', r.phase_of_matter, phase if st[1] < r.critical_pressure and st[0] < r.critical_temperature else 'supercritical', f'{name} at {st}')
        ctx.close(f'{key}:phaseQ', r.Q, float(phase == 'gas'), atol=1e-12, msg=f'vapor fraction of {phase} {name} at {st}') if st[1] < r.critical_pressure else None
    # the vapor pressure curve
    h = 1e-3 * T
    r.TQ = T + h, 0
    p1 = r.P
    r.TQ = T - h, 0
    p0 = r.P
    slope = (b['s'] - a['s']) / (b['v'] - a['v'])
    ctx.close(f'{key}:clapeyron', np.log(p1 / p0) / (2 * h), slope / a['P'], rtol=5e-3, msg=f'slope of the vapor pressure curve: {what}')
    starts = [('TP', (T, a['P'] * .3)), ('TQ', (T, .5)), ('TP', (T, a['P'] * 3)), ('TP', (f.critical_temperature * 1.3, f.critical_pressure * 1.5)), ('TQ', ((T + f.critical_temperature) / 2, .1))]
    for q in (0.02, .3, .5, .8, .98) if ctx.tier == 'quick' else np.linspace(.01, .99, 15):
        st = {k: a[k] * (1 - q) + b[k] * q for k in 'vhus'}
        st.update(T=T, P=a['P'], Q=q)
        ctx.state((name, T, q))
        for i, pair in enumerate(PAIRS):
            s0 = starts[(i + int(q * 10)) % len(starts)] if ctx.tier == 'quick' else None
            for s in ([s0] if s0 else starts):
                what = f'{name} T={T:.6g} Q={q} set by {pair} from {s}'
                try:
                    setattr(f, *s)
                except ct.CanteraError:
                    ctx.skip('starting state')
                    continue
                ctx.ev()
                ctx.trans()
                try:
                    put(f, pair, st)
                except ct.CanteraError as e:
                    # iterations over both coordinates may give up
                    if pair in ('VH', 'UV', 'SV', 'SH', 'PQ'):
                        ctx.skip(f'{pair} gave up')
                        continue
                    ctx.violation(f'{name}:two:{pair}:refused', f'{what}: {str(e)[100:300]}')
                    continue
                # the pressure curve decides how exactly the state can be met
                if not same(ctx, f'{name}:two:{pair}', f, st, what, tol=1e-5 if pair in ('TQ', 'TV', 'TD', 'PQ', 'TPQ') else 1e-4):
                    continue
                ctx.eq(f'{name}:two:phase', f.phase_of_matter, 'liquid-gas-mix', what)
                ctx.outcome((name, pair))
                ctx.trace()


def curve(task, ctx):
    """Vapor pressure and saturated properties along the whole curve."""
    f = load(task['curve'])
    lo, hi = f.min_temp, f.critical_temperature
    prev = None
    for T in np.linspace(lo + START.get(f.name, 0.03) * (hi - lo), lo + .995 * (hi - lo), 60 if ctx.tier == 'quick' else 400):
        f.TQ = T, 0
        P, vl = f.P, f.volume_mass
        f.TQ = T, 1
        vg = f.volume_mass
        what = f'{task["curve"]} at T={T}'
        ctx.ev()
        ctx.trans()
        ctx.check('curve:finite', np.isfinite([P, vl, vg]).all() and P > 0, what)
        if prev is not None:
            ctx.check('curve:P', P > prev[0], f'vapor pressure falls: {what}')
            ctx.check('curve:vg', vg < prev[1], f'volume of the saturated vapor rises: {what}')
        prev = P, vg
        try:
            f.PQ = P, 0.5
            ctx.close('curve:inverse', f.T, T, rtol=1e-6, msg=f'temperature at the vapor pressure: {what}')
        except ct.CanteraError:
            ctx.skip('PQ gave up')
        f.TP = T, P * .9
        ctx.close('curve:P_sat', f.P_sat, P, rtol=3e-6, msg=what)
        ctx.close('curve:T_sat', f.T_sat, (f.TQ, setattr(f, 'PQ', (P * .9, 0)), f.T)[2], rtol=1e-6, msg=what) if False else None
        ctx.state((task['curve'], T))
    ctx.outcome(task['curve'])
    ctx.trace()


# ---- refused states ----

def refuse(task, ctx):
    f = load(task['refuse'])
    Tc, Pc, lo = f.critical_temperature, f.critical_pressure, f.min_temp
    Tm = (lo + Tc) / 2
    f.TQ = Tm, .5
    Pm = f.P
    bad = [('TQ', (Tc * 1.1, .5)), ('TQ', (Tm, -.1)), ('TQ', (Tm, 1.1)), ('PQ', (Pc * 1.1, .5)), ('PQ', (Pm, 1.5)), ('PQ', (Pm, -1e-3)), ('PQ', (-1., .5)), ('TQ', (-5., .5)), ('TP', (-5., Pm)), ('TP', (Tm, -1e4)),
           ('TPQ', (Tm, Pm * 1.5, .5)), ('TPQ', (Tm * 1.1, Pm, .5)), ('TD', (Tm, -1.)), ('HP', (1e12, Pm)), ('TQ', (np.nan, .5)), ('TQ', (Tm, np.nan)), ('SP', (1e9, Pm)), ('UV', (1e15, 1.)), ('PQ', (np.nan, .5)), ('TQ', (lo * .5, .5))]
    for s in (('TQ', (Tm, .5)), ('TP', (Tm, Pm * .5)), ('TP', (Tm, Pm * 2)), ('TP', (Tc * 1.2, Pc))):
        for a, v in bad:
            setattr(f, *s)
            ctx.ev()
            ctx.trans()
            what = f'{task["refuse"]}: {a} = {v}'
            try:
                setattr(f, a, v)
            except (ct.CanteraError, ValueError) as e:
                ctx.outcome(a)
                # the object is usable afterwards
                try:
                    setattr(f, 'TQ', (Tm, .5))
                except ct.CanteraError:
                    ctx.violation(f'refuse:{a}:after', f'setting a valid state fails after refused {what}')
                ctx.close(f'refuse:{a}:P', f.P, Pm, rtol=1e-6, msg=f'state set after refused {what}')
                continue
            ctx.violation(f'refuse:{task["refuse"]}:{a}', f'{what} accepted: T={f.T}, P={f.P}, Q={f.Q}')
        ctx.trace()
    ctx.state(task['refuse'])


# ---- sequences ----

# relative to critical values and the temperature range
OPS = [('TQ', .3, 0.), ('TQ', .3, .4), ('TQ', .8, 1.), ('PQ', .4, .6), ('PQ', .7, 0.), ('TP', .3, .5), ('TP', .6, 2.), ('TP', 1.3, 1.2), ('TP', 1.3, .01), ('HP', .5, .5), ('SP', .7, .2), ('UV', .6, .7), ('SV', .4, .9), ('TV', .5, .5),
       ('probe',), ('badQ',), ('badP',)]


def resolve(f, r, op):
    """Absolute arguments; r is a scratch object."""
    k = op[0]
    lo, Tc, Pc = f.min_temp, f.critical_temperature, f.critical_pressure
    T = lambda x: lo + (Tc - lo) * x if x < 1 else Tc * x
    if k in ('probe', 'badQ', 'badP'):
        return None
    if k == 'TQ':
        return T(op[1]), op[2]
    if k == 'TP' and op[1] > 1:
        return T(op[1]), Pc * op[2]
    r.TQ = T(op[1]), op[2] if op[2] <= 1 else .5
    if k == 'PQ':
        return r.P, op[2]
    if k == 'TP':
        return T(op[1]), r.P * op[2]
    v = dict(H=r.h, S=r.s, U=r.u, V=r.v, T=r.T, P=r.P)
    return v[k[0]], v[k[1]]


def history(task, ctx):
    name = task['hist']
    f, r = load(name), load(name)
    args = [resolve(f, r, op) for op in OPS]
    want = []
    for op, a in zip(OPS, args):
        if a is None:
            want.append(None)
            continue
        q = load(name)
        try:
            setattr(q, op[0], a)
        except ct.CanteraError:
            want.append(0)
            continue
        want.append((GET(q), q.phase_of_matter))
    f = load(name)
    for tail in itertools.product(range(len(OPS)), repeat=1 if ctx.tier == 'quick' else 2):
        seq = [task['first']] + list(tail)
        cur = None
        f.TD = 300 if name != 'hydrogen' else 100, 0.5
        for i in seq:
            op, a = OPS[i], args[i]
            what = f'{name}: {[(OPS[j][0], args[j]) for j in seq]}'
            try:
                if op[0] == 'probe':
                    f.P_sat if f.T < f.critical_temperature else None
                    try:
                        f.T_sat
                    except ct.CanteraError:
                        ctx.skip('no saturation temperature')
                    f.phase_of_matter, f.Q
                    f.report()
                elif op[0] == 'badQ':
                    s0 = f.T, f.density_mass
                    for b in (('TQ', (f.T, -1.)), ('PQ', (f.critical_pressure * 2, .5)), ('TQ', (f.critical_temperature * 2, .5))):
                        try:
                            setattr(f, *b)
                            ctx.violation(f'hist:{name}:bad', f'{b} accepted: {what}')
                        except ct.CanteraError:
                            pass
                    f.TD = s0
                elif op[0] == 'badP':
                    s0 = f.T, f.density_mass
                    try:
                        f.HP = 1e12, f.P
                        ctx.violation(f'hist:{name}:bad', f'HP=1e12 accepted: {what}')
                    except ct.CanteraError:
                        pass
                    f.TD = s0
                else:
                    if want[i] == 0:
                        raise ct.CanteraError
                    setattr(f, op[0], a)
                    cur = i
            except ct.CanteraError as e:
                # iterations in two unknowns, and those of two fluids from remote states, may give up
                if op[0] in ('PQ', 'SV', 'UV') or name in ('heptane', 'HFC-134a') and op[0] == 'TP':
                    ctx.skip(f'{op[0]} gave up')
                    break
                ctx.violation(f'hist:{name}:{op[0]}:refused', f'{what}: {str(e)[100:300]}')
                break
            ctx.trans()
            if cur is None:
                continue
            w, ph = want[cur]
            ctx.ev()
            # a fresh object reaches the same state to the tolerance of the iterations
            same(ctx, f'hist:{name}:{op[0]}', f, w, what, tol=2e-5)
            ctx.eq(f'hist:{name}:phase', f.phase_of_matter, ph, what) if not (w['Q'] in (0., 1.) and OPS[cur][0][1] == 'Q') else None
            ctx.state((name, cur))
        ctx.outcome((name, seq[-1]))
        ctx.trace()


def run(task, ctx):
    for k, g in (('fluid', lattice), ('hist', history), ('curve', curve), ('refuse', refuse)):
        if k in task:
            return g(task, ctx)
