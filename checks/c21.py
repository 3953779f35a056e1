"""C21: histories of reactor networks: advance/step/query/reinitialize/change, against uninterrupted integrations."""
import itertools
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C21', 'model_checking'
BUILD = ['py']
TECHNIQUE = ('explicit exploration of all operation sequences up to a depth on real reactor networks, each state compared with an '
             'uninterrupted integration of a new network started from the last user-made state')
LEVEL_NOTE = 'Every sequence of the operation alphabet up to the depth is executed on a new network; invariants are checked after every operation.'
RULE = ('A case is a sequence of operations; it is non-trivial when at least one operation moved time. States are distinct (network, '
        'sequence prefix) pairs; transitions are operations.')
ASSUMPTIONS = ['solver error is bounded by 1e3 x the relative tolerance on these smooth problems; comparisons use 2e-5',
               'a change is followed by syncState() or reinitialize(), as documented']
BOUNDS = {'quick': '6 networks, 23 operations, depth 2 (all) and depth 3 starting with a move', 'thorough': 'depth 3 (all), depth 4 over the moving/changing operations'}


STARTED = []


class Boom(Exception):
    pass


class Flag:
    def __init__(self, m):
        self.m, self.boom = m, None

    def __call__(self, t):
        if self.boom is not None and t > self.boom:
            raise Boom('boom')
        return self.m


FILES = dict(cv=('h2o2.yaml', 'ohmech'), cp=('h2o2.yaml', 'ohmech'), surf=('ptcombust.yaml', 'gas'), precon=('h2o2.yaml', 'ohmech'),
             sens=('h2o2.yaml', 'ohmech'), flow=('h2o2.yaml', 'ohmech'))
SCALE = dict(cv=2e-5, cp=2e-5, surf=1e-6, precon=2e-5, sens=2e-5, flow=2e-3)


class Sim:
    """A network built from a snapshot: per node (T, D, Y, V, chem, energy), surfaces' coverages, mdot, start time."""

    def __init__(self, kind, snap, tight=False):
        self.kind = kind
        f, p = FILES[kind]
        self.g, self.r, self.s = [], [], []
        types = dict(cv=['IdealGasReactor', 'Reactor'], cp=['IdealGasConstPressureMoleReactor', 'ConstPressureReactor'],
                     surf=['IdealGasMoleReactor'], precon=['IdealGasMoleReactor'], sens=['IdealGasConstPressureReactor', 'IdealGasReactor'],
                     flow=['FlowReactor'])[kind]
        for typ, n in zip(types, snap['nodes']):
            g = ct.Solution(f, p, transport_model=None)
            g.TDY = n['T'], n['D'], n['Y']
            r = getattr(ct, typ)(g, energy='on' if n['energy'] else 'off', name=f'r{len(self.r)}')
            if kind != 'flow':
                r.volume = n['V']
            r.chemistry_enabled = n['chem']
            self.g.append(g)
            self.r.append(r)
        self.keep = []
        if kind in ('cv', 'cp'):
            self.f = Flag(snap['mdot'])
            self.m = ct.MassFlowController(self.r[0], self.r[1], mdot=self.f)
            self.keep += [ct.PressureController(self.r[1], self.r[0], primary=self.m, K=1e-6), ct.Valve(self.r[0], self.r[1], K=1e-6),
                          ct.Wall(self.r[0], self.r[1], A=0.3, U=3e5, K=1e-3 if kind == 'cv' else 0)]
        elif kind == 'surf':
            s = ct.Interface('ptcombust.yaml', 'Pt_surf', adjacent=[self.g[0]])
            s.TP = self.g[0].TP
            s.coverages = snap['cov']
            self.s.append(s)
            self.S = ct.ReactorSurface(s, self.r[0], A=2.0)
        elif kind == 'flow':
            self.r[0].area = 0.01
            self.r[0].mass_flow_rate = snap['mdot']
        self.net = ct.ReactorNet(self.r)
        self.net.rtol, self.net.atol = (1e-9, 1e-16) if not tight else (1e-10, 1e-18)
        if kind == 'flow':
            self.net.rtol, self.net.atol = 1e-8, 1e-13
        self.net.initial_time = snap['t']
        if kind == 'sens' and not tight:
            self.r[0].add_sensitivity_reaction(1)
            self.r[1].add_sensitivity_reaction(3)
            self.net.rtol_sensitivity, self.net.atol_sensitivity = 1e-4, 1e-6
        if kind == 'precon' and not tight:
            self.net.preconditioner = ct.AdaptivePreconditioner()
            self.net.derivative_settings = {'skip-third-bodies': True, 'skip-falloff': True}

    def time(self):
        return self.net.distance if self.kind == 'flow' else self.net.time

    def contents(self):
        """What the user sees."""
        out = []
        for r in self.r:
            th = r.thermo
            out.append(np.r_[th.T, th.density, th.Y, 0 if self.kind == 'flow' else r.volume])
        if self.kind == 'surf':
            out.append(np.array(self.S.coverages))
        if self.kind == 'flow':
            out.append(np.array([self.r[0].speed]))
        return np.concatenate(out)

    def snapshot(self, **kw):
        d = dict(t=self.time(), nodes=[], mdot=self.f.m if self.kind in ('cv', 'cp') else None)
        for r in self.r:
            th = r.thermo
            d['nodes'].append(dict(T=th.T, D=th.density, Y=np.array(th.Y), V=0 if self.kind == 'flow' else r.volume, chem=r.chemistry_enabled, energy=r.energy_enabled))
        if self.kind == 'surf':
            d['cov'] = np.array(self.S.coverages)
        d.update(kw)
        return d


def start(kind):
    f, p = FILES[kind]
    g = ct.Solution(f, p, transport_model=None)
    nodes = []
    for T, P, X, V in ((1250., 101325., 'H2:2,O2:1,AR:6' if kind != 'surf' else 'CH4:0.1,O2:0.2,AR:0.7', 1.0), (1150., 151325., 'H2:2,O2:1.5,AR:4,H2O:0.1', 0.5)):
        g.TPX = T, P, X if kind != 'surf' else 'CH4:0.1,O2:0.2,AR:0.7'
        nodes.append(dict(T=T, D=g.density, Y=g.Y.copy(), V=V, chem=True, energy=True))
    n = 2 if kind in ('cv', 'cp', 'sens') else 1
    snap = dict(t=0.0, nodes=nodes[:n], mdot={'flow': 0.02}.get(kind, 0.4), cov='PT(S):0.6,O(S):0.3,H(S):0.1')
    if kind == 'surf':
        # past the very fast initial transient of the surface
        if not STARTED:
            s = Sim(kind, snap, tight=True)
            s.net.advance(1e-4)
            STARTED.append(s.snapshot(t=0.0))
        return STARTED[0]
    return snap


MOVE = ['adv', 'adv4', 'step', 'step3']
CHANGE = ['sync', 'chem', 'energy', 'vol', 'mdot', 'restart', 'fail', 'maxsteps', 'initchange']
QUIET = ['same', 'back', 'query', 'reinit', 'init', 'rtol', 'maxstep', 'order', 'limit', 'solver', 'thermo-noise']


def ops_for(kind):
    out = list(MOVE) + ['same', 'back', 'query', 'init', 'rtol', 'maxstep', 'order', 'thermo-noise']
    if kind == 'flow':
        return [o for o in out if o not in ('init', 'rtol', 'thermo-noise', 'order', 'adv4')] + ['maxsteps']
    out += ['reinit', 'limit', 'sync', 'chem', 'energy', 'vol', 'restart', 'maxsteps', 'initchange']
    if kind in ('cv', 'cp'):
        out += ['mdot', 'mdotconst']
    if kind == 'sens':
        # sensitivity settings are tied to the integrator
        out = [o for o in out if o not in ('chem', 'vol', 'energy', 'initchange')] + ['chem']
    return out


def tasks(tier):
    out = [dict(kind=k, mode='fail', part=i) for k in (('cv',) if tier == 'quick' else ('cv', 'cp')) for i in range(len(FAILS))]
    for k in FILES:
        ops = ops_for(k)
        if tier == 'quick':
            out.append(dict(kind=k, mode='depth2'))
            firsts = ['step3'] if k == 'cv' else ['adv']
            if k == 'flow':
                continue
            for f in firsts:
                for s in (range(0, len(ops), 2) if k in ('cv', 'cp') else [None]):
                    out.append(dict(kind=k, mode='three', first=f, seconds=None if s is None else ops[s:s + 2]))
        else:
            for f in ops:
                for s in ops:
                    out.append(dict(kind=k, mode='deep', prefix=[f, s]))
    return out


# a failing callback is slow (the solver retries): its partners are listed
FAILS = [('fail', o) for o in ('adv', 'step', 'sync', 'query', 'back')] + [('adv', 'fail'), ('step3', 'fail'), ('adv4', 'fail'), ('limit', 'fail'), ('sync', 'fail')]


class Model:
    """Reference: uninterrupted integrations of new networks."""

    def __init__(self):
        self.cache = {}
        self.nets = {}

    def at(self, kind, key, snap, t):
        k = (key, t)
        if k not in self.cache:
            if len(self.cache) > 4000:
                self.cache.clear()
            s = Sim(kind, snap, tight=True)
            if t > snap['t'] + 1e-12 * max(snap['t'], SCALE[kind]) + 1e-15:
                s.net.advance(t)
            else:
                s.net.initialize()
            self.cache[k] = s.contents()
        return self.cache[k]


def run(task, ctx):
    kind = task['kind']
    ops = ops_for(kind)
    if task['mode'] == 'fail':
        seqs = [FAILS[task['part']]]
    elif task['mode'] == 'depth2':
        seqs = [(a,) for a in ops] + list(itertools.product(ops, repeat=2))
    elif task['mode'] == 'three':
        last = [o for o in ops if o in ('adv', 'step', 'query', 'sync')]
        seqs = [(task['first'], b, c) for b in (task['seconds'] or ops) for c in last]
    else:
        p = tuple(task['prefix'])
        seqs = [p + (c,) for c in ops] + [p + (c, d) for c in ops for d in ('adv', 'step')]
    ref = Model()
    for q in seqs:
        trace(ctx, kind, q, ref)


def trace(ctx, kind, seq, ref):
    snap = start(kind)
    sim = Sim(kind, snap)
    key = ()
    ctx.ev()
    moved = pending = init = False
    vk = f'{kind}:{"/".join(seq)}'
    prev = sim.contents()
    for i, op in enumerate(seq + (() if seq[-1] in MOVE else ('adv',))):
        t0 = sim.time()
        net = sim.net
        dt = SCALE[kind]
        failed = False
        limit = np.inf
        changed = None
        cont = True
        try:
            if op == 'adv' or op == 'adv4':
                limit = t0 + dt * (4 if op == 'adv4' else 1)
                got = net.advance(limit)
                ctx.eq(f'{vk}:returned', got, sim.time(), f'{op}: returned time vs time')
                ctx.eq(f'{vk}:reached', sim.time(), limit, f'{op}: time reached')
                moved = True
            elif op in ('step', 'step3'):
                for _ in range(1 if op == 'step' else 3):
                    a = sim.time()
                    got = net.step()
                    ctx.check(f'{vk}:steptime', got == sim.time() and got > a, f'step from {a} returned {got}, time {sim.time()}')
                moved = True
            elif op == 'same':
                net.advance(t0)
            elif op == 'back':
                before = sim.contents()
                if t0 > snap['t']:
                    try:
                        net.advance(0.5 * (snap['t'] + t0))
                        if sim.time() < t0:
                            ctx.violation(f'{vk}:back', f'advance to an earlier time went from {t0} to {sim.time()}')
                    except ct.CanteraError:
                        pass
                    # a network that still has to be initialised starts from t0, which is later than the target too
                    ctx.eq(f'{vk}:backtime', sim.time(), t0, 'time after a refused advance')
                    ctx.close(f'{vk}:backstate', sim.contents(), before, rtol=1e-9, atol=1e-14, msg='contents after a refused advance')
            elif op == 'query':
                before = sim.contents()
                for r in sim.r:
                    _ = r.thermo.cp_mass, r.kinetics.net_production_rates, r.mass, r.T, r.density, r.Y
                    if kind != 'flow':
                        r.get_state()
                if kind in ('precon',):
                    net.initialize() if not moved else None
                    sim.r[0].jacobian
                    sim.r[0].finite_difference_jacobian
                if kind != 'flow' and moved and not pending:
                    net.get_state()
                    net.get_derivative(1)
                    net.solver_stats
                if kind == 'sens' and moved:
                    net.sensitivities()
                for d in sim.keep[:2]:
                    d.mass_flow_rate if moved else None
                if sim.keep:
                    sim.keep[2].expansion_rate, sim.keep[2].heat_rate
                ctx.close(f'{vk}:query', sim.contents(), before, rtol=1e-9, atol=1e-14, msg='contents after queries')
            elif op == 'reinit':
                net.reinitialize()
            elif op == 'init':
                net.initialize()
            elif op == 'rtol':
                net.rtol = 3e-10
            elif op == 'maxstep':
                net.max_time_step = dt / 7
            elif op == 'order':
                net.max_order = 3
            elif op == 'limit':
                # a limit which is never reached must not disturb the integration
                net.initialize() if not moved else None
                sim.r[0].set_advance_limit('H2' if kind != 'surf' else 'CH4', 1e6)
            elif op == 'thermo-noise':
                # using the phase objects for something else without synchronising
                for g in sim.g:
                    g.TPX = 400, 2e5, 'AR:1' if kind == 'surf' else 'N2:1'
            elif op == 'maxsteps':
                net.max_steps = 2
                limit = t0 + 1000 * dt
                try:
                    net.advance(limit)
                    ctx.skip('two steps were enough')
                except ct.CanteraError:
                    pass
                net.max_steps = 20000
                moved = True
            elif op == 'fail':
                sim.f.boom = t0 + 0.5 * dt
                limit = t0 + dt
                try:
                    net.advance(limit)
                    ctx.skip('no failure')
                except Exception:
                    pass
                sim.f.boom = None
                moved = True
                failed = True
            # --- changes: the model restarts from the state made by the user ---
            elif op == 'sync':
                th = sim.r[-1].thermo
                th.TPX = 1300., 1.3e5, 'CH4:0.2,O2:0.2,AR:0.7' if kind == 'surf' else 'H2:1,O2:1,AR:5,H2O:0.3'
                sim.r[-1].syncState()
                changed = {}
            elif op in ('chem', 'energy'):
                r = sim.r[0]
                if op == 'chem':
                    r.chemistry_enabled = not r.chemistry_enabled
                else:
                    r.energy_enabled = not r.energy_enabled
                if init:
                    net.reinitialize()
                changed = {}
            elif op == 'vol':
                sim.r[0].volume = 0.3
                if init:
                    net.reinitialize()
                changed = {}
            elif op in ('mdot', 'mdotconst'):
                sim.f = Flag(1.7)
                if op == 'mdot':
                    sim.m.mass_flow_rate = sim.f
                else:
                    sim.m.mass_flow_rate = 1.7
                if init:
                    net.reinitialize()
                changed = {}
            elif op == 'restart':
                net.initial_time = t0 + 1.0
                changed = {}
                t0 = sim.time()
                ctx.close(f'{vk}:restart', t0, net.initial_time, rtol=1e-14, msg='time after setting the initial time')
            elif op == 'initchange':
                # changed contents followed by a complete initialisation
                th = sim.r[0].thermo
                th.TP = th.T + 50, th.P
                sim.r[0].syncState()
                net.initialize()
                changed = {}
        except ct.CanteraError as e:
            ctx.violation(f'{vk}:{op}', f'{op} failed: {str(e)[:400]}')
            return
        init |= op not in ('rtol', 'maxstep', 'order', 'thermo-noise', 'chem', 'energy', 'vol', 'mdot', 'mdotconst', 'restart', 'sync')
        ctx.trans()
        t = sim.time()
        ctx.state((kind, seq[:i + 1]))
        if t < t0:
            ctx.violation(f'{vk}:time', f'time decreased from {t0} to {t} in {op}')
            return
        if t > limit:
            ctx.violation(f'{vk}:past', f'time {t} passed the requested {limit} in {op}')
            return
        if changed is not None:
            snap = sim.snapshot(**changed)
            key = seq[:i + 1]
            pending = True
            continue
        if op in MOVE:
            pending = False
        now = sim.contents()
        want = ref.at(kind, key, snap, t)
        sc = np.full(len(now), 1e-5)
        tol = 2e-5 if op not in ('maxsteps', 'fail') else 1e-3
        if kind == 'flow':
            tol = max(tol, 1e-4)
        if not ctx.close(f'{vk}:{op}', now, want, rtol=tol, scale=1e-3 if kind == 'surf' else 1e-4, atol=1e-10,
                         msg=f'contents at time {t} after {op} vs uninterrupted integration from {snap["t"]}'):
            return
        if failed:
            # the integrator stopped at a discontinuity: a restart from the contents
            net.reinitialize()
            snap = sim.snapshot()
            key = seq[:i + 1]
        if kind != 'flow' and moved and op not in ('maxsteps', 'fail'):
            y = net.get_state()
            ctx.close(f'{vk}:netstate', y[-1], sim.r[-1].get_state()[-1], rtol=1e-12, msg='network state vs reactor state')
    if moved or True:
        ctx.trace()
        ctx.sample(vk)
        ctx.outcome(np.round(now, 6).tolist() if changed is None else seq)
