"""C37: histories of Quantity objects against conserved sums."""
import itertools
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C37', 'model_checking'
BUILD = ['py']
TECHNIQUE = ('explicit exploration of all operation sequences up to a depth on pools of real Quantity objects sharing one or two phase objects, '
             'with balances checked on each transition and a reference list of (amount, state)')
LEVEL_NOTE = 'After every operation all quantities of the pool are compared with the reference and every extensive property with amount times a single state.'
RULE = 'A case is a sequence of operations; it is non-trivial when an operation changed a quantity. States are distinct reference pools; transitions are operations.'
ASSUMPTIONS = ['extensive properties of a single state are those of a separate phase object', 'energy balances hold to the tolerance of the property-pair setters (1e-6 relative to the range of the property)']
BOUNDS = {'quick': '7 phases/bases, 6 constant pairs, 37 operations, depth 2', 'thorough': 'depth 3 for four combinations'}

PH = {
    'gas': (lambda: ct.Solution('h2o2.yaml', 'ohmech', transport_model=None), ['H2:2,O2:1,AR:3', 'H2O:1,N2:2', 'O2:1'], 'mass'),
    'gas-molar': (lambda: ct.Solution('h2o2.yaml', 'ohmech', transport_model=None), ['H2:2,O2:1,AR:3', 'H2O:1,N2:2', 'O2:1'], 'molar'),
    'pr': (lambda: ct.Solution('co2_PR_example.yaml', 'CO2-PR', transport_model=None), ['CO2:0.6,H2:0.4', 'H2O:0.1,N2:2', 'CO2:1,CH4:0.1'], 'mass'),
    'rk-molar': (lambda: ct.Solution('co2_RK_example.yaml', 'carbondioxide', transport_model=None), ['CO2:0.6,H2:0.4', 'H2O:0.1,H2:2', 'CO2:1,CH4:0.1'], 'molar'),
    'water': (lambda: ct.Solution('liquidvapor.yaml', 'water'), ['H2O:1'] * 3, 'mass'),
    'purefluid': (lambda: ct.PureFluid('liquidvapor.yaml', 'water'), ['H2O:1'] * 3, 'mass'),
    'n2-molar': (lambda: ct.PureFluid('liquidvapor.yaml', 'nitrogen'), ['N2:1'] * 3, 'molar'),
}
TS, P0 = (480., 700., 900.), 2e5
PAIRS = ('UV', 'HP', 'TP', 'TV', 'SP', 'SV')


class Q:
    """Reference quantity."""

    def __init__(self, g, mass, const):
        self.m, self.c = mass, const
        self.take(g)

    def take(self, g):
        self.T, self.D, self.Y = g.T, g.density_mass, g.Y.copy()

    def put(self, g):
        g.TDY = self.T, (self.D if g.basis == 'mass' else None), self.Y
        if g.basis != 'mass':
            g.TD = self.T, self.D / g.mean_molecular_weight
        return g

    def copy(self):
        q = object.__new__(Q)
        q.__dict__.update(self.__dict__)
        q.Y = self.Y.copy()
        return q

    def ext(self, g):
        self.put(g)
        return dict(U=self.m * g.int_energy_mass, V=self.m * g.volume_mass, H=self.m * g.enthalpy_mass, S=self.m * g.entropy_mass, G=self.m * g.gibbs_mass,
                    n=self.m / g.mean_molecular_weight, T=g.T, P=g.P)


class Env:
    def __init__(self, k, const):
        self.k, self.const = k, const
        self.g, self.h, self.r = PH[k][0](), PH[k][0](), PH[k][0]()
        self.comps, b = PH[k][1], PH[k][2]
        for g in (self.g, self.h, self.r):
            g.basis = b
        T2 = TS[1]
        self.set(self.g, TS[0], P0, self.comps[0])
        a = ct.Quantity(self.g, mass=2.5, constant=const)
        self.ref = {'a': Q(self.g, 2.5, const)}
        self.set(self.g, TS[0] if const in ('TP', 'TV') else T2, P0 if 'P' in const else 3 * P0, self.comps[1])
        b = ct.Quantity(self.g, moles=0.2, constant=const)
        self.ref['b'] = Q(self.g, 0.2 * self.g.mean_molecular_weight, const)
        self.set(self.h, TS[0] if const in ('TP', 'TV') else TS[2], P0, self.comps[2])
        c = ct.Quantity(self.h, constant=const)
        self.ref['c'] = Q(self.h, 1.0, const)
        self.q = {'a': a, 'b': b, 'c': c}

    @staticmethod
    def set(g, T, P, X):
        g.TPX = T, P, X


OPS = {}


def op(name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


def simple(name, act, ref):
    @op(name)
    def _(e, ctx, key):
        act(e)
        ref(e)


simple('a.mass=', lambda e: setattr(e.q['a'], 'mass', 0.75), lambda e: setattr(e.ref['a'], 'm', 0.75))


@op('a.moles=')
def _(e, ctx, key):
    e.q['a'].moles = 0.3
    e.ref['a'].m = 0.3 * e.ref['a'].put(e.r).mean_molecular_weight


@op('c.moles=')
def _(e, ctx, key):
    e.q['c'].moles = 1.3
    e.ref['c'].m = 1.3 * e.ref['c'].put(e.r).mean_molecular_weight


@op('a*=2')
def _(e, ctx, key):
    old = e.q['a']
    e.q['a'] *= 2
    ctx.check(key, e.q['a'] is old, 'in-place scaling made another object')
    e.ref['a'].m *= 2


@op('d=a*3')
def _(e, ctx, key):
    e.q['d'] = e.q['a'] * 3
    e.ref['d'] = e.ref['a'].copy()
    e.ref['d'].m *= 3


@op('d=0.5*b')
def _(e, ctx, key):
    e.q['d'] = 0.5 * e.q['b']
    e.ref['d'] = e.ref['b'].copy()
    e.ref['d'].m *= 0.5


def mix(e, ctx, key, x, y, out, inplace):
    qx, qy, rx, ry = e.q[x], e.q[y], e.ref[x], e.ref[y]
    a, b = rx.ext(e.r), ry.ext(e.r)
    const = rx.c
    ok = rx.c == ry.c
    for i in const:
        if i in 'TP' and abs(a[i] - b[i]) * 2 > 1e-7 * (a[i] + b[i]):
            ok = False
    try:
        if inplace:
            tmp = qx
            tmp += qy
            ctx.check(key, tmp is qx, 'in-place addition made another object')
            res = tmp
        else:
            res = qx + qy
    except ValueError as err:
        ctx.check(key + ':refused', not ok, f'addition of {x} and {y} at constant {const} refused: {str(err)[:200]}')
        return
    except ct.CanteraError as err:
        ctx.skip('state-not-reachable')
        # a failed addition must not alter the operands (checked by the caller)
        return
    if not ok:
        ctx.violation(key + ':accepted', f'addition at constant {const} of unequal T or P, or of different pairs, accepted: {rx.c}, {ry.c}, {a}, {b}')
        return
    m = rx.m + ry.m
    Y = (rx.m * rx.Y + ry.m * ry.Y) / m
    ctx.close(key + ':mass', res.mass, m, rtol=1e-12, msg=f'mass of {x}+{y}')
    ctx.close(key + ':Y', res.Y, Y, rtol=1e-10, atol=1e-14, msg=f'composition of {x}+{y} (elements and species)')
    s = Q.__new__(Q)
    s.m, s.c = res.mass, const
    s.T, s.D, s.Y = float(res.T), float(res.density_mass), np.array(res.Y)
    c = s.ext(e.r)
    for i in const:
        if i in 'TP':
            ctx.close(f'{key}:{i}', c[i], a[i], rtol=1e-7, msg=f'{i} of {x}+{y} at constant {const}')
        else:
            scale = abs(a[i]) + abs(b[i]) + (m * 1e3 if i in 'UH' else 0)
            ctx.close(f'{key}:{i}', c[i], a[i] + b[i], rtol=2e-6, scale=scale, msg=f'{i} of {x}+{y} at constant {const}')
    if inplace:
        e.ref[x] = s
    else:
        e.q[out], e.ref[out] = res, s


for _x, _y, _o, _i in (('a', 'b', 'd', False), ('b', 'a', 'd', False), ('a', 'c', 'd', False), ('a', 'b', None, True), ('c', 'a', None, True), ('a', 'a', 'd', False), ('a', 'a', None, True)):
    op(f'{_o}={_x}+{_y}' if not _i else f'{_x}+={_y}')(lambda e, ctx, key, x=_x, y=_y, o=_o, i=_i: mix(e, ctx, key, x, y, o, i))


@op('d+=b')
def _(e, ctx, key):
    if 'd' in e.q:
        mix(e, ctx, key, 'd', 'b', None, True)


def setter(name, q, attr, val):
    @op(name)
    def _(e, ctx, key):
        v = val(e)
        r = e.ref[q].put(e.r)
        if v is None:
            return
        try:
            setattr(r, attr, v)
        except ct.CanteraError as x:
            try:
                setattr(e.q[q], attr, v)
            except ct.CanteraError:
                return
            ctx.violation(key, f'{name} accepted; a single state refuses {str(x)[:200]}')
            return
        setattr(e.q[q], attr, v)
        e.ref[q].take(r)


setter('a.TP=', 'a', 'TP', lambda e: (TS[2], P0))
setter('b.TPX=', 'b', 'TPX', lambda e: (TS[0], P0, e.comps[2]))
setter('a.X=', 'a', 'X', lambda e: e.comps[1])
setter('b.TPX-none', 'b', 'TPX', lambda e: (None, None, e.comps[0]))
setter('a.HP=', 'a', 'HP', lambda e: (None, 1.5 * P0))
setter('b.TD=', 'b', 'TD', lambda e: (TS[1], None))
setter('a.SP-bad', 'a', 'TP', lambda e: (-1., P0))


@op('a.state=b.state')
def _(e, ctx, key):
    e.q['a'].state = e.q['b'].state
    m = e.ref['a'].m
    c = e.ref['a'].c
    e.ref['a'] = e.ref['b'].copy()
    e.ref['a'].m, e.ref['a'].c = m, c


@op('a.equilibrate')
def _(e, ctx, key):
    if not e.k.startswith('gas') or e.ref['a'].c in ('TV',):
        return
    before = e.ref['a'].ext(e.r)
    el = elements(e, e.ref['a'])
    try:
        e.q['a'].equilibrate()
    except ct.CanteraError:
        ctx.skip('no equilibrium')
        return
    s = e.ref['a'].copy()
    s.T, s.D, s.Y = float(e.q['a'].T), float(e.q['a'].density_mass), np.array(e.q['a'].Y)
    after = s.ext(e.r)
    for i in s.c:
        scale = abs(before[i]) + (s.m * 1e6 if i in 'UH' else 0)
        ctx.close(f'{key}:eq:{i}', after[i], before[i], rtol=1e-6, scale=scale, msg=f'{i} after equilibrate at {s.c}')
    ctx.close(f'{key}:eq:elements', elements(e, s), el, rtol=1e-8, atol=1e-12, msg='elements after equilibrate')
    e.ref['a'] = s


def elements(e, s):
    g = s.put(e.r)
    return [s.m * g.elemental_mass_fraction(x) for x in g.element_names]


@op('b.equilibrate-TP')
def _(e, ctx, key):
    if not e.k.startswith('gas'):
        return
    el = elements(e, e.ref['b'])
    e.q['b'].equilibrate('TP')
    s = e.ref['b'].copy()
    s.T, s.D, s.Y = float(e.q['b'].T), float(e.q['b'].density_mass), np.array(e.q['b'].Y)
    before, after = e.ref['b'].ext(e.r), s.ext(e.r)
    ctx.close(f'{key}:eq', [after['T'], after['P']], [before['T'], before['P']], rtol=1e-8, msg='T, P after equilibrate')
    ctx.close(f'{key}:eq:elements', elements(e, s), el, rtol=1e-8, atol=1e-12, msg='elements after equilibrate')
    e.ref['b'] = s


@op('a.phi')
def _(e, ctx, key):
    if not e.k.startswith('gas'):
        return
    e.q['a'].set_equivalence_ratio(0.7, 'H2:1', 'O2:1,N2:3.76')
    r = e.ref['a'].put(e.r)
    r.set_equivalence_ratio(0.7, 'H2:1', 'O2:1,N2:3.76')
    e.ref['a'].take(r)


@op('b.Z')
def _(e, ctx, key):
    if not e.k.startswith('gas'):
        return
    e.q['b'].set_mixture_fraction(0.4, 'H2:1', 'O2:1,N2:3.76')
    r = e.ref['b'].put(e.r)
    r.set_mixture_fraction(0.4, 'H2:1', 'O2:1,N2:3.76')
    e.ref['b'].take(r)


@op('constant')
def _(e, ctx, key):
    e.q['a'].constant = 'HP'
    e.ref['a'].c = 'HP'


@op('b.constant')
def _(e, ctx, key):
    e.q['b'].constant = 'HP'
    e.ref['b'].c = 'HP'


@op('bad')
def _(e, ctx, key):
    other = ct.Quantity(ct.Solution('h2o2.yaml', 'ohmech') if not e.k.startswith('gas') else ct.Solution('air.yaml'), mass=1, constant=e.ref['a'].c)
    for f in (lambda: e.q['a'] + other, lambda: e.q['a'].__iadd__(other), lambda: ct.Quantity(e.g, constant='XX'), lambda: ct.Quantity(e.g, constant='PT')):
        try:
            f()
        except ValueError:
            continue
        ctx.violation(key + ':bad', 'addition of another phase, or unknown pair, accepted')


@op('noise')
def _(e, ctx, key):
    e.g.TPX = TS[2] * 0.8, 1.2 * P0, e.comps[2]
    e.h.TPX = TS[1] * 1.1, 0.7 * P0, e.comps[0]


@op('noise-phase')
def _(e, ctx, key):
    # changing the phase object handed out by a quantity does not change the quantity
    e.q['b'].phase.TPX = TS[2], 0.9 * P0, e.comps[0]


@op('read')
def _(e, ctx, key):
    for q in e.q.values():
        q.T, q.cp_mass, q.enthalpy, q.mole_fraction_dict()


@op('del b')
def _(e, ctx, key):
    if 'd' in e.q:
        del e.q['d'], e.ref['d']


def verify(ctx, key, e, seq):
    ok = True
    for n, q in e.q.items():
        r = e.ref[n]
        x = r.ext(e.r)
        msg = f'{n} after {seq} ({e.k}, {e.const})'
        ok &= ctx.close(f'{key}:{n}:mass', q.mass, r.m, rtol=1e-11, msg='mass of ' + msg)
        ok &= ctx.close(f'{key}:{n}:moles', q.moles, x['n'], rtol=1e-10, msg='moles of ' + msg)
        ok &= ctx.close(f'{key}:{n}:T', q.T, r.T, rtol=1e-9, msg='T of ' + msg)
        ok &= ctx.close(f'{key}:{n}:D', q.density_mass, r.D, rtol=1e-8, msg='density of ' + msg)
        ok &= ctx.close(f'{key}:{n}:Y', q.Y, r.Y, rtol=1e-8, atol=1e-14, msg='Y of ' + msg)
        for i, (a, b) in {'U': ('int_energy', 'U'), 'V': ('volume', 'V'), 'H': ('enthalpy', 'H'), 'S': ('entropy', 'S'), 'G': ('gibbs', 'G')}.items():
            sc = abs(x[i]) + r.m * {'U': 1e3, 'H': 1e3, 'G': 1e3, 'S': 1., 'V': 0}[i]
            ok &= ctx.close(f'{key}:{n}:{i}', [getattr(q, a), getattr(q, b)], [x[i]] * 2, rtol=1e-7, scale=sc, msg=f'{a} of {msg}')
        ok &= ctx.eq(f'{key}:{n}:c', q.constant, r.c, 'constant of ' + msg)
        ok &= ctx.close(f'{key}:{n}:phase', [q.phase.T, q.phase.P], [r.T, x['P']], rtol=1e-6, msg='phase of ' + msg)
    return ok


def tasks(tier):
    out = []
    for k in PH:
        for c in PAIRS:
            full = k in ('gas', 'rk-molar') and c in ('UV', 'HP') or tier == 'thorough' and (k, c) in (('gas', 'UV'), ('gas-molar', 'HP'), ('purefluid', 'UV'), ('rk-molar', 'SV'))
            mixing = ('a+=b', 'd=a+b', 'd=b+a', 'a.TP=', 'b.constant')
            for f in OPS:
                if full or f in mixing or tier == 'thorough':
                    out.append(dict(kind=k, const=c, first=f, depth=3 if full and tier == 'thorough' else 2))
    return out


def run(task, ctx):
    depth = task['depth']
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (task['first'],) + rest
        e = Env(task['kind'], task['const'])
        key = f'{task["kind"]}:{task["const"]}:{"/".join(seq)}'
        ctx.ev()
        if not verify(ctx, key, e, ()):
            return
        good = True
        for i, o in enumerate(seq):
            try:
                OPS[o](e, ctx, key)
            except Exception as x:
                ctx.violation(key, f'{o} after {seq[:i]}: {type(x).__name__}: {str(x)[:300]}')
                good = False
                break
            ctx.trans()
            if not verify(ctx, key, e, seq[:i + 1]):
                good = False
                break
            ctx.state((task['kind'], sorted((n, r.c, round(r.m, 6), round(r.T, 3)) for n, r in e.ref.items())))
        if good:
            ctx.trace()
            ctx.sample(key)
        ctx.outcome((task['kind'], round(float(e.ref['a'].T), 3), round(float(e.ref['a'].m), 3)))
