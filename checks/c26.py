"""C26: SolutionArray histories against a reference list of states."""
import itertools
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C26', 'model_checking'
BUILD = ['py']
TECHNIQUE = ('explicit exploration of all operation sequences up to a depth on real SolutionArray objects (base array, slices and a second array '
             'sharing one phase), against a reference list of states')
LEVEL_NOTE = 'After every operation the base array and every slice are compared with the reference; after every sequence all property vectors are compared with single states.'
RULE = ('A case is a sequence of operations; it is non-trivial when at least one operation was accepted. States are distinct reference '
        'contents; transitions are operations executed.')
ASSUMPTIONS = ['the properties of a single state are those of a separate phase object set to the same T, density and composition',
               'slices share data with their parent; a sequence that keeps slices alive cannot grow the parent (documented error)']
BOUNDS = {'quick': '4 phases, 46 operations, depth 2 (all) with the slice alive or not', 'thorough': 'depth 3 (all)'}

PH = {
    'gas': dict(file='h2o2.yaml', phase='ohmech', tr=None, comps=['H2:2,O2:1,AR:3', 'H2O:1,N2:2', 'O2:1'], T=[400., 800., 1500.], P=[1e5, 3e5]),
    'gastr': dict(file='h2o2.yaml', phase='ohmech', tr='multicomponent', comps=['H2:2,O2:1,AR:3', 'H2O:1,N2:2', 'O2:1'], T=[400., 800., 1500.], P=[1e5, 3e5]),
    'water': dict(file='liquidvapor.yaml', phase='water', tr=None, comps=['H2O:1', 'H2O:1', 'H2O:1'], T=[350., 450., 700.], P=[1e5, 3e6]),
    'pr': dict(file='co2_PR_example.yaml', phase='CO2-PR', tr=None, comps=['CO2:0.6,H2:0.4', 'H2O:0.1,N2:2', 'CO2:1,CH4:0.1'], T=[400., 500., 900.], P=[1e5, 3e6]),
}


def new(k):
    d = PH[k]
    if k == 'water':
        return ct.PureFluid(d['file'], d['phase'])
    return ct.Solution(d['file'], d['phase'], transport_model=d['tr'])


class Ref:
    """data: list of [T, D, Y]; extras: name -> list; a view is (index list, shape)."""

    def __init__(self, k):
        self.k, self.g = k, new(k)
        self.pure = k == 'water'
        self.data, self.extra = [], {}

    def st(self, **kw):
        for n, v in kw.items():
            setattr(self.g, n, v)
        return [self.g.T, self.g.density, self.g.Y.copy()]

    def load(self, s):
        self.g.TDY = s[0], s[1], s[2]
        return self.g


class Env:
    def __init__(self, k):
        d = PH[k]
        self.k = k
        self.g = new(k)
        self.ref = Ref(k)
        c, T, P = d['comps'], d['T'], d['P']
        self.c, self.T, self.P = c, T, P
        self.g.TPX = T[0], P[0], c[0]
        base = ct.SolutionArray(self.g, 3, extra={'ef': [1., 2., 3.], 'ei': [1, 2, 3], 'es': ['a', 'b', 'c'], 'em': [[1., 2.], [3., 4.], [5., 6.]]})
        s = self.ref.st(TPX=(T[0], P[0], c[0]))
        self.ref.data = [[s[0], s[1], s[2].copy()] for _ in range(3)]
        self.ref.extra = {'ef': [1., 2., 3.], 'ei': [1, 2, 3], 'es': ['a', 'b', 'c'], 'em': [[1., 2.], [3., 4.], [5., 6.]]}
        self.arrs = {'a': (base, [0, 1, 2], (3,))}
        # make the entries differ
        base.TPX = [T[0], T[1], T[2]], P[1], c[0]
        self.ref.data = [self.ref.st(TPX=(t, P[1], c[0])) for t in T]
        # a second array on the same phase object
        self.other = ct.SolutionArray(self.g, 1)
        self.other.TPX = T[1], P[0], c[1]
        self.odata = self.ref.st(TPX=(T[1], P[0], c[1]))

    def get(self, n):
        return self.arrs[n]


OPS = {}


def op(name, needs='a'):
    def deco(f):
        OPS[name] = (f, needs)
        return f
    return deco


class Rejected(Exception):
    pass


def setall(e, n, **kw):
    a, ix, sh = e.get(n)
    (k, v), = kw.items()
    setattr(a, k, v)


def full(ix, v):
    return [v] * len(ix) if np.ndim(v) == 0 else list(np.ravel(v))


def mk_set(n):
    @op(f'{n}.TPX-scalar', n)
    def _(e):
        a, ix, sh = e.get(n)
        a.TPX = e.T[1], e.P[0], e.c[1]
        for i in ix:
            e.ref.data[i] = e.ref.st(TPX=(e.T[1], e.P[0], e.c[1]))

    @op(f'{n}.TP-vector', n)
    def _(e):
        a, ix, sh = e.get(n)
        Ts = np.linspace(e.T[0], e.T[1], len(ix)) if ix else np.array([])
        a.TP = Ts.reshape(sh), e.P[1]
        for i, t in zip(ix, Ts):
            e.ref.load(e.ref.data[i])
            e.ref.data[i] = e.ref.st(TP=(t, e.P[1]))

    @op(f'{n}.SV-none', n)
    def _(e):
        a, ix, sh = e.get(n)
        a.HP = None, e.P[0]
        for i in ix:
            e.ref.load(e.ref.data[i])
            e.ref.data[i] = e.ref.st(HP=(None, e.P[0]))

    @op(f'{n}.X-matrix', n)
    def _(e):
        a, ix, sh = e.get(n)
        if e.k == 'water':
            q = np.linspace(0, 1, len(ix)).reshape(sh)
            ps = e.ref.load(e.ref.data[0]) and [setattr(e.ref.g, 'TQ', (e.T[0], 0.5)), e.ref.g.P_sat][1]
            a.TPQ = e.T[0], ps, q
            for i, x in zip(ix, q.ravel()):
                e.ref.data[i] = e.ref.st(TQ=(e.T[0], x))
            return
        m = np.zeros(tuple(sh) + (e.ref.g.n_species,))
        fl = m.reshape(-1, e.ref.g.n_species)
        for j in range(len(ix)):
            fl[j] = np.arange(1, e.ref.g.n_species + 1) ** (1 + j % 3)
        if not sh:
            fl = fl.reshape(1, -1)
        a.TPX = None, None, m
        for j, i in enumerate(ix):
            e.ref.load(e.ref.data[i])
            e.ref.data[i] = e.ref.st(TPX=(None, None, fl[j]))

    @op(f'{n}.extra-scalar', n)
    def _(e):
        a, ix, sh = e.get(n)
        a.ef = 7.5
        for i in ix:
            e.ref.extra['ef'][i] = 7.5

    @op(f'{n}.extra-vector', n)
    def _(e):
        a, ix, sh = e.get(n)
        if not sh:
            a.ei = 17
            v = [17]
        else:
            v = list(range(30, 30 + len(ix)))
            a.ei = np.array(v, dtype=int).reshape(sh)
        for i, q in zip(ix, v):
            e.ref.extra['ei'][i] = q

    @op(f'{n}.extra-strings', n)
    def _(e):
        a, ix, sh = e.get(n)
        v = ['z%d' % j for j in range(len(ix))]
        a.es = v[0] if not sh else np.array(v).reshape(sh)
        for i, q in zip(ix, v):
            e.ref.extra['es'][i] = q

    @op(f'{n}.extra-matrix', n)
    def _(e):
        a, ix, sh = e.get(n)
        if not sh:
            a.em = [8., 9.]
            v = [[8., 9.]]
        else:
            v = [[10. + j, 20. + j] for j in range(len(ix))]
            a.em = np.array(v).reshape(tuple(sh) + (2,))
        for i, q in zip(ix, v):
            e.ref.extra['em'][i] = list(q)

    @op(f'{n}.bad-length', n)
    def _(e):
        a, ix, sh = e.get(n)
        for k, v in (('TP', (np.full(7, e.T[0]), e.P[0])), ('TPX', (e.T[0], e.P[0], np.ones((7, e.ref.g.n_species)))), ('TP', (e.T[0],)), ('TPX', (e.T[0], e.P[0]))):
            try:
                setattr(a, k, v)
            except (ValueError, ct.CanteraError, IndexError, TypeError):
                continue
            raise AssertionError(f'{n}.{k} of wrong length accepted')

    @op(f'{n}.bad-extra', n)
    def _(e):
        a, ix, sh = e.get(n)
        if not sh:
            return
        for k, v in (('ef', np.ones(7)), ('em', np.ones((7, 2))), ('es', ['a'] * 7), ('ef', ['x'] * len(ix)), ('ei', np.ones(sh) * 0.5)):
            if not ix or (n == 'a' and k in ('ef', 'ei') and np.size(v) == len(ix)):    # a whole column may be given another type
                continue
            try:
                setattr(a, k, v)
            except (ValueError, ct.CanteraError, IndexError, TypeError):
                continue
            raise AssertionError(f'{n}.{k} = {v!r} accepted')

    @op(f'{n}.bad-state', n)
    def _(e):
        a, ix, sh = e.get(n)
        if not ix:
            return
        for k, v in (('TPX', (e.T[0], e.P[0], 'nosuch:1')), ('TPY', (e.T[0], e.P[0], {'nosuch': 1})), ('TP', (-5.0, e.P[0]))):
            try:
                setattr(a, k, v)
            except (ValueError, ct.CanteraError):
                continue
            raise AssertionError(f'{n}.{k} = {v!r} accepted')


mk_set('a')
mk_set('v')


@op('append-state')
def _(e):
    grow(e, lambda a, kw: a.append(np.r_[e.T[2], 0.8 if e.k != 'water' else 1.5, e.ref.g.Y] if e.k != 'water' else np.array([e.T[2], 1.5, 1.0])[:3], **kw),
         [e.T[2], 0.8 if e.k != 'water' else 1.5, None])


@op('append-TPX')
def _(e):
    if e.k == 'water':     # full states of a pure fluid are given with Q
        s = e.ref.st(TQ=(e.T[1], 0.3))
        return grow(e, lambda a, kw: a.append(TPQ=(e.T[1], e.ref.g.P_sat, 0.3), **kw), s)
    grow(e, lambda a, kw: a.append(TPX=(e.T[1], e.P[1], e.c[2]), **kw), e.ref.st(TPX=(e.T[1], e.P[1], e.c[2])))


@op('append-keys')
def _(e):
    if e.k == 'water':
        s = e.ref.st(TD=(e.T[0], 10.))
        return grow(e, lambda a, kw: a.append(T=e.T[0], D=10., **kw), s)
    grow(e, lambda a, kw: a.append(T=e.T[0], P=e.P[0], Y=e.c[1], **kw), e.ref.st(TPY=(e.T[0], e.P[0], e.c[1])))


@op('append-HPX')
def _(e):
    if e.k == 'water':
        return
    e.ref.st(TPX=(e.T[1], e.P[1], e.c[0]))
    h = e.ref.g.h
    grow(e, lambda a, kw: a.append(HPX=(h, e.P[1], e.c[0]), **kw), e.ref.st(TPX=(e.T[1], e.P[1], e.c[0])))


def grow(e, f, s):
    a, ix, sh = e.get('a')
    kw = dict(ef=4.25, ei=40, es='app', em=[0.5, 0.25])
    if s[2] is None:
        s = [s[0], s[1], e.ref.g.Y.copy()]
    if 'v' in e.arrs or len(sh) != 1:
        try:
            f(a, kw)
        except (ct.CanteraError, IndexError):
            return
        raise AssertionError('append to an array whose data are shared (or which is not one-dimensional) accepted')
    f(a, kw)
    e.ref.data.append([s[0], s[1], np.array(s[2])])
    for k, v in kw.items():
        e.ref.extra[k].append(v)
    e.arrs['a'] = (a, list(range(len(e.ref.data))), (len(e.ref.data),))


@op('append-bad')
def _(e):
    a, ix, sh = e.get('a')
    ok = dict(ef=4.25, ei=40, es='app', em=[0.5, 0.25])
    for kw in (dict(TPX=(e.T[0], e.P[0], e.c[0])), dict(ok, TPX=(e.T[0], e.P[0], 'nosuch:1')), dict(ok, TP=(e.T[0], e.P[0])), dict(ok, T=1.0),
               dict(ok, TPX=(e.T[0], e.P[0], e.c[0]), ef='x'), dict(ok, TPX=(e.T[0], e.P[0], e.c[0]), ei=0.5), dict(ok, TPX=(e.T[0], e.P[0], e.c[0]), em=[1., 2., 3.]),
               dict(ok, TPX=(e.T[0], e.P[0], e.c[0]), nosuch=1), dict(ok, state=[1., 2., 3., 4.]),
               dict(ef=1., ei=2, es='x', TPX=(e.T[0], e.P[0], e.c[0]))):
        try:
            a.append(**kw)
        except (ct.CanteraError, IndexError, TypeError, KeyError, ValueError):
            continue
        raise AssertionError(f'append({kw}) accepted')


def view(name, f):
    @op(name)
    def _(e):
        a, ix, sh = e.get('a')
        sel = np.array(ix).reshape(sh)
        try:
            want = f(sel)
            n = want.size
        except IndexError:
            want = None
        try:
            v = f(a)
        except IndexError:
            if want is not None:
                raise AssertionError(f'{name} refused')
            return
        if want is None:
            raise AssertionError(f'{name} accepted')
        e.arrs['v'] = (v, list(np.ravel(want)), np.shape(want))


view('v=a[1]', lambda a: a[1])
view('v=a[1:]', lambda a: a[1:])
view('v=a[::-1]', lambda a: a[::-1])
view('v=a[[2,0]]', lambda a: a[[2, 0]])
view('v=a[mask]', lambda a: a[np.array([True, False, True] + [False] * (len(a) - 3))] if len(a) >= 3 else a[0:0])
view('v=a[-1]', lambda a: a[-1])
view('v=a[9]', lambda a: a[9])
view('v=a[-9]', lambda a: a[-9])
view('v=a[:2]', lambda a: a[:2])


@op('v=v[::-1]', 'v')
def _(e):
    a, ix, sh = e.get('v')
    if not sh:
        return
    v = a[::-1]
    w = np.array(ix).reshape(sh)[::-1]
    e.arrs['v'] = (v, list(np.ravel(w)), w.shape)


@op('v=v[1:]', 'v')
def _(e):
    a, ix, sh = e.get('v')
    if not sh:
        return
    v = a[1:]
    w = np.array(ix).reshape(sh)[1:]
    e.arrs['v'] = (v, list(np.ravel(w)), w.shape)


@op('v-none', 'v')
def _(e):
    del e.arrs['v']


@op('repeated')
def _(e):
    a, ix, sh = e.get('a')
    try:
        a[[0, 0]]
    except ct.CanteraError:
        return
    raise AssertionError('repeated indices accepted')


@op('sort-T')
def _(e):
    a, ix, sh = e.get('a')
    if len(sh) != 1:
        try:
            a.sort('T')
        except TypeError:
            return
        raise AssertionError('sort of an array with several dimensions accepted')
    T = [e.ref.data[i][0] for i in ix]
    if len(set(np.round(T, 6))) != len(T):
        return
    a.sort('T')
    o = list(np.argsort(T))
    e.ref.data = [e.ref.data[i] for i in o]
    for k in e.ref.extra:
        e.ref.extra[k] = [e.ref.extra[k][i] for i in o]


@op('sort-ei-reverse')
def _(e):
    a, ix, sh = e.get('a')
    if len(sh) != 1:
        return
    v = e.ref.extra['ei']
    if len(set(v)) != len(v):
        return
    a.sort('ei', reverse=True)
    o = list(np.argsort(v)[::-1])
    e.ref.data = [e.ref.data[i] for i in o]
    for k in e.ref.extra:
        e.ref.extra[k] = [e.ref.extra[k][i] for i in o]


@op('reshape')
def _(e):
    a, ix, sh = e.get('a')
    n = len(ix)
    if n % 2 == 0 and n:
        s = (n // 2, 2) if len(sh) == 1 else (n,)
    else:
        s = (1, n) if len(sh) == 1 else (n,)
    a.shape = s
    e.arrs['a'] = (a, ix, s)


@op('v-reshape-bad', 'v')
def _(e):
    a, ix, sh = e.get('v')
    try:
        a.shape = (len(ix) + 3,)
    except ct.CanteraError:
        return
    raise AssertionError('shape of a slice changed')


@op('gas-noise')
def _(e):
    e.g.TPX = e.T[2] * 0.9, e.P[0] * 1.1, e.c[2]


@op('other-read')
def _(e):
    e.other.T, e.other.cp
    e.other.TDY


@op('other-set')
def _(e):
    e.other.TPX = e.T[0], e.P[1], e.c[2]
    e.odata = e.ref.st(TPX=(e.T[0], e.P[1], e.c[2]))


@op('read')
def _(e):
    for a, ix, sh in e.arrs.values():
        if ix:
            a.T, a.P, a.X, a.cp_mass


@op('species-slice')
def _(e):
    a, ix, sh = e.get('a')
    names = [e.ref.g.species_names[j] for j in ((1, 3) if e.ref.g.n_species > 3 else (0,))]
    got = a(*names).Y
    want = np.array([[e.ref.data[i][2][e.ref.g.species_index(s)] for s in names] for i in ix]).reshape(tuple(sh) + (len(names),))
    if not np.allclose(got, want, rtol=1e-12, atol=1e-15):
        raise AssertionError(f'a({names}).Y = {got} want {want}')


@op('equilibrate')
def _(e):
    a, ix, sh = e.get('a')
    if e.k not in ('gas', 'gastr'):
        return
    a.equilibrate('TP')
    for i in ix:
        g = e.ref.load(e.ref.data[i])
        g.equilibrate('TP')
        e.ref.data[i] = [g.T, g.density, g.Y.copy()]


@op('equivalence-ratio')
def _(e):
    a, ix, sh = e.get('a')
    if e.k not in ('gas', 'gastr'):
        return
    ph = np.linspace(0.5, 1.5, len(ix)).reshape(sh)
    a.set_equivalence_ratio(ph, 'H2', 'O2:1,N2:3.76')
    for i, p in zip(ix, ph.ravel()):
        g = e.ref.load(e.ref.data[i])
        g.set_equivalence_ratio(p, 'H2', 'O2:1,N2:3.76')
        e.ref.data[i] = [g.T, g.density, g.Y.copy()]


def tasks(tier):
    out = []
    names = list(OPS)
    for k in PH:
        for f in names if tier == 'thorough' else names:
            if k == 'gastr' and tier == 'quick' and f not in ('append-TPX', 'v=a[1]', 'gas-noise'):
                continue
            out.append(dict(kind=k, first=f))
    return out


def run(task, ctx):
    names = list(OPS)
    k = task['kind']
    depth = 3 if ctx.tier == 'thorough' and k in ('gas', 'water') else 2
    pres = [()] + [('v=a[1:]',)] if ctx.tier == 'quick' else [()]
    if k in ('water', 'pr', 'gastr') and ctx.tier == 'quick':
        pres = [('v=a[[2,0]]',)]
    for pre in pres:
        for rest in itertools.product(names, repeat=depth - 1):
            trace(ctx, k, pre + (task['first'],) + rest)
    trace(ctx, k, (task['first'],))


def same(ctx, key, e, seq, i):
    ok = True
    for n, (a, ix, sh) in e.arrs.items():
        msg = f'{n} after {seq[:i + 1]}'
        if not ctx.eq(key + ':shape', tuple(a.shape), tuple(sh), 'shape of ' + msg):
            return False
        if not ix:
            continue
        T, D, Y = (a.TDY if not e.ref.pure else (a.T, a.density, a.Y))
        ns = e.ref.g.n_species
        ok &= ctx.close(key + ':T', T, np.reshape([e.ref.data[j][0] for j in ix], sh), rtol=1e-9, msg='T of ' + msg)
        ok &= ctx.close(key + ':D', D, np.reshape([e.ref.data[j][1] for j in ix], sh), rtol=1e-8, msg='density of ' + msg)
        ok &= ctx.close(key + ':Y', Y, np.reshape([e.ref.data[j][2] for j in ix], tuple(sh) + (ns,)), rtol=1e-8, atol=1e-9 if 'equilibrate' in seq else 1e-15, msg='Y of ' + msg)
        ok &= ctx.close(key + ':ef', a.ef, np.reshape([e.ref.extra['ef'][j] for j in ix], sh), rtol=0, msg='ef of ' + msg)
        ok &= ctx.eq(key + ':ei', a.ei.tolist(), np.reshape([e.ref.extra['ei'][j] for j in ix], sh).tolist(), 'ei of ' + msg)
        ok &= ctx.eq(key + ':es', a.es.tolist(), np.reshape([e.ref.extra['es'][j] for j in ix], sh).tolist(), 'es of ' + msg)
        ok &= ctx.close(key + ':em', a.em, np.reshape([e.ref.extra['em'][j] for j in ix], tuple(sh) + (2,)), rtol=0, msg='em of ' + msg)
    ok &= ctx.close(key + ':other', [e.other.T[0], e.other.density[0]], e.odata[:2], rtol=1e-8, msg=f'the other array of the phase after {seq[:i + 1]}')
    return ok


SA = ct.SolutionArray
SKIP = {'Te', 'electrical_conductivity', 'mobilities', 'electrochemical_potentials', 'net_rates_of_progress_ddC'}


def properties(ctx, key, e, seq):
    groups = list(SA._scalar) + list(SA._n_species) + list(SA._n_total_species) + list(SA._n_species2) + list(SA._n_reactions) + list(SA._strings)
    a, ix, sh = e.get('v' if 'v' in e.arrs and e.arrs['v'][1] else 'a')
    if not ix:
        return
    for p in groups:
        if e.k != 'gastr' and (p in ('viscosity', 'thermal_conductivity', 'species_viscosities', 'mobilities') or 'diff_coeffs' in p):
            continue
        want = []
        try:
            for i in ix:
                want.append(np.array(getattr(e.ref.load(e.ref.data[i]), p)))
            exc = None
        except Exception as x:
            exc = x
        try:
            got = getattr(a, p)
        except Exception as x:
            if exc is None:
                ctx.violation(f'{key}:prop:{p}', f'array property {p} raised {str(x)[:200]}')
            continue
        if exc is not None:
            ctx.violation(f'{key}:prop:{p}', f'array property {p} gave values; a single state raises {str(exc)[:200]}')
            continue
        ctx.trans()
        want = np.array(want)
        want = want.reshape(tuple(sh) + want.shape[1:])
        if p in SA._strings:
            ctx.eq(f'{key}:prop:{p}', got.tolist(), want.tolist(), f'{p} after {seq}')
        else:
            sc = np.nanmax(np.abs(want)) * 1e-9 if want.size else 0
            sc = max(sc, 1e-12)
            ctx.close(f'{key}:prop:{p}', got, want, rtol=1e-2 if '_dd' in p else 1e-6 if e.k in ('water', 'pr') else 1e-7, scale=sc if np.isfinite(sc) else 1e-12, msg=f'{p} after {seq}')


COUNT = [0]


def trace(ctx, k, seq):
    e = Env(k)
    key = f'{k}:{"/".join(seq)}'
    ctx.ev()
    n = 0
    for i, o in enumerate(seq):
        f, needs = OPS[o]
        if needs not in e.arrs:
            continue
        if o in ('v=a[mask]',) and len(e.get('a')[2]) != 1:
            continue
        try:
            f(e)
        except AssertionError as x:
            ctx.violation(key, f'after {seq[:i]}: {x}')
            return
        except Exception as x:
            ctx.violation(key, f'{o} after {seq[:i]}: {type(x).__name__}: {str(x)[:400]}')
            return
        n += 1
        ctx.trans()
        # an operation that changes the phase must not hide behind the location buffered by the comparison
        if not same(ctx, key, e, seq, i):
            return
        ctx.state((k, [list(map(float, d[:2])) for d in e.ref.data], sorted((q, str(v)) for q, v in e.ref.extra.items())))
    if n:
        ctx.trace()
        ctx.sample(key)
    ctx.outcome((k, tuple(round(float(d[0]), 3) for d in e.ref.data)))
    COUNT[0] += 1
    if COUNT[0] % 7 == 1 and 'equilibrate' not in seq:
        properties(ctx, key, e, seq)
