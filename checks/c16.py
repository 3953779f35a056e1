"""C16: every expression built from the functors up to a depth against second-order Taylor arithmetic; operators and lifetimes from Python."""
import gc, itertools, math, subprocess, weakref
import numpy as np
import cantera as ct

PROPERTY, LEVEL = 'C16', 'exploration'
BUILD = ['py', 'h:func1']
TECHNIQUE = ('exhaustive enumeration of functor expressions up to depth 2 (pairs of depth-1 expressions over a smaller set), through the simplifying builders and the plain functors, with values, first and '
             'second derivatives compared with long-double Taylor arithmetic on the expression; all Python operator forms x operand kinds, with operand lifetimes')
LEVEL_NOTE = 'All expressions inside the bounds are built and evaluated at ten points. Points where the exact value is undefined, or leaves the range of double arithmetic in between, are left out.'
RULE = 'A case is one expression at one point; it is non-trivial where the exact value (or derivative) is defined. States are the distinct expressions built.'
ASSUMPTIONS = ['operands are not changed: same write() text and values before and after', 'derivatives at break points of piecewise functions are unspecified']
BOUNDS = {'quick': 'full set of 26 functors: depth 1 complete, depth 2 (depth-1 x leaf); 12 functors: pairs of depth-1 expressions (1 of 8)',
          'thorough': 'full set: pairs of depth-1 expressions as well'}
V = '/verif'


def tasks(tier):
    out = [{'set': 'full', 'depth': 1, 'part': 0, 'of': 1}, {'set': 'log', 'depth': 1, 'part': 0, 'of': 1}]
    out += [{'set': 'small', 'depth': 2, 'part': p, 'of': 8} for p in range(8)]
    out += [{'set': 'full', 'depth': 2, 'part': p, 'of': 64} for p in range(64)]
    out += [{'set': 'small', 'depth': 3, 'part': p, 'of': 64} for p in range(64) if tier != 'quick' or p % 8 == 1]
    if tier != 'quick':
        out += [{'set': 'full', 'depth': 3, 'part': p, 'of': 512} for p in range(512)]
    out += [{'py': 'operators', 'part': p} for p in range(8)] + [{'py': 'life'}, {'py': 'tables'}, {'py': 'invalid'}]
    return out


def run(task, ctx):
    if 'py' in task:
        return globals()[task['py']](task, ctx)
    r = subprocess.run([f'{V}/build/o/func1', task['set'], str(task['depth']), str(task['part']), str(task['of'])], capture_output=True, text=True)
    done = False
    for line in r.stdout.splitlines():
        f = line.split('\t')
        if f[0] == 'V':
            ctx.violation(f[1], f[2])
        elif f[0] == 'N':
            done = True
            ctx.ev(int(f[1]))
            ctx.trans(int(f[2]))
            ctx.trace(int(f[3]))
            ctx.states_n(int(f[3]))
    ctx.check('harness', done, f'{task}: harness ended with {r.returncode}: {r.stderr[-300:]}')


PTS = [-2.3, -0.45, 0.0, 0.3, 1.0, 1.9, 7.1]


def agree(ctx, key, f, g, what):
    for t in PTS:
        try:
            want = g(t)
        except (ArithmeticError, ValueError):
            ctx.skip('undefined')
            continue
        if isinstance(want, complex) or not math.isfinite(want):
            ctx.skip('undefined')
            continue
        ctx.ev()
        try:
            got = f(t)
        except Exception as e:
            ctx.violation(key + ':throw', f'{what} at {t}: {type(e).__name__} {e}')
            return
        ctx.close(key, got, want, rtol=1e-10, atol=1e-13, msg=f'{what} at {t}')


# (name, argument given to the operator, the function it stands for)
def operands():
    inv = lambda t: 1 / t
    return [('sin', lambda: ct.Func1('sin', 2.), lambda t: math.sin(2 * t)), ('exp', lambda: ct.Func1('exp', -.5), lambda t: math.exp(-.5 * t)), ('pow', lambda: ct.Func1('pow', -1.), inv),
            ('square', lambda: ct.Func1('pow', 2.), lambda t: t * t), ('const', lambda: ct.Func1(2.5), lambda t: 2.5), ('zero', lambda: ct.Func1(0.), lambda t: 0.), ('one', lambda: ct.Func1(1), lambda t: 1.),
            ('lambda', lambda: ct.Func1(lambda t: t * t - 3), lambda t: t * t - 3), ('table', lambda: ct.Tabulated1([-1, 0, 2], [1, 3, -1]), lambda t: float(np.interp(t, [-1, 0, 2], [1, 3, -1]))),
            ('composite', lambda: ct.Func1('composite', ct.Func1('sin', 1.), ct.Func1(lambda t: t + 1)), lambda t: math.sin(t + 1))]


OTHER = [('2', lambda: 2, lambda t: 2.), ('-0.5', lambda: -.5, lambda t: -.5), ('0', lambda: 0, lambda t: 0.), ('1', lambda: 1., lambda t: 1.), ('np', lambda: np.float64(3), lambda t: 3.),
         ('array', lambda: np.array([4.]), lambda t: 4.), ('list', lambda: [5.], lambda t: 5.), ('callable', lambda: (lambda t: t + 2), lambda t: t + 2)]
OPS = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b), ('/', lambda a, b: a / b)]
TYPED = [('sum', lambda f, g: lambda t: f(t) + g(t)), ('diff', lambda f, g: lambda t: f(t) - g(t)), ('product', lambda f, g: lambda t: f(t) * g(t)), ('ratio', lambda f, g: lambda t: f(t) / g(t)),
         ('composite', lambda f, g: lambda t: f(g(t)))]
MODIFIED = [('times-constant', lambda f, c: lambda t: c * f(t)), ('plus-constant', lambda f, c: lambda t: c + f(t))]


def operators(task, ctx):
    A = operands()
    for i, (na, fa, ga) in enumerate(A):
        for no, op in OPS:
            for k, (nb, fb, gb) in enumerate(A + OTHER):
                if (i + k) % 8 != task['part']:
                    continue
                plain = k >= len(A)
                for swap in (False, True) if plain else (False,):
                    if swap and nb in ('np', 'array'):
                        continue            # numpy's own operators come first
                    what = f'{nb} {no} {na}' if swap else f'{na} {no} {nb}'
                    a, b = fa(), fb()
                    text = a.write(), [a(t) for t in PTS if na != 'pow' or t]
                    g = (lambda t: op(gb(t), ga(t))) if swap else (lambda t: op(ga(t), gb(t)))
                    ctx.trans()
                    try:
                        f = op(b, a) if swap else op(a, b)
                    except (ct.CanteraError, TypeError) as e:
                        zero = 'Division by zero' in str(e)
                        ctx.check('py:build', zero and no == '/' and (na if swap else nb) in ('zero', '0'), f'{what}: {str(e)[-200:]}')
                        continue
                    agree(ctx, f'py:op:{no}{"r" if swap else ""}', f, g, what)
                    ctx.eq('py:operand', (a.write(), [a(t) for t in PTS if na != 'pow' or t]), text, f'{what}: operand changed')
                    ctx.state(what)
                    # the operands may be gone
                    del a, b
                    gc.collect(0)
                    junk = [ct.Func1(lambda t, c=c: 1e9 + c) for c in range(4)]
                    agree(ctx, f'py:op:{no}{"r" if swap else ""}:later', f, g, what + ' after its operands were deleted')
                    # as operand of another operation
                    h = 2 - f * 3
                    del f
                    junk += [ct.Func1(lambda t, c=c: 1e8 + c) for c in range(4)]
                    agree(ctx, 'py:op:nested', h, lambda t: 2 - 3 * g(t), f'2 - 3 ({what})')
                    ctx.trace()
        for nt, comb in TYPED:
            for k, (nb, fb, gb) in enumerate(A + OTHER[:4]):
                if (i + k) % 8 != task['part']:
                    continue
                for swap in (False, True) if k >= len(A) else (False,):
                    x, y = (fb, fa) if swap else (fa, fb)
                    gx, gy = (gb, ga) if swap else (ga, gb)
                    what = f'{nt}({nb}, {na})' if swap else f'{nt}({na}, {nb})'
                    ctx.trans()
                    try:
                        f = ct.Func1(nt, x(), y())
                    except ct.CanteraError as e:
                        ctx.check('py:build', 'Division by zero' in str(e), f'{what}: {str(e)[-200:]}')
                        continue
                    junk = [ct.Func1(lambda t, c=c: 1e9 + c) for c in range(4)]
                    agree(ctx, f'py:typed:{nt}', f, comb(gx, gy), what)
                    ctx.state(what)
                    ctx.trace()
        for nt, comb in MODIFIED:
            for c in (0., 1., -2, 3.5):
                if task['part'] != i % 8:
                    continue
                ctx.trans()
                f = ct.Func1(nt, fa(), c)
                junk = [ct.Func1(lambda t, c=c: 1e9 + c) for c in range(4)]
                agree(ctx, f'py:modified:{nt}', f, comb(ga, c), f'{nt}({na}, {c})')
                ctx.state((nt, na, c))
    ctx.outcome(task['part'])


class Fun:
    def __init__(self, c):
        self.c = c

    def __call__(self, t):
        if t > 50:
            raise KeyError('late')
        return self.c * t


def life(task, ctx):
    """Callables stay alive as long as anything can evaluate them, and no longer; exceptions come through."""
    gas = ct.Solution('h2o2.yaml', transport_model=None)
    sp = gas.species()

    def rxn(f, eq='H + O2 <=> O + OH'):
        return ct.Reaction(equation=eq, rate=f)

    def kin(f):
        g = ct.Solution(thermo='ideal-gas', kinetics='gas', species=sp, reactions=[rxn(f)])
        return g, lambda T: (setattr(g, 'TP', (T, 1e5)), g.forward_rate_constants[0])[1]

    def modified(f):
        g, k = kin(Fun(9.))
        g.modify_reaction(0, rxn(f))
        return g, k

    def added(f):
        g, k = kin(Fun(9.))
        g.add_reaction(rxn(f, 'H2 + O <=> H + OH'))
        return g, lambda T: (setattr(g, 'TP', (T, 1e5)), g.forward_rate_constants[1])[1]

    def replaced(f):
        g, k = kin(Fun(9.))
        g.reaction(0).rate.set_rate_function(f)
        g.modify_reaction(0, g.reaction(0))
        return g, k

    def wall(f):
        a, b = ct.IdealGasReactor(gas), ct.IdealGasReactor(gas)
        w = ct.Wall(a, b, velocity=f)
        net = ct.ReactorNet([a, b])
        return (w, net), lambda t: (net.__setattr__('initial_time', t), net.advance(t), w.velocity)[2]

    def wall2(f):
        a, b = ct.IdealGasReactor(gas), ct.IdealGasReactor(gas)
        w = ct.Wall(a, b)
        w.heat_flux = ct.Func1('sum', f if isinstance(f, ct.Func1) else ct.Func1(f), ct.Func1(0.))
        net = ct.ReactorNet([a, b])
        return (w, net), lambda t: (net.__setattr__('initial_time', t), net.advance(t), w.heat_flux)[2]

    HOLD = [('sum', lambda f: (lambda h: (h, h))(ct.Func1(f) + 0 * ct.Func1('sin', 1.))), ('double', lambda f: (lambda h: (h, lambda t: h(t) / 2))(2 * ct.Func1(f))),
            ('composite', lambda f: (lambda h: (h, lambda t: h(t)))(ct.Func1('composite', ct.Func1(f), ct.Func1('pow', 1.)))), ('rate', kin), ('modified', modified), ('added', added), ('replaced', replaced)]
    for (n1, h1), (n2, h2) in itertools.product(HOLD, repeat=2):
        for wrap in (False, True):
            for c in (3., 7.):
                f1, f2 = Fun(c), Fun(c + 1)
                r1 = weakref.ref(f1)
                o1, e1 = h1(ct.Func1(f1) if wrap else f1)
                ctx.trans()
                o2, e2 = h2(ct.Func1(f2) if wrap else f2)
                ctx.trans()
                del f1, f2
                gc.collect()
                junk = [ct.Func1(lambda t, k=k: 1e9 + k) for k in range(20)]
                ctx.ev(4)
                for rnd in range(2):
                    ctx.close(f'life:{n1}', e1(2.), c * 2, rtol=1e-12, msg=f'{n1} of a function deleted since (wrap {wrap}), another held by {n2}')
                    ctx.close(f'life:{n2}', e2(2.), (c + 1) * 2, rtol=1e-12, msg=f'{n2} of a function deleted since (wrap {wrap}), after {n1}')
                for e, n in ((e1, n1), (e2, n2)):
                    for rnd in range(2):
                        try:
                            v = e(60.)
                            ctx.violation(f'life:{n}:exception', f'{n}: exception of the function lost: {v}')
                        except KeyError as x:
                            ctx.eq(f'life:{n}:exception', x.args, ('late',), f'{n}: exception')
                        except ct.CanteraError as x:
                            ctx.check(f'life:{n}:exception', 'late' in str(x), f'{n}: {str(x)[-200:]}')
                ctx.state((n1, n2, wrap, c))
                del o1, e1
                gc.collect()
                if n1 in ('sum', 'double', 'composite'):
                    ctx.check(f'life:{n1}:leak', r1() is None, f'{n1}: function still alive after the last user is gone')
                ctx.close(f'life:{n2}', e2(2.5), (c + 1) * 2.5, rtol=1e-12, msg=f'{n2} after {n1} was deleted')
                ctx.trace()
    for n, h in (('velocity', wall), ('heat-flux', wall2)):
        for wrap in (False, True):
            f = Fun(1e-3)
            o, e = h(ct.Func1(f) if wrap else f)
            del f
            gc.collect()
            junk = [ct.Func1(lambda t, k=k: 1e9 + k) for k in range(20)]
            ctx.ev()
            ctx.trans()
            ctx.close(f'life:{n}', e(0.5), 5e-4, rtol=1e-9, msg=f'{n} of a wall: function deleted since (wrap {wrap})')
            ctx.state((n, wrap))
            ctx.trace()


def tables(task, ctx):
    vals = [1., -2., 0.5, 4.]
    for n in (2, 3, 4):
        for dt in itertools.product((.5, 1.), repeat=n - 1):
            t = np.cumsum((0.25,) + dt)
            for v in itertools.product(vals, repeat=n):
                for method in ('linear', 'previous'):
                    for cont in (list, np.array, tuple) if n < 3 else (list,):
                        for make in (lambda: ct.Tabulated1(cont(t), cont(v), method=method), lambda: ct.Func1(f'tabulated-{method}', cont(t), cont(v))):
                            f = make()
                            ctx.trans()
                            for x in np.concatenate([t, (t[1:] + t[:-1]) / 2, t[:-1] + .1 * np.array(dt), [t[0] - 1, t[-1] + 1]]):
                                if method == 'previous' and x in t[1:-1]:
                                    continue            # either side
                                if method == 'linear':
                                    want = np.interp(x, t, v)
                                else:
                                    want = v[max(np.searchsorted(t, x, side='right') - 1, 0)]
                                ctx.ev()
                                ctx.close(f'table:{method}', f(x), want, rtol=1e-12, atol=1e-14, msg=f'table {t} {v} at {x}')
                    ctx.state((method, tuple(t), v))
    ctx.trace()


def invalid(task, ctx):
    """Arguments that do not define a function raise an exception."""
    s = ct.Func1('sin', 1.)
    CASES = [('spam',), ('sin', [1., 2.]), ('polynomial3', []), ('Fourier', [1., 2.]), ('Fourier', [1.]), ('Fourier', []), ('Gaussian', [1., 2.]), ('Gaussian', [1., 2., 3., 4.]), ('Arrhenius', [1., 2.]), ('Arrhenius', []),
             ('tabulated-linear', []), ('tabulated-linear', [0., 1.], [1.]), ('tabulated-linear', [1., 0.], [1., 2.]), ('tabulated-previous', [1., 0.], [1., 2.]), ('tabulated-linear', [0., 1., 0.5], [1., 2., 3.]),
             ('sum', s), ('sum', 1., 2.), ('sum', s, 'spam'), ('sum', s, s, s), ('times-constant', s, s), ('times-constant', 1., 2.), ('plus-constant', s), ('periodic', s, s), ('composite', s), ('sin', s), ('sin', s, s),
             ('sin', 1., 2.), ('constant', [1., 2.]), ('constant', []), ('sin', []), ('tabulated-spam', [0, 1], [1, 2]), ('sum', [1.], s), (None,), ([1., 2.],), ([],), ({},)]
    for args in CASES:
        ctx.ev()
        ctx.trans()
        try:
            f = ct.Func1(*args)
        except Exception as e:
            ctx.check('invalid:kind', isinstance(e, (ct.CanteraError, TypeError, ValueError, NotImplementedError)), f'Func1{args}: {type(e).__name__}')
            ctx.state(repr(args[0]))
            ctx.outcome(type(e).__name__)
            continue
        ctx.violation(f'invalid:{args[0]}:{len(args)}', f'Func1{args} accepted')
    ctx.trace()
