"""C23: user-defined reactors and reaction rates: every overridable method x mode, the logs of calls against a call model, an error injected at every call of a method, and use of the object after the error."""
import collections, inspect, itertools, json, math
import numpy as np, cantera as ct
import c15
from c28 import forked

PROPERTY, LEVEL = 'C23', 'model_checking'
BUILD = ['py']
TECHNIQUE = ('exhaustive enumeration on the built module of user-defined classes: every overridable method x before/after/replace x returned value for eight reactor types, with the recorded call logs checked against a call model of the time integration and the results against the built-in type; '
             'every history of state and mechanism operations up to a bound for user-defined rates against built-in rates with the same expression; and error injection at every call index of every method with the object used again afterwards')
LEVEL_NOTE = 'The numbers of integrator calls are those reported by the integrator; call orders of one integration are checked for all calls of it.'
RULE = 'A state is a configuration (class, method, mode, behaviour) or one operation history of a user-defined rate; a transition is one recorded call or operation.'
ASSUMPTIONS = ['user code does not modify the state of the phase']
BOUNDS = {'quick': '8 reactor types, 13 methods, 3 modes, errors at the first three calls and the last; rate histories to depth 2', 'thorough': 'errors at the first ten calls; pairs of methods with errors; rate histories to depth 3'}

TYPES = ['Reactor', 'IdealGasReactor', 'ConstPressureReactor', 'IdealGasConstPressureReactor', 'MoleReactor', 'IdealGasMoleReactor', 'ConstPressureMoleReactor', 'IdealGasConstPressureMoleReactor']
SIG = {'initialize': 't0', 'sync_state': '', 'get_state': 'y', 'update_state': 'y', 'update_surface_state': 'y', 'get_surface_initial_conditions': 'y', 'update_connected': 'p',
       'eval': 't, LHS, RHS', 'eval_walls': 't', 'eval_surfaces': 'LHS, RHS, sdot', 'component_name': 'i', 'component_index': 'n', 'species_index': 'n'}
VALUED = ['component_name', 'component_index', 'species_index']
TEND = 2e-4
_doc = None


def text():
    global _doc
    if _doc is None:
        d = c15.surfdoc(c15.SURF_RX['interface'])
        d['reactions'] = [c15.SURF_RX['interface']]
        d['gasrx'] = [c15.GAS_RX['arrhenius'], c15.GAS_RX['three-body']]
        d['phases'][0].update({'kinetics': 'gas', 'reactions': ['gasrx']})
        _doc = json.dumps(d)
    return _doc


def setup(cls):
    surf = ct.Interface(yaml=text(), name='surf')
    gas = surf.adjacent['gas']
    gas.TPX = 1400, 2e5, 'H2:1,O2:1,OH:0.05,H:0.01'
    surf.TP = 1400, 2e5
    surf.coverages = [0.7, 0.3]
    r = cls(gas, name='r', volume=0.5)
    env = ct.Solution('air.yaml')
    res = ct.Reservoir(env)
    w = ct.Wall(res, r, A=0.3, K=1e-4, U=50.)
    s = ct.ReactorSurface(surf, r, A=2.)
    net = ct.ReactorNet([r])
    net.rtol, net.atol = 1e-9, 1e-15
    return dict(r=r, net=net, gas=gas, surf=surf, keep=(res, w, s, env))


def final(S):
    return np.array([*S['net'].get_state(), S['gas'].T, S['gas'].P, *S['gas'].Y, S['r'].volume])


def integrate(S, tend=TEND):
    S['net'].advance(tend)
    return final(S)


_ref = {}


def builtin(t):
    if t not in _ref:
        S = setup(getattr(ct, t))
        f = integrate(S)
        st = S['net'].solver_stats
        _ref[t] = f, st['rhs_evals'] + st['lin_rhs_evals'], st
    return _ref[t]


class Boom(Exception):
    pass


def maker(t, spec, log, hook=None):
    """class of reactor type t with methods spec = {method: (mode, behaviour(self, args))}"""
    ns = {}
    for m, (mode, beh) in spec.items():
        def fn(self, *a, _m=m, _b=beh):
            log.append((_m, a if _m in ('component_name', 'component_index', 'species_index', 'update_connected', 'initialize', 'eval_walls') else tuple(np.array(x) if hasattr(x, '__len__') else x for x in a)))
            if hook:
                hook(_m, sum(1 for q in log if q[0] == _m))
            return _b(self, *a) if _b else None
        src = SIG[m]
        scope = {'fn': fn}
        exec(f"def f(self{', ' + src if src else ''}):\n    return fn(self{', ' + src if src else ''})", scope)
        ns[f'{mode}_{m}'] = scope['f']
    return type('User' + t, (getattr(ct, 'Extensible' + t),), ns)


# ---------------------------------------------------------------- reactors
def neutral(ctx, t):
    """all methods overridden without effect: same result as the built-in type, and call logs of the model"""
    ref, nev, st0 = builtin(t)
    logs = {}
    for mode in ('before', 'after'):
        log = []
        S = setup(maker(t, {m: (mode, None) for m in SIG}, log))
        got = integrate(S)
        st = S['net'].solver_stats
        ctx.close(f'neutral:{t}:{mode}', got, ref, rtol=0, atol=0, msg=f'{t}: all methods overridden with {mode}-methods that do nothing')
        names = [q[0] for q in log]
        c = collections.Counter(names)
        ctx.trans(len(log))
        ctx.state((t, mode, 'neutral'))
        nev1 = st['rhs_evals'] + st['lin_rhs_evals']
        ctx.eq(f'evals:{t}:{mode}', nev1, nev, f'{t}: evaluations by the integrator')
        ctx.eq(f'calls-eval:{t}:{mode}', c['eval'], nev1, f'{t}: {mode}_eval calls against evaluations by the integrator')
        for a, b in (('eval_walls', 'eval'), ('eval_surfaces', 'eval'), ('update_surface_state', 'update_state'), ('get_surface_initial_conditions', 'get_state')):
            ctx.eq(f'calls-{a}:{t}:{mode}', c[a], c[b], f'{t}: {mode}_{a} calls against those of {b}')
        ctx.eq(f'calls-initialize:{t}:{mode}', c['initialize'], 1, f'{t}: initialize calls')
        ctx.eq(f'calls-connected:{t}:{mode}', c['update_connected'], c['update_state'] + 1, f'{t}: update_connected calls: one per update_state and one by initialize')
        ctx.check(f'calls-state:{t}:{mode}', c['update_state'] >= nev1, f'{t}: {c["update_state"]} state updates for {nev1} evaluations')
        logs[mode] = log
        # nesting: between two evaluations there is exactly one of each part, on the proper side
        pos = [i for i, n in enumerate(names) if n == 'eval']
        for part in ('eval_walls', 'eval_surfaces'):
            q = [i for i, n in enumerate(names) if n == part]
            ok = len(q) == len(pos) and (all(p < i and (k + 1 == len(pos) or i < pos[k + 1]) for k, (p, i) in enumerate(zip(pos, q))) if mode == 'before' else all(i < p and (k == 0 or i > pos[k - 1]) for k, (p, i) in enumerate(zip(pos, q))))
            ctx.check(f'order:{t}:{mode}:{part}', ok, f'{t}: order of {part} and eval for {mode}-methods')
        pos = [i for i, n in enumerate(names) if n == 'update_state']
        q = [i for i, n in enumerate(names) if n == 'update_surface_state']
        ok = len(q) == len(pos) and (all(p < i for p, i in zip(pos, q)) if mode == 'before' else all(i < p for p, i in zip(pos, q)))
        ctx.check(f'order:{t}:{mode}:update_surface_state', ok, f'{t}: order of update_surface_state and update_state')
        first = names.index('initialize'), names.index('update_connected')
        ctx.check(f'order:{t}:{mode}:initialize', first[0] < first[1] if mode == 'before' else first[1] < first[0], f'{t}: order of initialize and update_connected: {names[:8]}')
        # arguments
        nv, ns, nk = S['r'].n_vars, 2, S['gas'].n_species
        for n, a in log:
            if n in ('get_state', 'update_state'):
                ok = len(a[0]) == nv
            elif n in ('update_surface_state', 'get_surface_initial_conditions'):
                ok = len(a[0]) == ns
            elif n == 'eval':
                ok = len(a[1]) == len(a[2]) == nv and 0 <= a[0] <= 1.5 * TEND + 1e-3 and (mode == 'after' or (np.all(a[1] == 1) and np.all(a[2] == 0)))
            elif n == 'eval_surfaces':
                ok = len(a[0]) == len(a[1]) == ns and len(a[2]) == nk
            elif n == 'initialize':
                ok = a[0] == 0.
            elif n == 'update_connected':
                ok = isinstance(a[0], bool)
            else:
                ok = True
            if not ctx.check(f'args:{t}:{mode}:{n}', bool(ok), f'{t}: arguments of {mode}_{n}: {str(a)[:200]}'):
                break
        # direct calls
        for what, call in (('component_name', lambda: [S['r'].component_name(i) for i in range(nv)]), ('component_index', lambda: [S['r'].component_index(S['r'].component_name(i)) for i in range(nv)]), ('sync_state', lambda: [S['r'].syncState()]), ('get_state', lambda: [S['r'].get_state()])):
            k0 = len(log)
            v = call()
            n = sum(1 for q in log[k0:] if q[0] == what)
            ctx.eq(f'direct:{t}:{mode}:{what}', n, len(v), f'{t}: calls of {mode}_{what}')
        S2 = setup(getattr(ct, t))
        S2['net'].initialize()
        ctx.eq(f'names:{t}:{mode}', [S['r'].component_name(i) for i in range(nv)], [S2['r'].component_name(i) for i in range(nv)], f'{t}: component names')
    a, b = (collections.Counter(q[0] for q in logs[m]) for m in ('before', 'after'))
    ctx.eq(f'modes:{t}', dict(a), dict(b), f'{t}: calls of before- and after-methods')


def effects(ctx, t):
    ref, nev, st0 = builtin(t)

    def go(spec, label):
        log = []
        S = setup(maker(t, spec, log))
        ctx.state((t, label))
        ctx.trans(len(log) + 1)
        return S, integrate(S), log

    def scale(self, time, LHS, RHS):
        np.asarray(LHS)[:] *= 2.
        np.asarray(RHS)[:] *= 2.
    S, got, log = go({'eval': ('after', scale)}, 'scale')
    ctx.close(f'effect:{t}:after-eval', got, ref, rtol=0, atol=0, msg=f'{t}: after_eval doubling both sides')

    def still(self, time, LHS, RHS):
        LHS[:] = 1.
        RHS[:] = 0.
    for mode in ('after', 'replace'):
        log = []
        S = setup(maker(t, {'eval': (mode, still)}, log))
        S['net'].initialize()
        y0 = S['net'].get_state()
        S['net'].advance(TEND)
        ctx.close(f'effect:{t}:{mode}-eval-still', S['net'].get_state(), y0, rtol=1e-13, atol=1e-16, msg=f'{t}: {mode}_eval with zero rates')
        ctx.state((t, mode, 'still'))
        if mode == 'replace':
            ctx.check(f'effect:{t}:replace-parts', sum(1 for q in log if q[0] == 'eval') > 0, f'{t}: replace_eval not called')
    # replaced parts are not run, and the others are
    log = []
    S = setup(maker(t, {'eval': ('replace', still), 'eval_walls': ('before', None), 'eval_surfaces': ('before', None), 'update_state': ('before', None)}, log))
    S['net'].advance(TEND)
    c = collections.Counter(q[0] for q in log)
    ctx.eq(f'replaced:{t}:eval', (c['eval_walls'], c['eval_surfaces']), (0, 0), f'{t}: parts of the replaced eval')
    ctx.check(f'replaced:{t}:others', c['update_state'] >= c['eval'] > 0, f'{t}: {dict(c)}')

    def heat(self, time):
        self.heat_rate += 40.
        self.expansion_rate += 0.02
    S, got, log = go({'eval_walls': ('after', heat)}, 'heat')

    def withwall(cls):
        S = setup(cls)
        S['w2'] = ct.Wall(S['keep'][0], S['r'], A=1., Q=40.)
        S['w3'] = ct.Wall(S['r'], S['keep'][0], A=1., velocity=0.02)
        return S
    S2 = withwall(getattr(ct, t))
    want = integrate(S2)
    ctx.close(f'effect:{t}:after-walls', got, want, rtol=1e-6, atol=1e-12, msg=f'{t}: after_eval_walls adding heat and expansion rates against walls with them')

    def nosurf(self, LHS, RHS, sdot):
        LHS[:] = 1.
        RHS[:] = 0.
        sdot[:] = 0.
    S3 = setup(getattr(ct, t))
    S3['surf'].set_multiplier(0.)
    want = integrate(S3)
    for mode in ('after', 'replace'):
        S, got, log = go({'eval_surfaces': (mode, nosurf)}, f'nosurf-{mode}')
        ctx.close(f'effect:{t}:{mode}-surfaces', got, want, rtol=1e-6, atol=1e-12, msg=f'{t}: {mode}_eval_surfaces without surface reactions')
    seen = []

    def peek(self, y):
        seen.append(np.array(y))
    S, got, log = go({'get_state': ('after', peek)}, 'peek')
    seen.clear()
    y = S['r'].get_state()
    ctx.close(f'effect:{t}:get-state', seen[-1], y, msg=f'{t}: state given to after_get_state')

    def setvol(self, y):
        y[:] = y
        self.mark = len(y)
    S, got, log = go({'update_state': ('before', setvol)}, 'before-update')
    ctx.close(f'effect:{t}:before-update', got, ref, msg=f'{t}: before_update_state writing the same values')
    ctx.eq(f'effect:{t}:self', S['r'].mark, S['r'].n_vars, f'{t}: attributes set by user code')


def valued(ctx, t):
    S0 = setup(getattr(ct, t))
    S0['net'].initialize()
    nv = S0['r'].n_vars
    base = [S0['r'].component_name(i) for i in range(nv)]
    for m in VALUED:
        for mode in ('before', 'after', 'replace'):
            for kind in ('value', 'none', 'alternate', 'wrong'):
                val = {'component_name': 'zz', 'component_index': 3, 'species_index': 1}[m]
                calls = []

                def beh(self, x, val=val, kind=kind):
                    calls.append(x)
                    return {'value': val, 'none': None, 'alternate': val if len(calls) % 2 else None, 'wrong': [1, 2]}[kind]
                log = []
                label = f'{t}:{mode}_{m}:{kind}'
                S = setup(maker(t, {m: (mode, beh)}, log))
                S['net'].initialize()
                calls.clear()
                ctx.state((t, m, mode, kind))
                for i in range(nv):
                    n0 = len(calls)
                    given = None
                    if kind == 'value' or kind == 'alternate' and n0 % 2 == 0:
                        given = val
                    arg = i if m == 'component_name' else base[i]
                    b0 = base[i] if m == 'component_name' else i
                    off = nv - 2 - S['gas'].n_species
                    if m == 'species_index':
                        if i < off:
                            continue
                        b0 = i - off
                    if mode == 'before':
                        want = b0 if given is None else given
                    elif mode == 'after':
                        want = b0 if given is None else b0 + given
                    else:
                        want = given
                    try:
                        if m == 'component_name':
                            got = S['r'].component_name(i)
                        elif m == 'component_index':
                            got = S['r'].component_index(base[i])
                        else:
                            got = S['r'].component_index(base[i])   # off + species_index
                            want = None if want is None else off + want
                        if kind == 'wrong':
                            ctx.check(f'wrong:{label}', False, f'{label}: the wrong returned type was accepted: {got!r}')
                            break
                    except Exception as e:
                        got = None
                        if kind == 'wrong':
                            ctx.check(f'wrong:{label}', 'list' in str(e) or 'must be' in str(e) or 'int' in str(e), f'{label}: {e!r}')
                            break
                        if want is not None:
                            got = repr(e)[-200:]
                        else:
                            ctx.check(f'noreturn:{label}', m in ('component_name',) and 'componentName' in str(e) or m.split('_')[0] in str(e), f'{label}: {str(e)[-200:]}')
                    ctx.trans()
                    if not ctx.eq(f'value:{label}', got, want, f'{label}: result for {arg!r}'):
                        break
                    if not ctx.eq(f'count:{label}', (len(calls) - n0, calls[-1]), (1, arg), f'{label}: calls and argument'):
                        break


def declared(ctx, t):
    """two modes for one method and wrong numbers of arguments are refused"""
    ext = getattr(ct, 'Extensible' + t)
    for m, a in SIG.items():
        n = len([x for x in a.split(',') if x])
        for pair in itertools.combinations(('before', 'after', 'replace'), 2):
            ns = {}
            for mode in pair:
                scope = {}
                exec(f"def f(self{', ' + a if a else ''}):\n    return None", scope)
                ns[f'{mode}_{m}'] = scope['f']
            refused(ctx, f'pair:{m}:{"+".join(pair)}', type('Pair', (ext,), ns), ct.CanteraError, m)
        for mode in ('before', 'after', 'replace'):
            for k in (n + 1, n - 1):
                if k < 0:
                    continue
                scope = {}
                exec("def f(self" + ''.join(f', a{i}' for i in range(k)) + "):\n    return None", scope)
                refused(ctx, f'arity:{mode}_{m}:{k - n:+d}', type('Arity', (ext,), {f'{mode}_{m}': scope['f']}), ValueError, m)
            scope = {'hit': []}
            exec("def f(self" + ''.join(f', a{i}' for i in range(n)) + ", extra=1):\n    hit.append(1)", scope)
            try:
                type('Default', (ext,), {f'{mode}_{m}': scope['f']})(ct.Solution(yaml=text(), name='gas'))
            except Exception as e:
                ctx.violation(f'default:{mode}_{m}', f'a method with an additional default argument is refused: {e!r}')
            ctx.state((t, m, mode, 'arity'))


def refused(ctx, key, cls, exc, m):
    ctx.trans()
    try:
        cls(ct.Solution(yaml=text(), name='gas'))
    except exc as e:
        ctx.check(f'{key}:message', m in str(e), f'{key}: {e!r}')
    except Exception as e:
        ctx.violation(key, f'{key}: {e!r} instead of {exc.__name__}')
    else:
        ctx.violation(key, f'{key}: accepted')


def errors(ctx, t, m, tier):
    ref, nev, _ = builtin(t)
    # number of calls of an undisturbed run
    for mode in ('before', 'after', 'replace'):
        if mode == 'replace' and m not in ('component_name', 'eval', 'component_index', 'species_index'):
            continue
        log = []
        beh = None
        if mode == 'replace':
            beh = (lambda s, time, L, R: None) if m == 'eval' else (lambda s, x: 'q') if m == 'component_name' else lambda s, x: 0
        S = setup(maker(t, {m: (mode, beh)}, log))
        trigger(S, m)
        total = len([q for q in log if q[0] == m])
        undisturbed = final(S)
        ns = sorted({1, 2, 3, total} | (set(range(1, 11)) if tier == 'thorough' else set()))
        for n in ns:
            if n > total or total == 0:
                continue
            for ename, exc in (('value', ValueError('user message 17')), ('once', ValueError('user message 17')), ('cantera', ct.CanteraError('user message 17')), ('custom', Boom('user message 17')), ('unicode', ValueError('user message 17 \u00e9\u03c0')), ('base', KeyboardInterrupt('user message 17'))):
                if ename not in ('value', 'once') and n != ns[0] and tier != 'thorough':
                    continue
                armed = [True]
                log = []

                def hook(mm, k):
                    if armed[0] and mm == m and (k == n if ename == 'once' else k >= n):
                        raise exc
                S = setup(maker(t, {m: (mode, beh)}, log, hook))
                key = f'error:{t}:{mode}_{m}:{ename}'
                ctx.state((t, m, mode, n, ename))
                ctx.trans()
                try:
                    trigger(S, m)
                except BaseException as e:
                    direct = m in VALUED or m == 'sync_state'
                    msg = str(e)
                    ctx.check(key + ':message', ('user message 17 \u00e9\u03c0' if ename == 'unicode' else 'user message 17') in msg, f'{key} at call {n}: {type(e).__name__}: {msg[-300:]}')
                    if direct:
                        ctx.check(key + ':type', type(e) is type(exc), f'{key} at call {n}: raised {type(e).__name__}')
                else:
                    # an error raised once within the integrator is one it can recover from, by repeating the step
                    if ename == 'once' and n > 1 and m not in VALUED and m not in ('initialize', 'sync_state', 'get_state', 'get_surface_initial_conditions'):
                        ctx.close(key + ':recovered', final(S), undisturbed, rtol=1e-5, atol=1e-10, msg=f'{key} at call {n}: result of an integration which recovered from the error')
                    else:
                        ctx.violation(key + ':lost', f'{key} at call {n}: no error reached the caller')
                armed[0] = False
                if mode == 'replace' and m == 'eval':
                    continue
                # use again
                try:
                    S['gas'].TPX = 1400, 2e5, 'H2:1,O2:1,OH:0.05,H:0.01'
                    S['surf'].TP = 1400, 2e5
                    S['surf'].coverages = [0.7, 0.3]
                    S['r'].volume = 0.5
                    S['keep'][2].coverages = [0.7, 0.3]
                    S['r'].syncState()
                    S['net'].initial_time = 0.
                    S['net'].initialize()
                    S['net'].advance(TEND)
                    got = final(S)
                except BaseException as e:
                    ctx.violation(key + ':after', f'{key} at call {n}: the reactor cannot be used afterwards: {type(e).__name__}: {str(e)[-300:]}')
                    continue
                if not ctx.close(key + ':result', got, ref, rtol=1e-6, atol=1e-12, msg=f'{key} at call {n}: integration after the error'):
                    continue


def trigger(S, m):
    if m == 'component_name':
        S['net'].initialize()
        return [S['r'].component_name(i) for i in range(3)]
    if m in ('component_index', 'species_index'):
        S['net'].initialize()
        return [S['r'].component_index(n) for n in ('O2', 'H2', 'OH')]
    if m == 'sync_state':
        S['net'].initialize()
        S['r'].syncState(), S['r'].syncState(), S['r'].syncState()
        return
    S['net'].advance(TEND)
    S['net'].advance(1.5 * TEND)


# ---------------------------------------------------------------- rates
_h = {}


def register():
    if 'Rate' in _h:
        return
    H = _h

    class Data(ct.ExtensibleRateData):
        def __init__(self):
            self.T = -1.
            self.n = 0

        def update(self, gas):
            self.n += 1
            H['log'].append(('update', gas.T))
            H['hook']('update')
            T = gas.T
            if self.T != T:
                self.T = T
                return True
            return False

    class Rate(ct.ExtensibleRate):
        def __init__(self, *a, **k):
            self.A = math.nan
            super().__init__(*a, **k)

        def set_parameters(self, params, units):
            H['log'].append(('set_parameters',))
            H['hook']('set_parameters')
            self.units = units
            self.A = params.convert_rate_coeff('A', units)
            self.b = params['b']
            self.Ta = params.convert_activation_energy('Ea', 'K')

        def get_parameters(self, params):
            H['log'].append(('get_parameters',))
            H['hook']('get_parameters')
            params.set_quantity('A', self.A, self.conversion_units)
            params['b'] = self.b
            params.set_activation_energy('Ea', self.Ta, 'K')

        def validate(self, equation, soln):
            H['log'].append(('validate', equation))
            H['hook']('validate')
            if self.A < -1e20:
                raise ValueError('refused A')

        def eval(self, data):
            H['log'].append(('eval', data.T))
            H['hook']('eval')
            return self.A * data.T**self.b * math.exp(-self.Ta / data.T)

    # C++ looks up the classes by the names of their modules
    import sys, types
    mod = sys.modules.setdefault('verif_user_rates', types.ModuleType('verif_user_rates'))
    for c, n in ((Data, 'VerifUserData'), (Rate, 'VerifUserRate')):
        c.__module__, c.__qualname__, c.__name__ = mod.__name__, n, n
        setattr(mod, n, c)
    ct.extension(name='verif-user-rate', data=Data)(Rate)
    H.update(Rate=Rate, Data=Data, log=[], hook=lambda m: None)


def rx(eq, A, b, Ea, user, **kw):
    if user:
        return dict({'equation': eq, 'type': 'verif-user-rate', 'A': A, 'b': b, 'Ea': Ea}, **kw)
    return dict({'equation': eq, 'rate-constant': {'A': A, 'b': b, 'Ea': Ea}}, **kw)


EQ = [('H2 + O2 <=> 2 OH', '1e13 cm^3/mol/s', 0.5, '1000 K'), ('OH + H2 <=> H + H2O', '3e10 m^3/kmol/s', -0.2, '40 kJ/mol'), ('2 OH => H2 + O2', 2e9, 0., '2 kcal/mol')]


def usergas(user, n=2, mixed=True):
    d = c15.gasdoc([rx(*EQ[i], user, **({'duplicate': True} if n > 2 and i in (0, 2) else {})) for i in range(n)] + ([c15.GAS_RX['three-body'], c15.GAS_RX['troe']] if mixed else []))
    g = ct.Solution(yaml=json.dumps(d))
    g.TPX = 1200, 2e5, 'H2:1,O2:2,OH:0.1,H:0.2,H2O:0.3'
    return g


def values(g):
    return np.r_[g.forward_rate_constants, g.net_rates_of_progress, g.net_production_rates, g.equilibrium_constants]


OPS = {
    'T': lambda g, u, i: setattr(g, 'TP', (900. + 150 * i, None)),
    'P': lambda g, u, i: setattr(g, 'TP', (None, 1e5 * (2 + i))),
    'X': lambda g, u, i: setattr(g, 'X', [1, 0.2 * (1 + i), 2, 0.1, 0.3]),
    'same': lambda g, u, i: setattr(g, 'TP', g.TP),
    'mult': lambda g, u, i: g.set_multiplier(0.5 + i, 1),
    'add': lambda g, u, i: g.add_reaction(ct.Reaction.from_dict(rx(*EQ[2], u, duplicate=True), g)),
    'addb': lambda g, u, i: g.add_reaction(ct.Reaction.from_dict(rx('H + O2 => H + O2', 1e5 * (i + 1), 0., 0., False, duplicate=True), g)),
    'modify': lambda g, u, i: g.modify_reaction(0, ct.Reaction.from_dict(rx(EQ[0][0], 1e9 * (i + 1), 0.1, 500., u), g)),
    'read': lambda g, u, i: values(g),
    'fail': None,
    'failT': None,
}


def rates(ctx, first, tier):
    register()
    H = _h
    depth = 2 if tier == 'quick' else 3
    for rest in itertools.product(sorted(OPS), repeat=depth - 1):
        seq = (first, *rest)
        H['hook'] = lambda m: None
        a, b = usergas(True), usergas(False)
        ctx.close(f'rates:initial', values(a), values(b), rtol=1e-12, atol=1e-300, msg='rates of user-defined type')
        for i, o in enumerate(seq):
            ctx.trans()
            ctx.state((seq[:i + 1], 'rates'))
            if o.startswith('fail'):
                if o == 'failT':
                    a.TP = b.TP = 700 + 30 * i, None
                for meth in ('update', 'eval'):
                    def hook(m, meth=meth):
                        if m == meth:
                            raise Boom('user message 18')
                    H['hook'] = hook
                    changed = o == 'failT' or meth == 'update'
                    try:
                        if o == 'fail' and meth == 'eval':
                            a.TP = b.TP = a.T + 7, None
                            changed = True
                        values(a)
                        ctx.check(f'rates:lost:{meth}', not changed, f'{seq[:i + 1]}: error in {meth} lost')
                    except Exception as e:
                        ctx.check(f'rates:error:{meth}', 'user message 18' in str(e), f'{seq[:i + 1]}: {e!r}')
                    H['hook'] = lambda m: None
            else:
                try:
                    OPS[o](a, True, i)
                    ea = None
                except ct.CanteraError as e:
                    ea = str(e)[-60:]
                try:
                    OPS[o](b, False, i)
                    eb = None
                except ct.CanteraError as e:
                    eb = str(e)[-60:]
                ctx.check('rates:accept', (ea is None) == (eb is None), f'{seq[:i + 1]}: {ea} / {eb}')
            H['log'].clear()
            nuser = sum(1 for r in a.reactions() if r.rate.type == 'verif-user-rate')
            va, vb = values(a), values(b)
            if not ctx.close(f'rates:value:{o}', va, vb, rtol=1e-12, atol=1e-300, msg=f'{seq[:i + 1]}: rates of user-defined type against the built-in with the same expression'):
                break
            c = collections.Counter(q[0] for q in H['log'])
            ctx.check('rates:evals', c['eval'] in (0, nuser), f'{seq[:i + 1]}: {c["eval"]} evaluations of {nuser} rates for one state')
            if o in ('T',):
                ctx.eq('rates:evals-T', c['eval'], nuser, f'{seq[:i + 1]}: evaluations after a change of temperature')
            ctx.check('rates:args', all(q[1] == a.T for q in H['log'] if q[0] in ('eval', 'update')), f'{seq[:i + 1]}: state seen by user code')
            H['log'].clear()
            values(a)
            ctx.eq('rates:cached', sum(1 for q in H['log'] if q[0] == 'eval'), 0, f'{seq[:i + 1]}: evaluations for an unchanged state')


def ratefaults(ctx, tier):
    """an error at each call of each method while the mechanism is assembled, edited and written"""
    register()
    H = _h

    def assemble():
        return usergas(True)

    def edit():
        H['off'] = True
        g = usergas(True)
        H['off'] = False
        g.add_reaction(ct.Reaction.from_dict(rx(*EQ[2], True), g))
        return g

    def write():
        H['off'] = True
        g = usergas(True)
        H['off'] = False
        g.write_yaml
        return g.reaction(0).input_data, g.reaction(1).input_data

    for nm, prog in (('assemble', assemble), ('edit', edit), ('write', write)):
        H['off'] = False
        H['hook'] = lambda m: None
        H['log'].clear()
        prog()
        cnt = collections.Counter(q[0] for q in H['log'])
        for meth, total in cnt.items():
            for n in range(1, total + 1):
                k = [0]

                def hook(m):
                    if m == meth and not H['off']:
                        k[0] += 1
                        if k[0] == n:
                            raise Boom('user message 19')
                H['hook'] = hook
                H['off'] = False
                ctx.state((nm, meth, n))
                ctx.trans()
                try:
                    prog()
                except BaseException as e:
                    ctx.check(f'ratefault:{nm}:{meth}', 'user message 19' in str(e), f'{nm}: error at call {n} of {meth}: {e!r}'[:400])
                else:
                    ctx.check(f'ratefault:{nm}:{meth}:lost', k[0] < n, f'{nm}: error at call {n} of {meth} lost')
                H['hook'] = lambda m: None
                H['off'] = False
                a, b = usergas(True, 3), usergas(False, 3)
                ctx.close(f'ratefault:{nm}:{meth}:after', values(a), values(b), rtol=1e-12, atol=1e-300, msg=f'{nm}: rates after an error at call {n} of {meth}')
    # refused by validation: not added
    H['hook'] = lambda m: None
    g, h = usergas(True), usergas(False)
    for i in range(2):
        try:
            g.add_reaction(ct.Reaction.from_dict(rx('H + H => H2', -1e30, 0., 0., True), g))
            ctx.violation('validate:lost', 'a rate refused by validate was added')
        except ct.CanteraError as e:
            ctx.check('validate:message', 'refused A' in str(e), repr(e))
        ctx.eq('validate:count', g.n_reactions, h.n_reactions, 'reactions after a refused rate')
        ctx.close('validate:after', values(g), values(h), rtol=1e-12, atol=1e-300, msg='rates after a refused rate')
    # round trip of parameters in other units
    for units in ({}, {'length': 'cm', 'quantity': 'mol', 'activation-energy': 'cal/mol'}, {'time': 'ms', 'activation-energy': 'eV'}):
        for i, (eq, A, bb, Ea) in enumerate(EQ):
            a = usergas(True, 3)
            ref = usergas(False, 3)
            import tempfile, os
            with tempfile.TemporaryDirectory() as td:
                a.write_yaml(f'{td}/x.yaml', units=units)
                c = ct.Solution(f'{td}/x.yaml')
            c.TPX = a.TPX
            ctx.close('written', values(c), values(ref), rtol=1e-9, atol=1e-300, msg=f'rates after writing in {units}')
            ctx.state(('written', str(units)))
            break


# ---------------------------------------------------------------- custom rates and functions
def custom(ctx):
    for nth in (1, 2, 3):
        for ename, exc in (('value', ValueError('user message 20')), ('custom', Boom('user message 20')), ('unicode', ValueError('user message 20 \u00e9'))):
            n = [0]
            armed = [True]

            def f(T):
                n[0] += 1
                if armed[0] and n[0] == nth:
                    raise exc
                return 1e10 * T**0.5 * math.exp(-1203. / T)
            g = ct.Solution(yaml=json.dumps(c15.gasdoc([])))
            h = ct.Solution(yaml=json.dumps(c15.gasdoc([rx('H2 + O2 <=> 2 OH', 1e10, 0.5, '1203 K', False)])))
            armed[0] = False
            g.add_reaction(ct.Reaction(equation='H2 + O2 <=> 2 OH', rate=ct.CustomRate(f)))
            n[0], armed[0] = 0, True
            for i in range(4):
                g.TPX = h.TPX = 900 + 100 * i, 1e5, 'H2:1,O2:1,OH:1'
                ctx.trans()
                ctx.state(('custom', nth, ename, i))
                for rep in range(2):
                    try:
                        v = g.net_rates_of_progress
                        ctx.check(f'custom:lost:{ename}', not (armed[0] and n[0] == nth and rep == 0 and i == nth - 1), f'error at call {nth} lost')
                        ctx.close(f'custom:value:{ename}', v, h.net_rates_of_progress, rtol=1e-8, msg=f'custom rate, state {i}, error at call {nth}')
                    except BaseException as e:
                        ctx.check(f'custom:error:{ename}', type(e) is type(exc) and 'user message 20' in str(e) and n[0] == nth, f'{e!r}')


def tasks(tier):
    out = []
    for t in TYPES:
        out += [{'name': f'{k}-{t}', 'k': k, 't': t} for k in ('neutral', 'effects', 'valued')]
        out += [{'name': f'errors-{t}-{m}', 'k': 'errors', 't': t, 'm': m} for m in SIG if tier == 'thorough' or t in ('Reactor', 'IdealGasConstPressureMoleReactor', 'IdealGasReactor')]
    out += [{'name': f'declared-{t}', 'k': 'declared', 't': t} for t in (TYPES if tier == 'thorough' else TYPES[:1])]
    out += [{'name': f'rates-{o}', 'k': 'rates', 'o': o} for o in sorted(OPS)]
    out += [{'name': 'ratefaults', 'k': 'ratefaults'}, {'name': 'custom', 'k': 'custom'}]
    return out


def run(task, ctx):
    k = task['k']
    if k in ('neutral', 'effects', 'valued', 'declared'):
        globals()[k](ctx, task['t'])
    elif k == 'errors':
        errors(ctx, task['t'], task['m'], ctx.tier)
    elif k == 'rates':
        rates(ctx, task['o'], ctx.tier)
    elif k == 'ratefaults':
        ratefaults(ctx, ctx.tier)
    else:
        custom(ctx)
