"""C32: reaction equations and composition strings against a reference grammar, over all small token sequences."""
import re
import itertools, re
import numpy as np
import cantera as ct

PROPERTY, LEVEL = 'C32', 'exploration'
BUILD = ['py']
TECHNIQUE = ('exhaustive enumeration of equations (terms x coefficients x third-body forms x arrows x spacing), of all single-token edits of them, of composition strings and of all short number texts; '
             'each parsed by the real code and compared with an independent reference parser; printed equations parsed again')
LEVEL_NOTE = 'Every text inside the bounds is parsed, both for a detached reaction and for one loaded into a mechanism.'
RULE = 'A case is one text; states are the distinct texts, outcomes the distinct (kind, result) classes.'
ASSUMPTIONS = ['a falloff collider elsewhere than at the end of a side is left open', 'separators of compositions: commas, semicolons and white space, repeated or not', 'coefficients are printed with at least 12 significant digits']
BOUNDS = {'quick': 'sides of up to 3 terms from 4 species x 7 coefficients; single-token edits of 60 equations; 3 composition entries; number texts of up to 4 characters out of 8', 'thorough': 'double edits, longer number texts, more species names'}

ARROWS = ['<=>', '=', '=>']
SP = ['H2', 'O2', 'H', 'OH']
NAMES = ['CH2(S)', 'C4H6-1,3', 'OH*', 'e-', 'Na+', '(OH)2', 'M2', '1-C4H8', 'A:B', 'O2-', 'Mg', 'N[2]', 'x=y', '2-M', 'μ', 'a/b', 'p(+)']
COEF = ['', '2', '1.5', '0.3333333333333333', '1e-1', '3.', '.5', '12', '1.0E0', '123456.789']
NUMBER = re.compile(r'^[+-]?(\d+\.?\d*|\.\d+)([eEdD][+-]?\d+)?$')


def num(s):
    if not NUMBER.match(s):
        raise ValueError(s)
    return float(s.replace('d', 'e').replace('D', 'e'))


class Malformed(Exception):
    pass


class Open(Exception):
    """Not specified."""


def reference(text, kind=''):
    """(reactants, products, reversible, third body or None); third body: (name, falloff)."""
    tok = text.split()
    at = [i for i, t in enumerate(tok) if t in ARROWS]
    if len(at) != 1:
        raise Malformed('arrows')
    out, tb = [], []
    for side in (tok[:at[0]], tok[at[0] + 1:]):
        # falloff collider
        fall = [i for i, t in enumerate(side) if t.startswith('(+')]
        body = None
        if fall:
            if len(fall) > 1:
                raise Open
            i = fall[0]
            if side[i] == '(+':
                if i + 2 != len(side):
                    raise Open if i + 2 < len(side) else Malformed('collider')
                if not side[-1].endswith(')') or side[-1] == ')':
                    raise Malformed('collider')
                body = side[-1][:-1]
            else:
                if i + 1 != len(side):
                    raise Open
                if not side[i].endswith(')') or len(side[i]) < 4:
                    raise Malformed('collider')
                body = side[i][2:-1]
            side = side[:i]
        comp, term = {}, []
        for t in side + ['+']:
            if t != '+':
                term.append(t)
                continue
            if len(term) == 1:
                c, n = 1., term[0]
            elif len(term) == 2:
                try:
                    c, n = num(term[0]), term[1]
                except ValueError:
                    raise Malformed('coefficient')
            else:
                raise Malformed('term')
            comp[n] = comp.get(n, 0) + c
            term = []
        out.append(comp)
        tb.append(body)
    rev = tok[at[0]] != '=>'
    r, p = out
    if tb[0] != tb[1]:
        raise Malformed('colliders differ')
    if tb[0]:
        if 'M' in r or 'M' in p:
            raise Open
        return r, p, rev, (tb[0], True)
    if ('M' in r) != ('M' in p):
        raise Malformed('M on one side')
    if 'M' in r:
        if r['M'] != 1 or p['M'] != 1:
            raise Open
        r.pop('M'), p.pop('M')
        return r, p, rev, ('M', False)
    both = [n for n in r if n in p]
    if kind == 'elementary' or len(both) != 1:
        if kind == 'three-body':
            raise Malformed('no collider') if not both else Open
        return r, p, rev, None
    n = both[0]
    if r[n] > 1 and p[n] > 1:
        if kind == 'three-body':
            raise Open
        return r, p, rev, None
    if kind != 'three-body':
        if any(v != int(v) for v in list(r.values()) + list(p.values())):
            return r, p, rev, None
        if sum(r.values()) != 3 and sum(p.values()) != 3:
            return r, p, rev, None
    elif r[n] < 1 or p[n] < 1 or 1 < r[n] < 2 or 1 < p[n] < 2:
        raise Open
    for d in (r, p):
        d[n] -= 1
        if d[n] == 0:
            del d[n]
    return r, p, rev, (n, False)


def same(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-12 * abs(b[k]) for k in b)


def rate(tb, kind=''):
    if tb and tb[1]:
        return ct.LindemannRate(ct.Arrhenius(1, 0, 0), ct.Arrhenius(1, 0, 0))
    return ct.ArrheniusRate(1, 0, 0)


def show(R):
    return R.reactants, R.products, R.reversible, (R.third_body.name, not R.third_body.mass_action) if R.third_body else None


def compare(ctx, key, R, want, text):
    got = show(R)
    return ctx.check(key, same(got[0], want[0]) and same(got[1], want[1]) and got[2:] == want[2:], f'{text!r}: parsed as {got}, expected {want}')


def detached(ctx, text, key, falloff=None):
    """Equation parsed for a reaction without mechanism."""
    ctx.ev()
    ctx.trans()
    try:
        want = reference(text)
    except Malformed as e:
        want = e
    except Open:
        ctx.skip('unspecified')
        return
    if not isinstance(want, Malformed) and want[3] and want[3][1]:
        r = ct.LindemannRate(ct.Arrhenius(1, 0, 0), ct.Arrhenius(1, 0, 0))
    else:
        r = ct.ArrheniusRate(1, 0, 0)
    try:
        R = ct.Reaction(equation=text, rate=r)
    except (ct.CanteraError, ValueError) as e:
        ctx.check(key + ':rejected', isinstance(want, Malformed), f'{text!r}: rejected: {str(e).strip().splitlines()[-1][:150] if str(e).strip() else e}')
        ctx.outcome('rejected')
        return
    ctx.state(text)
    if isinstance(want, Malformed):
        if re.match(r'\(\+ ?(\w+)?\)? *<?=', text) or re.search(r'=>? *\(\+ ?(\w+)?\)?$', text):
            ctx.skip('falloff collider without reactants or products')
            return
        if want.args[0] in ('arrows', 'term', 'coefficient', 'collider'):
            ctx.violation(key + ':accepted', f'{text!r}: malformed ({want}), parsed as {show(R)}')
        return          # unmatched colliders are found when the reaction joins a mechanism
    if not compare(ctx, key, R, want, text):
        return
    ctx.outcome((want[2], want[3] and want[3][1]))
    # printed and parsed again
    if not want[0] and not want[3] or not want[1] and not want[3]:
        return
    eq = R.equation
    args = {}
    if want[3] and want[3][0] != 'M':
        args['third_body'] = ct.ThirdBody(want[3][0]) if False else want[3][0]
    try:
        again = reference(eq)
    except (Malformed, Open) as e:
        ctx.violation(key + ':printed', f'{text!r} is printed as {eq!r}: {type(e).__name__} {e}')
        return
    # a collider found by its position is only found again in the same circumstances
    ctx.check(key + ':printed', same(again[0], want[0]) and same(again[1], want[1]) and again[2:] == want[2:] or (want[3] is None) != (again[3] is None), f'{text!r} is printed as {eq!r}')
    try:
        R2 = ct.Reaction(equation=eq, rate=r)
    except ct.CanteraError as e:
        ctx.violation(key + ':again', f'{text!r} is printed as {eq!r}, which is rejected')
        return
    compare(ctx, key + ':again', R2, again, eq)
    ctx.eq(key + ':fixpoint', R2.equation, eq, f'{text!r}: printed, parsed, and printed again')
    ctx.trace()


def sides(names, coefs, n):
    terms = [((c + ' ') if c else '') + s for s in names for c in coefs]
    for k in range(1, n + 1):
        yield from itertools.product(terms, repeat=k)


def tasks(tier):
    out = [{'eq': 'grid', 'part': p} for p in range(8)] + [{'eq': 'names', 'part': p} for p in range(4)] + [{'eq': 'coefs'}, {'eq': 'space'}]
    out += [{'edit': p} for p in range(16)] + [{'load': p} for p in range(8)] + [{'comp': p} for p in range(8)] + [{'badcomp': 0}] + [{'numbers': p} for p in range(8)]
    return out


def run(task, ctx):
    k = next(iter(task))
    globals()[{'eq': task.get('eq'), 'load': 'load', 'edit': 'edit', 'comp': 'comp', 'badcomp': 'badcomp', 'numbers': 'numbers'}[k]](task, ctx)


def grid(task, ctx):
    L = list(sides(SP[:3], ['', '2'], 2)) + [(a, b, c) for a in SP for b in SP for c in ('H2', 'OH')]
    suf = ['', ' + M', ' (+M)', ' (+ M)', ' (+O2)', ' (+ O2)', ' + O2']
    n = 0
    for a in L:
        for b in L[:: 7 if ctx.tier == 'quick' else 1]:
            for x, y in itertools.product(suf, repeat=2):
                n += 1
                if x != y and n % 5:
                    continue
                if n % 8 != task['part']:
                    continue
                detached(ctx, ' + '.join(a) + x + ' ' + ARROWS[n // 8 % 3] + ' ' + ' + '.join(b) + y, 'grid')


def names(task, ctx):
    N = NAMES + ['M', 'AR']
    for a, b in itertools.product(NAMES, N):
        for n, (c, d) in enumerate(itertools.product(['', '2', '0.5'], repeat=2)):
            if n % 4 != task['part']:
                continue
            for suf in ('', ' + M', f' (+{b})', f' (+ {b})', f' + {b}'):
                for ar in ARROWS:
                    if b == 'M' and suf == '':
                        continue
                    t = f'{c} {a} + {d} H2 {suf} {ar} {b if b != "M" else "H2"} {suf}'.strip()
                    detached(ctx, t, 'names')


def coefs(task, ctx):
    for c in itertools.product(COEF, repeat=3):
        for suf in ('', ' + M', ' (+M)'):
            for ar in ARROWS:
                detached(ctx, f'{c[0]} H2 + {c[1]} O2{suf} {ar} {c[2]} OH{suf}', 'coefs')
                detached(ctx, f'{c[0]} H2 + {c[1]} H2{suf} {ar} {c[2]} H + {c[0]} OH{suf}', 'coefs')
        ctx.trace()


def space(task, ctx):
    for seps in itertools.product([' ', '  ', '\t', ' \t '], repeat=4):
        for ar in ARROWS:
            for third in (('+', 'M'), ('(+M)',), ('(+', 'M)')):
                t = ['', 'H2', '+', '2', 'O2', *third, ar, '1.5', 'OH', *third, '']
                for lead in (False, True):
                    s = ''.join(x + (seps[i % 4] if (i > 0 or lead) else '') for i, x in enumerate(t))
                    detached(ctx, s, 'space')


BASE = []
for a, b in (('H2 + O2', '2 OH'), ('H', 'OH'), ('2 H', 'H2'), ('H + H + O2', 'H2 + O2'), ('1.5 H2 + O2', 'OH + H2')):
    for suf in ('', ' + M', ' (+M)', ' (+ O2)'):
        for ar in ARROWS:
            BASE.append(f'{a}{suf} {ar} {b}{suf}')
EDITS = ['H2', '+', '2', '<=>', '=>', '=', 'M', '(+M)', '(+', 'M)', 'x', '+2', '2x', '1e', '->', '<=', '(+M', '++', ')', '==']


def edits(tok):
    for i in range(len(tok)):
        yield tok[:i] + tok[i + 1:]
        yield tok[:i] + [tok[i]] + tok[i:]
        if i + 1 < len(tok):
            yield tok[:i] + [tok[i + 1], tok[i]] + tok[i + 2:]
            yield tok[:i] + [tok[i] + tok[i + 1]] + tok[i + 2:]
        for e in EDITS:
            yield tok[:i] + [e] + tok[i + 1:]
    for i in range(len(tok) + 1):
        for e in EDITS:
            yield tok[:i] + [e] + tok[i:]


def edit(task, ctx):
    for t in ['', ' ', '<=>', '+', 'H2', '+ <=> +', 'H2 <=>', '<=> H2', 'H2 + <=> H2', '2 <=> 2 H2']:
        detached(ctx, t, 'edit')
    for n, b in enumerate(BASE):
        if n % 16 != task['edit']:
            continue
        for t in edits(b.split()):
            detached(ctx, ' '.join(t), 'edit')
            if ctx.tier != 'quick' and n < 16:
                for u in edits(t):
                    detached(ctx, ' '.join(u), 'edit')


GAS = None


def gas():
    global GAS
    if GAS is None:
        GAS = ct.Solution('h2o2.yaml', transport_model=None)
    return GAS


ELEM = {'H2': {'H': 2}, 'O2': {'O': 2}, 'H': {'H': 1}, 'OH': {'O': 1, 'H': 1}, 'H2O': {'H': 2, 'O': 1}, 'AR': {'Ar': 1}, 'HO2': {'H': 1, 'O': 2}, 'N2': {'N': 2}, 'O': {'O': 1}, 'H2O2': {'H': 2, 'O': 2}}


def balanced(r, p):
    tot = {}
    for d, s in ((r, 1), (p, -1)):
        for n, c in d.items():
            if n not in ELEM:
                return False
            for e, k in ELEM[n].items():
                tot[e] = tot.get(e, 0) + s * c * k
    return all(abs(v) < 1e-6 for v in tot.values())


def load(task, ctx):
    """Equations of YAML entries loaded into a mechanism: exactly the valid, balanced ones are taken."""
    g = gas()
    cases = []
    terms = ['', 'H2', 'O2', '2 H', 'OH', 'AR', 'HO2', '0.5 O2', '2 OH', 'X']
    for a, b, c, d in itertools.product(terms[1:], terms, terms[1:], terms):
        for suf in ('', ' + M', ' (+M)', ' (+AR)', ' + AR'):
            cases.append((a + (' + ' + b if b else '') + suf, c + (' + ' + d if d else '') + suf))
    for n, (x, y) in enumerate(cases):
        if n % 8 != task['load'] or ctx.tier == 'quick' and n // 8 % 4:
            continue
        for kind in ('', 'elementary', 'three-body'):
            eq = f'{x} {ARROWS[n % 3]} {y}'
            ctx.ev()
            ctx.trans()
            try:
                want = reference(eq, kind)
            except Malformed:
                want = None
            except Open:
                ctx.skip('unspecified')
                continue
            names = set(want[0]) | set(want[1]) if want else set()
            if want and want[3] and want[3][0] != 'M' and want[3][0] not in ELEM:
                want = None
            if want and not balanced(want[0], want[1]):
                want = None
            fall = '(+' in eq
            if fall and kind:
                continue
            y = f"{{equation: '{eq}', " + (f"type: {kind}, " if kind else '') + ("type: falloff, low-P-rate-constant: {A: 1, b: 0, Ea: 0}, high-P-rate-constant: {A: 1, b: 0, Ea: 0}}" if fall else 'rate-constant: {A: 1, b: 0, Ea: 0}}')
            if kind == 'elementary' and want and want[3]:
                want = None
            try:
                R = ct.Reaction.from_yaml(y, g)
                h = ct.Solution(thermo='ideal-gas', kinetics='gas', species=g.species(), reactions=[R])
                R = h.reaction(0)
            except ct.CanteraError as e:
                ctx.check(f'load:{kind}:rejected', want is None, f'{eq!r} {kind}: rejected: {str(e)[:300]}')
                ctx.outcome('rejected')
                continue
            if want is None:
                ctx.violation(f'load:{kind}:accepted', f'{eq!r} {kind}: accepted as {show(R)}')
                continue
            ctx.state((eq, kind))
            compare(ctx, f'load:{kind}', R, want, eq)
            nu = dict(zip(h.species_names, np.asarray(h.reactant_stoich_coeffs)[:, 0]))
            ctx.check('load:matrix', same({k: v for k, v in nu.items() if v}, {k: v for k, v in want[0].items() if v}), f'{eq!r}: reactant coefficients {nu}')
            ctx.outcome((kind, want[2], want[3] and want[3][1]))
            ctx.trace()


VALS = ['1', '0.25', '2e-1', '.5', '3.', '1.5E0', '0', '1d0', '+2']


def setX(ctx, s, want, key):
    g = gas()
    g.TPX = 300, 1e5, 'N2:1'
    ctx.ev()
    ctx.trans()
    for what in ('X', 'Y'):
        try:
            setattr(g, what, s)
        except (ct.CanteraError, ValueError, IndexError) as e:
            ctx.check(key + ':rejected', want is None, f'{s!r}: rejected: {str(e).strip()[-200:]}')
            if isinstance(e, IndexError):
                ctx.violation(key + ':error', f'{s!r}: {type(e).__name__} {e}')
            ctx.close(key + ':kept', g['N2'].X[0], 1, msg=f'{s!r}: rejected, but the composition has changed')
            ctx.outcome('rejected')
            continue
        if want is None:
            ctx.violation(key + ':accepted', f'{s!r}: accepted as {g.mole_fraction_dict()}')
            return
        tot = sum(want.values())
        if tot == 0:
            continue
        got = getattr(g, what)
        ctx.close(key, got, [want.get(n, 0) / tot for n in g.species_names], rtol=1e-12, atol=1e-15, msg=f'{s!r}')
    ctx.state(s)


def comp(task, ctx):
    S = ['H2', 'O2', 'AR', 'H2O']
    n = 0
    for k in (1, 2, 3):
        for names in itertools.permutations(S, k):
            for vals in itertools.product(VALS, repeat=k):
                for sep in (',', ', ', ' ', ';', '\t', ' , ', '\n', ',,'):
                    n += 1
                    if n % 8 != task['comp'] or k == 3 and ctx.tier == 'quick' and n // 8 % 5:
                        continue
                    for colon in (':', ': ', ' :', ' : ', ':\t') if k < 3 else (':', ': '):
                        s = sep.join(a + colon + v for a, v in zip(names, vals))
                        want = dict(zip(names, map(num, vals)))
                        if sum(want.values()) <= 0:
                            continue
                        setX(ctx, s, want, 'comp')
                        if k < 3 and sep == ',':
                            for pre, post in ((' ', ''), ('', ' '), ('\n', '\n')):
                                setX(ctx, pre + s + post, want, 'comp:ends')
    # species and other consumers
    if task['comp'] == 0:
        for a, b in itertools.product([1., 2., 0.5], repeat=2):
            for form in (f'H:{a}, O:{b}', {'H': a, 'O': b}, f'H:{a} O:{b}'):
                ctx.ev()
                sp = ct.Species('x', form)
                ctx.eq('comp:species', sp.composition, {'H': a, 'O': b}, f'species from {form!r}')
            g = gas()
            g.set_equivalence_ratio(1., f'H2:{a}, H:{b}', 'O2:1, AR:3.76')
            x1 = g.X
            g.set_equivalence_ratio(1., {'H2': a, 'H': b}, {'O2': 1, 'AR': 3.76})
            ctx.close('comp:phi', g.X, x1, rtol=1e-12, atol=1e-16, msg=f'equivalence ratio with fuel H2:{a}, H:{b} as text and as mapping')
            g.X = {'H2': a, 'AR': b}
            ctx.close('comp:dict', [g['H2'].X[0] * b, g['AR'].X[0] * a], [a * b / (a + b)] * 2, rtol=1e-12, msg='composition from a mapping')
    ctx.trace()


def badcomp(task, ctx):
    E = ['H2:1', 'O2:0.5', 'AR: 2']
    bad = ['H2', 'H2:', ':1', 'H2:x', 'H2:1x', 'H2 1', 'H2:1:2', 'H2::1', 'H2:1e', 'H2:--1', 'H2:1.2.3', 'X:1', 'H2:1,H2:2', 'O2:1 O2:1', 'H2:0, H2:1', 'H2:1, H2:0', 'H2: 1 2', 'H2:1 x', 'x H2:1', '{H2:1}', 'H2=1', 'H2:nan', 'H2:inf', 'H2:1e1e1',
           'H2:-', 'H2:.', 'H2:e5', 'H2:1e+', 'H2:+', '"H2":1', 'H2:0x10', 'H2,:1', 'H2:,1', ': 1', 'H2 : ', 'H 2:1']
    for b in bad:
        for k in range(3):
            for rest in itertools.permutations([e for e in E if not e.startswith('H2') or 'H2' not in b][:2] if 'O2' not in b else ['AR: 2', 'N2:1'], k):
                for pos in range(k + 1):
                    for sep in (', ', ' ', ';'):
                        L = list(rest)
                        L.insert(pos, b)
                        s = sep.join(L)
                        # an empty value followed by another entry is still malformed
                        setX(ctx, s, None, f'bad:{b}')
    ctx.trace()


def numbers(task, ctx):
    alpha = '01.e+-d x'
    g = gas()
    for k in range(1, 5 if ctx.tier == 'quick' else 6):
        for n, t in enumerate(itertools.product(alpha, repeat=k)):
            if n % 8 != task['numbers']:
                continue
            s = ''.join(t)
            core = s.strip()
            if ' ' in core:
                ctx.skip('two texts')
                continue
            try:
                v = num(core)
            except ValueError:
                v = None
            if v is not None and not (v < 1e200):
                continue
            ctx.ev()
            ctx.trans()
            g.X = 'N2:1'
            try:
                sp = ct.Species('x', f'H:{s}')
                got = sp.composition.get('H', 0.)
            except (ct.CanteraError, ValueError) as e:
                ctx.check('number:rejected', v is None, f'H:{s!r}: rejected: {str(e).strip()[-150:]}')
                continue
            except Exception as e:
                ctx.violation('number:error', f'H:{s!r}: {type(e).__name__} {e}')
                continue
            if v is None:
                ctx.violation('number:accepted', f'H:{s!r}: accepted as {got}')
            else:
                ctx.close('number', got, v, rtol=1e-13, msg=f'H:{s!r}')
                ctx.state(s)
    ctx.trace()
