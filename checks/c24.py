"""C24: grid refinement and fixed-point placement against a reference model, for all small grids, profiles and criteria."""
import itertools, subprocess
import numpy as np
import models

PROPERTY, LEVEL = 'C24', 'exploration'
BUILD = ['py', 'h:refine']
TECHNIQUE = ('exhaustive enumeration of small grids x profiles x refinement criteria on the real Refiner and Sim1D::refine; the new grid, the solution on it and the outcome are compared '
             'with a reference model of the promised refinement')
LEVEL_NOTE = 'Every combination inside the bounds is executed; cases whose criterion is met to within rounding are left out, since either answer is right.'
RULE = 'A case is one call of refine (or setFixedTemperature); it is non-trivial when the reference adds or removes a point. States are the resulting grids.'
ASSUMPTIONS = ['the components a domain refines by are those marked active', 'a component with a range below 1 % of its magnitude asks for no refinement',
               'points at the ends of an interval that is to be divided are not removed']
BOUNDS = {'quick': 'grids of 2-5 points from 4 spacings x values from 3-4 levels x 12 criteria sets; two and three domains; fixed points and control points', 'thorough': 'grids of up to 6 points, more levels'}

V = models.V if hasattr(models, 'V') else '/verif'
THR = np.sqrt(np.finfo(float).eps)


def near(a):
    return abs(a - 1) < 1e-6


class Tie(Exception):
    pass


def reference(z, x, active, crit, gridmin, pinned):
    """New grid and profile. x[j][i]."""
    ratio, slope, curve, prune = crit
    n = len(z)
    if n <= 1:
        return z, x, False
    dz = [z[j + 1] - z[j] for j in range(n - 1)]
    divide = set()
    worst = [None] * n          # largest demand of any criterion on each point

    def demand(j, r):
        worst[j] = r if worst[j] is None else max(worst[j], r)

    for i, on in enumerate(active):
        if not on:
            continue
        v = [p[i] for p in x]
        s = [(v[j + 1] - v[j]) / dz[j] for j in range(n - 1)]
        rv, rs = max(v) - min(v), max(s) - min(s)
        mv, ms = max(map(abs, v)), max(map(abs, s))
        if mv and near(rv / (0.01 * mv)) or ms and near(rs / (.01 * ms)):
            raise Tie
        if rv > 0.01 * mv:
            for j in range(n - 1):
                q = abs(v[j + 1] - v[j]) / (slope * rv + THR)
                if abs(q - 1) < 1e-7 or abs(q - prune) < 1e-6 and q:
                    raise Tie
                if q > 1 and dz[j] >= 2 * gridmin:
                    divide.add(j)
                demand(j, q)
                demand(j + 1, q)
        if rs > 0.01 * ms:
            for j in range(1, n - 1):
                q = abs(s[j] - s[j - 1]) / (curve * rs + THR / dz[j - 1])
                if abs(q - 1) < 1e-7 or abs(q - prune) < 1e-6 and q:
                    raise Tie
                if q > 1 and min(dz[j - 1], dz[j]) >= 2 * gridmin:
                    divide |= {j - 1, j}
                demand(j, q)
    keep = set(pinned) | {0, n - 1} | {j for j in range(n) if worst[j] is None or worst[j] >= prune}
    for j in range(1, n - 1):
        if dz[j] > ratio * dz[j - 1]:
            if dz[j] >= 2 * gridmin:
                divide.add(j)
            keep |= {j - 1, j, j + 1, j + 2}
        if dz[j - 1] > ratio * dz[j]:
            if dz[j - 1] >= 2 * gridmin:
                divide.add(j - 1)
            keep |= {j - 2, j - 1, j, j + 1}
        merged = z[j + 1] - z[j - 1]
        if j > 1 and merged > ratio * dz[j - 2] or j < n - 2 and merged > ratio * dz[j + 1]:
            keep.add(j)
    for j in divide:
        keep |= {j, j + 1}
    for j in range(1, n - 1):
        if j not in keep and j - 1 not in keep:
            keep.add(j)
    Z, X = [], []
    for j in range(n):
        if j in keep:
            Z.append(z[j])
            X.append(x[j])
        if j in divide:
            Z.append((z[j] + z[j + 1]) / 2)
            X.append([(a + b) / 2 for a, b in zip(x[j], x[j + 1])])
    return Z, X, Z != z


def place(z, T, t):
    """Fixed temperature: location, new grid, new profile."""
    for m in range(len(z) - 1):
        t1, t2 = T[m], T[m + 1]
        th = min(1., 0.1 * (t2 - t1))
        for k in (m, m + 1):
            if abs(abs(t - T[k]) - th) < 1e-9:
                raise Tie
        if abs(t - t1) < th:
            return z[m], z, T
        if abs(t - t2) < th:
            return z[m + 1], z, T
        if t1 < t < t2:
            zf = z[m] + (t - t1) * (z[m + 1] - z[m]) / (t2 - t1)
            return zf, z[:m + 1] + [zf] + z[m + 1:], T[:m + 1] + [t] + T[m + 1:]
    return None, z, T


CRIT = [(10, .8, .8, -.1), (2, .21, .22, -.1), (3, .3, .98, -.1), (3, .97, .31, -.1), (2, .47, .52, .1), (10, .53, .46, .3), (2, .97, .93, .05), (3, .11, .63, .1), (10, .92, .2, .2), (4, .05, .05, .03), (100, .97, .96, .55), (2, .0, .0, -.1)]


def grids(n, sp):
    for d in itertools.product(sp, repeat=n - 1):
        z = [0.]
        for q in d:
            z.append(z[-1] + q)
        yield z


def dom(kind, z, x, active, crit, gridmin=1e-10, npmax=1000, fix=(-1, -1, -1)):
    return dict(kind=kind, z=z, x=x, active=active, crit=crit, gridmin=gridmin, npmax=npmax, fix=fix)


def cases(t, tier):
    """Yields (op, temperature, [domains])."""
    k = t['set']
    deep = tier != 'quick'
    if k == 'one':
        n, c = t['n'], CRIT[t['crit']]
        sp = (1., 2.5, 8., .25) if n < 5 or deep and n < 6 else (1., 2.5, .25) if n < 6 else (1., 3.)
        lv = (0., 1., 3., 1.4) if n < 4 else (0., 1., 3.)
        for z in grids(n, sp):
            for v in itertools.product(lv, repeat=n):
                yield 'R', 0, [dom(0, z, [[a] for a in v], [1], c)]
    elif k == 'gridmin':
        n, c = t['n'], CRIT[t['crit']]
        for z in grids(n, (1., 2., 5., .4)):
            for v in itertools.product((0., 1.), repeat=n):
                for gm in (.6, 1.2, 2.):
                    yield 'R', 0, [dom(0, z, [[a] for a in v], [1], c, gridmin=gm)]
    elif k == 'two':
        n, c = t['n'], CRIT[t['crit']]
        for z in grids(n, (1., 3.)):
            for v in itertools.product((0., 1.), repeat=n):
                for w in itertools.product((5., 4.98, 2.), repeat=n):
                    for act in ([1, 1], [1, 0], [0, 1], [0, 0]):
                        if act != [1, 1] and (w[0] != 5. or not any(v)):
                            continue
                        yield 'R', 0, [dom(0, z, [[a, b] for a, b in zip(v, w)], act, c)]
    elif k == 'multi':
        c = CRIT[t['crit']]
        A = [(z, v) for z in grids(3, (1., 3.)) for v in itertools.product((0., 1.), repeat=3)]
        for (z, v), (z2, v2) in itertools.product(A, A):
            a = dom(0, z, [[p] for p in v], [1], c)
            b = dom(0, [5 + q for q in z2], [[p, 2 - p, 7.] for p in v2], [1, 1, 1], CRIT[(t['crit'] + 3) % len(CRIT)])
            one = dom(0, [4.5], [[9.5, 8.5]], [1, 1], c)
            yield 'R', 0, [a, one, b] if (v[0] + v2[1]) else [a, b]
    elif k == 'limit':
        for np_ in (3, 4, 5):
            for z in grids(4, (1., 3.)):
                a = dom(0, z, [[0.], [0.], [1.], [3.]], [1], CRIT[1])
                yield 'R', 0, [a, dom(0, [20 + q for q in z], [[0.], [1.], [1.], [3.]], [1], CRIT[1], npmax=np_)]
    elif k == 'flow':
        c = CRIT[t['crit']]
        n = t['n']
        for z in grids(n, (1., 3.)):
            for v in itertools.product((300., 310., 2000.), repeat=n):
                for f in range(n):
                    yield 'R', 0, [dom(1, z, [[a] for a in v], [1], c, fix=(z[f], -1, -1))]
                for l, r in itertools.combinations(range(n), 2):
                    yield 'R', 0, [dom(2, z, [[a] for a in v], [1], c, fix=(-1, z[l], z[r]))]
    elif k == 'fixed':
        n = t['n']
        for z in grids(n, (1., 2.)):
            for v in itertools.product((300., 305., 800., 2000.), repeat=n):
                for T in (300., 300.3, 304.8, 500., 799.5, 1500., 1998.5, 2000., 2500., 100.):
                    a = dom(1, z, [[q] for q in v], [1], CRIT[0])
                    ends = [dom(0, [z[0]], [[1., 2.]], [0, 0], CRIT[0]), dom(0, [z[-1]], [[3.]], [0], CRIT[0])]
                    yield 'F', T, [ends[0], a, ends[1]] if v[0] == 300. else [a]


def tasks(tier):
    out = []
    for n in (2, 3, 4, 5) + ((6,) if tier != 'quick' else ()):
        out += [dict(set='one', n=n, crit=c) for c in range(len(CRIT))]
    for n in (3, 4):
        out += [dict(set='gridmin', n=n, crit=c) for c in (0, 1, 4, 9)]
        out += [dict(set='two', n=n, crit=c) for c in (0, 1, 4, 5, 8)]
    out += [dict(set='multi', crit=c) for c in (0, 1, 4, 5, 9)]
    out += [dict(set='flow', n=4, crit=c) for c in (1, 4, 5, 8, 10)] + [dict(set='flow', n=5, crit=10)]
    out += [dict(set='fixed', n=n) for n in (2, 3, 4)] + [dict(set='limit')]
    return sorted(out, key=lambda t: -t.get('n', 3))


def text(op, T, ds):
    p = [op, repr(float(T)), str(len(ds))]
    for d in ds:
        p += [str(d['kind']), str(len(d['active'])), str(len(d['z'])), repr(d['gridmin']), str(d['npmax'])] + [repr(float(c)) for c in d['crit']] + [str(a) for a in d['active']]
        p += [repr(q) for q in d['z']] + [repr(a) for r in d['x'] for a in r] + [repr(float(q)) for q in d['fix']]
    return ' '.join(p)


def run(task, ctx):
    cs = list(cases(task, ctx.tier))
    for lo in range(0, len(cs), 20000):
        batch = cs[lo:lo + 20000]
        p = subprocess.run([f'{V}/build/o/refine', models.R + '/data'], input='\n'.join(text(*c) for c in batch) + '\n', capture_output=True, text=True, timeout=850)
        lines = p.stdout.splitlines()
        if len(lines) != len(batch):
            ctx.violation(f'crash:{task["set"]}', f'program ended with {p.returncode} at {text(*batch[len(lines)])}: {p.stderr[-300:]}')
        for c, line in zip(batch, lines):
            judge(task, c, line.split(), ctx)


def judge(task, case, w, ctx):
    op, T, ds = case
    ctx.ev()
    ctx.trans()
    key = task['set']
    what = f'{op} {T} ' + ' | '.join(f'z={d["z"]} x={d["x"]} active={d["active"]} criteria={d["crit"]} gridmin={d["gridmin"]} max={d["npmax"]} fixed={d["fix"]}' for d in ds)
    if w[0] == 'X':
        ctx.violation(f'{key}:refused', f'domain could not be built: {what}')
        return
    # parse
    pos, got = 2, []
    for d in ds:
        n = int(w[pos])
        nv = len(d['active'])
        z = [float(a) for a in w[pos + 1:pos + 1 + n]]
        x = [float(a) for a in w[pos + 1 + n:pos + 1 + n + n * nv]]
        pos += 1 + n + n * nv
        got.append((z, [x[j * nv:(j + 1) * nv] for j in range(n)], float(w[pos]), float(w[pos + 1])))
        pos += 2
    try:
        exp, changed, zf, tf = [], False, None, None
        over = op == 'R' and any(len(d['z']) >= d['npmax'] for d in ds)
        for d in ds:
            if op == 'F':
                if d['kind'] == 1:
                    zf, z, t = place(d['z'], [q[0] for q in d['x']], T)
                    exp.append((z, [[q] for q in t]))
                else:
                    exp.append((d['z'], d['x']))
            elif over:
                exp.append((d['z'], d['x']))
            else:
                pin = [j for j, q in enumerate(d['z']) if q in d['fix'] and d['kind']]
                Z, X, c = reference(d['z'], d['x'], d['active'], d['crit'], d['gridmin'], pin)
                exp.append((Z, X))
                changed |= c
    except Tie:
        ctx.skip('criterion met to within rounding')
        return
    ctx.trace()
    if over:
        ctx.check(f'{key}:limit', w[0] == 'E', f'refining beyond the maximum number of points was not refused: {what}')
    elif w[0] == 'E':
        ctx.violation(f'{key}:error', f'refine failed: {what}')
        return
    if changed:
        ctx.outcome((key, tuple(len(e[0]) for e in exp)))
        ctx.state((tuple(tuple(e[0]) for e in exp)))
    for i, ((z, x, gzf, gtf), (Z, X)) in enumerate(zip(got, exp)):
        d = ds[i]
        if len(Z) == 1 and d['kind'] == 0:
            # the location of a boundary is where its neighbour starts
            z = Z
        if len(z) != len(Z) or any(abs(a - b) > 1e-9 * (1 + abs(b)) for a, b in zip(z, Z)):
            ctx.violation(f'{key}:grid', f'new grid {z}, expected {Z}: domain {i} of {what}')
            return
        if any(abs(a - b) > 1e-9 * (1 + abs(b)) for p, q in zip(x, X) for a, b in zip(p, q)):
            ctx.violation(f'{key}:profile', f'new profile {x}, expected {X}: domain {i} of {what}')
            return
        if op == 'F' and d['kind'] == 1 and zf is not None:
            if abs(gzf - zf) > 1e-9 or gtf != T:
                ctx.violation(f'{key}:place', f'fixed point is {gtf} at {gzf}, expected {T} at {zf}: {what}')
        if d['fix'][0] >= 0 and abs(gzf - d['fix'][0]) > 1e-12:
            ctx.violation(f'{key}:moved', f'fixed point moved from {d["fix"][0]} to {gzf}: {what}')
    if op == 'R' and not over:
        ctx.check(f'{key}:return', (int(w[1]) != 0) == changed, f'refine returned {w[1]}, grid changed: {changed}: {what}')
