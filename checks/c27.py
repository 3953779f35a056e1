"""C27: saving and restoring arrays of states."""
import itertools
import math
import os
import shutil
import tempfile
import numpy as np
import models
import cantera as ct
from cantera import composite

PROPERTY, LEVEL = 'C27', 'model_checking'
BUILD = ['py']
TECHNIQUE = ('explicit exploration of all save/overwrite/restore/fault histories on a small set of files and entry names against a reference '
             'file system, and enumeration of every phase model, extra column kind, size and basis through every format')
LEVEL_NOTE = 'After every operation each file is compared with the reference: entries, contents restored into a fresh array, and bytes after a refused or failing save.'
RULE = ('A case is a history of file operations, or a (phase, size, columns, format) round trip; it is non-trivial when a file was written. '
        'States are distinct reference file systems; transitions are operations.')
ASSUMPTIONS = ['CSV files hold nine significant digits; text which reads as a number, and multi-dimensional columns, cannot be told apart in CSV and are left out there',
               'HDF support is not available in this build',
               'a file is rewritten by other programs with a modification time different from the cached one']
BOUNDS = {'quick': 'histories of 3 operations out of 26; 7 phases x 4 sizes x 14 column kinds x formats',
          'thorough': 'histories of 4 operations'}

PHASES = {
    'gas': (lambda: ct.Solution('h2o2.yaml', 'ohmech', transport_model=None), ['H2:2,O2:1,AR:3', 'H2O:1,N2:2', 'O2:1'], 'TPX'),
    'gas-transport': (lambda: ct.Solution('h2o2.yaml', 'ohmech', transport_model='multicomponent'), ['H2:2,O2:1,AR:3', 'H2O:1,N2:2', 'O2:1'], 'TPX'),
    'pr': (lambda: ct.Solution('co2_PR_example.yaml', 'CO2-PR', transport_model=None), ['CO2:0.6,H2:0.4', 'H2O:0.1,N2:2', 'CO2:1,CH4:0.1'], 'TPX'),
    'water': (lambda: ct.PureFluid('liquidvapor.yaml', 'water'), None, 'TQ'),
    'surf': (lambda: ct.Interface('ptcombust.yaml', 'Pt_surf'), ['PT(S):0.5,H(S):0.5', 'PT(S):1', 'CO(S):0.25,PT(S):0.5,O(S):0.25'], 'TPX'),
    'solid': (lambda: ct.Solution('lithium_ion_battery.yaml', 'anode'), ['Li[anode]:0.6,V[anode]:0.4', 'Li[anode]:0.1,V[anode]:0.9', 'V[anode]:1'], 'TPX'),
    'liquid': (lambda: ct.Solution('lithium_ion_battery.yaml', 'electrolyte'), ['C3H4O3[elyt]:1,Li+[elyt]:0.1,PF6-[elyt]:0.1', 'C3H4O3[elyt]:1', 'C3H4O3[elyt]:4,Li+[elyt]:0.3,PF6-[elyt]:0.3'], 'TPX'),
}

COLS = {
    'none': None,
    'float': [1.5, -2.25e-30, 3e300, 0.1, 7.],
    'whole': [1., 2., 3., 4., 5.],
    'int': [1, -2, 300000, 0, 7],
    'str': ['a', 'b c', 'd,e', 'x;y', 'z'],
    'strnum': ['1', '2.5', '1e3', '-4', '0x10'],
    'strodd': ['true', 'null', '~', 'a: b', "it's"],
    'strodd2': ['', ' lead', 'trail ', '"q"', '#c'],
    'strml': ['line\nbreak', '[1, 2]', '{a: b}', '- x', '%y'],
    'mat': [[1., 2.], [3., 4.5], [5., 6.], [7., 8.], [9., 1.]],
    'imat': [[1, 2], [3, 4], [5, 6], [7, 8], [9, 1]],
    'smat': [['a', 'b'], ['c', 'd'], ['e', 'f'], ['1', '2'], ['', 'x']],
    'special': [math.nan, math.inf, -math.inf, 0., 1.],
    'two': 'two',
}


def new(k):
    return PHASES[k][0]()


def fill(k, n, phase, col='none', meta=None, shape=None, raw=None):
    _, comps, how = PHASES[k]
    if col == 'two':
        extra = {'zeta': [1.25 * i for i in range(n)], 'alpha': ['s%d' % i for i in range(n)]}
    elif col == 'none':
        extra = None
    else:
        extra = {col if raw else 'col': raw or COLS[col][:n]}
    if n == 0 and extra:
        extra = list(extra)
    a = ct.SolutionArray(phase, shape if shape is not None else (n,), extra=extra, meta=meta or {})
    if n:
        if how == 'TQ':
            a.TD = np.linspace(380., 650., n).reshape(a.shape), np.linspace(5., 40., n).reshape(a.shape)
        else:
            T = np.linspace(300., 900., n)
            X = np.zeros((n, phase.n_species))
            for i in range(n):
                phase.TPX = 300, 1e5, comps[i % len(comps)]
                X[i] = phase.X
            a.TPX = T.reshape(a.shape), np.linspace(1e5, 3e5, n).reshape(a.shape), X.reshape(a.shape + (phase.n_species,))
    return a


def content(a):
    """Everything an array holds."""
    out = {'shape': tuple(a.shape), 'names': list(a.component_names), 'extra': {}}
    if a.size:
        out['T'] = np.ravel(a.T)
        out['D'] = np.ravel(a.density)
        out['P'] = np.ravel(a.P)
        out['Y'] = np.reshape(a.X, (a.size, -1))
    for n in a.extra:
        v = getattr(a, n)
        out['extra'][n] = (v.dtype.kind, v.tolist())
    out['meta'] = {k: v for k, v in a.meta.items()}
    return out


def same(ctx, key, got, want, rtol=1e-9, msg='', csv=False):
    ok = ctx.eq(key + ':shape', got['shape'], want['shape'], f'{msg}: shape')
    if not ok:
        return False
    for q in ('T', 'D', 'P', 'Y'):
        if q in want:
            ok &= ctx.close(f'{key}:{q}', got[q], want[q], rtol=rtol * (1e3 if q == 'P' else 1), atol=1e-12, msg=f'{msg}: {q}')
    ok &= ctx.eq(key + ':extra', sorted(got['extra']), sorted(want['extra']), f'{msg}: extra columns')
    if not ok:
        return False
    for n, (kind, v) in want['extra'].items():
        gk, gv = got['extra'][n]
        if kind == 'f':
            ok &= ctx.close(f'{key}:extra', np.array(gv, float), np.array(v), rtol=rtol, atol=0, msg=f'{msg}: column {n}')
        elif csv:
            ok &= ctx.eq(f'{key}:extra', gv, v, f'{msg}: column {n}')
        else:
            ok &= ctx.eq(f'{key}:extra', (gk, gv), (kind, v), f'{msg}: column {n}')
    return ok


# ---------------------------------------------------------------- round trips
def roundtrip(ctx, k, n, col, d):
    phase = new(k)
    key = f'{k}:{n}:{col}'
    meta = {'note': 'x', 'num': 3, 'val': 2.5, 'nested': {'a': [1., 2.5]}}
    a = fill(k, n, phase, col, meta)
    ref = content(a)
    if n == 0:        # a column without entries has no type, and is not kept
        ref['extra'] = {}
    ctx.ev()
    fresh = new(k)
    # YAML
    f = os.path.join(d, f'{key.replace(":", "_")}.yaml')
    simple = col not in ()
    try:
        a.save(f, 'one', description='desc text')
        saved = True
    except Exception as x:
        ctx.check(key + ':yaml-save', not simple, f'save raised {str(x)[:300]}')
        saved = False
    if saved:
        ctx.trans()
        b = ct.SolutionArray(fresh, 0)
        try:
            head = b.restore(f, 'one')
        except Exception as x:
            ctx.violation(key + ':yaml-restore', f'{type(x).__name__}: {str(x)[:400]}')
            head = None
        if head is not None:
            got = content(b)
            same(ctx, key + ':yaml', got, ref, msg=f'{k}, {n} states, column {col}, YAML')
            ctx.eq(key + ':header', head.get('description'), 'desc text', 'description')
            for m, v in meta.items():
                ctx.eq(f'{key}:meta', got['meta'].get(m), v, f'meta data {m}')
            ctx.outcome((key, str(got['extra'])[:60]))
            # an array which already has columns and another size takes over everything
            c = fill(k, 2, new(k), 'float')
            try:
                c.restore(f, 'one')
                same(ctx, key + ':yaml-used', content(c), ref, msg=f'{k}, {n} states, column {col}, YAML, restored into a used array')
            except Exception as x:
                ctx.violation(key + ':yaml-used', f'{type(x).__name__}: {str(x)[:400]}')
    # CSV
    if k in ('water',):
        csvok = True
    for basis in (None, 'X', 'Y', 'mole', 'mass'):
        f = os.path.join(d, f'{key.replace(":", "_")}_{basis}.csv')
        if n == 0 and col != 'none':      # a column without entries has no type
            continue
        multi = col in ('mat', 'imat', 'smat') and n
        quoted = col in ('strodd2', 'strml') and n and any(('"' in s or '\n' in s) for s in COLS[col][:n])
        try:
            a.save(f, basis=basis)
        except Exception as x:
            ctx.check(key + ':csv-save', multi or quoted, f'save raised {str(x)[:300]}')
            ctx.check(key + ':csv-left', not os.path.exists(f), 'a failing save left a file')
            continue
        if multi or quoted:
            ctx.violation(key + ':csv-save', 'multi-dimensional column or quoted text accepted')
            continue
        ctx.trans()
        if n == 0 or col in ('strnum', 'strodd', 'strodd2', 'strml'):
            continue
        for reader in ('pandas', 'numpy'):
            if reader == 'numpy' and (col in ('str', 'two') and n > 2 or k == 'x'):
                continue
            b = ct.SolutionArray(fresh, 0)
            try:
                if reader == 'numpy':
                    keep = composite._import_pandas
                    composite._import_pandas = noimport
                    try:
                        b.read_csv(f)
                    finally:
                        composite._import_pandas = keep
                else:
                    b.read_csv(f)
            except Exception as x:
                ctx.violation(f'{key}:csv-{reader}', f'basis {basis}: {type(x).__name__}: {str(x)[:300]}')
                continue
            same(ctx, f'{key}:csv-{reader}', content(b), ref, rtol=2e-8, msg=f'{k}, {n} states, column {col}, CSV basis {basis}, {reader}', csv=True)
    # data frames and dictionaries
    for tab in (False, True):
        if col in ('mat', 'imat', 'smat') and tab:
            continue
        b = ct.SolutionArray(fresh, 0)
        if not n:
            continue
        try:
            b.restore_data(a.collect_data(tabular=tab))
        except Exception as x:
            ctx.violation(f'{key}:collect', f'tabular {tab}: {type(x).__name__}: {str(x)[:300]}')
            continue
        same(ctx, f'{key}:collect', content(b), ref, msg=f'{k}, {n} states, column {col}, collect_data(tabular={tab})', csv=True)
    ctx.trace()
    ctx.sample(key)


def noimport():
    raise ImportError('no pandas')


def multidim(ctx, k, d):
    for shape in ((2, 2), (1, 3), (3, 1), (2, 1, 2)):
        phase = new(k)
        n = int(np.prod(shape))
        key = f'{k}:{shape}'
        a = fill(k, n, phase, shape=shape)
        ref = content(a)
        f = os.path.join(d, f'{k}_{n}_{len(shape)}_{shape[0]}.yaml')
        ctx.ev()
        try:
            a.save(f, 'one')
            b = ct.SolutionArray(new(k), 0)
            b.restore(f, 'one')
        except Exception as x:
            ctx.violation(key, f'{type(x).__name__}: {str(x)[:300]}')
            continue
        same(ctx, key, content(b), ref, msg=f'{k}, shape {shape}')
        try:
            a.save(f.replace('.yaml', '.csv'))
            ctx.violation(key + ':csv', 'array with several dimensions saved as CSV')
        except ct.CanteraError:
            ctx.check(key + ':csv', not os.path.exists(f.replace('.yaml', '.csv')), 'a failing save left a file')
        ctx.trans()
        ctx.trace()


# ---------------------------------------------------------------- histories
class World:
    def __init__(self, d):
        self.d = d
        self.g = new('gas')
        self.arr = {'A': fill('gas', 3, self.g, 'float', {'m': 1}), 'B': fill('gas', 1, self.g, 'str', {'n': 'x'}),
                    'C': fill('gas', 2, self.g, 'two'), 'Z': fill('gas', 0, self.g)}
        self.ref = {k: content(a) for k, a in self.arr.items()}
        self.files = {}        # path -> None (csv: arr) or {name: {sub: arr}}

    def p(self, f):
        return os.path.join(self.d, f)

    def bytes(self, f):
        try:
            with open(self.p(f), 'rb') as h:
                return h.read()
        except FileNotFoundError:
            return None


OPS = {}


def add_save(f, arr, name, sub, over):
    def go(ctx, w):
        if f.endswith('.csv'):
            ok = over or f not in w.files
        else:
            ok = over or name not in w.files.get(f, {})
        before = {q: w.bytes(q) for q in ('f.yaml', 'g.yml', 'h.csv')}
        try:
            w.arr[arr].save(w.p(f), name, sub, overwrite=over)
            done = True
        except ct.CanteraError as x:
            done, why = False, x
        if done != ok:
            return f'save was {"accepted" if done else "refused: " + str(why)[:200]}'
        if not done:
            for q, b in before.items():
                if w.bytes(q) != b:
                    return f'refused save changed {q}'
            return
        if f.endswith('.csv'):
            w.files[f] = arr
        else:
            w.files.setdefault(f, {})
            w.files[f][name] = (sub, arr)
    OPS[f'save {arr} {f} {name}/{sub}{" overwrite" if over else ""}'] = go


for _f in ('f.yaml', 'g.yml'):
    for _a, _n, _s in (('A', 'one', None), ('B', 'one', 'sub'), ('C', 'two', None)) if _f == 'f.yaml' else (('A', 'one', None), ('B', 'two', None)):
        for _o in (False, True):
            add_save(_f, _a, _n, _s, _o)
add_save('f.yaml', 'Z', 'zero', None, False)
add_save('f.yaml', 'C', 'one', None, True)
for _a in ('A', 'C'):
    for _o in (False, True):
        add_save('h.csv', _a, None, None, _o)


def bad(name):
    def deco(fn):
        def go(ctx, w):
            before = {q: w.bytes(q) for q in ('f.yaml', 'g.yml', 'h.csv')}
            listing = sorted(os.listdir(w.d))
            try:
                fn(w)
                return 'accepted'
            except (ct.CanteraError, NotImplementedError, KeyError, ValueError, TypeError):
                pass
            for q, b in before.items():
                if w.bytes(q) != b:
                    return f'failing operation changed {q}'
            if sorted(os.listdir(w.d)) != listing:
                return f'failing operation created {set(os.listdir(w.d)) - set(listing)}'
        OPS[name] = go
        return fn
    return deco


@bad('bad: no name')
def _(w):
    w.arr['A'].save(w.p('f.yaml'), overwrite=True)


@bad('bad: extension')
def _(w):
    w.arr['A'].save(w.p('f.txt'), 'one', overwrite=True)


@bad('bad: slice')
def _(w):
    w.arr['A'][1:].save(w.p('f.yaml'), 'one', overwrite=True)


@bad('bad: slice csv')
def _(w):
    w.arr['A'][1:].save(w.p('h.csv'), overwrite=True)


@bad('bad: csv quotes')
def _(w):
    a = fill('gas', 3, w.g, 'col', raw=['a', 'b', 'say "x"'])
    a.save(w.p('h.csv'), overwrite=True)


@bad('bad: csv matrix')
def _(w):
    fill('gas', 3, w.g, 'mat').save(w.p('h.csv'), overwrite=True)


@bad('bad: csv basis')
def _(w):
    w.arr['A'].save(w.p('h.csv'), overwrite=True, basis='volume')


@bad('bad: csv column')
def _(w):
    a = fill('gas', 3, w.g, 'c"q', raw=[1., 2., 3.])
    a.save(w.p('h.csv'), overwrite=True)


@bad('bad: directory')
def _(w):
    w.arr['A'].save(w.p('nosuch/f.yaml'), 'one')


@bad('bad: directory csv')
def _(w):
    w.arr['A'].save(w.p('nosuch/f.csv'))


@bad('bad: restore')
def _(w):
    ct.SolutionArray(w.g).restore(w.p('f.yaml'), 'missing')


@bad('bad: restore file')
def _(w):
    ct.SolutionArray(w.g).restore(w.p('missing.yaml'), 'one')


@bad('bad: restore sub')
def _(w):
    ct.SolutionArray(w.g).restore(w.p('f.yaml'), 'two', 'nosuchsub')


@bad('bad: other phase')
def _(w):
    if 'one' not in w.files.get('f.yaml', {}):
        raise ValueError('nothing to do')
    ct.SolutionArray(new('solid')).restore(w.p('f.yaml'), 'one', w.files['f.yaml']['one'][0])


def remove(ctx, w):
    if 'f.yaml' in w.files:
        os.remove(w.p('f.yaml'))
        del w.files['f.yaml']


def copyover(ctx, w):
    """The other file replaces this one, as another program would do it."""
    if 'g.yml' in w.files:
        s = w.bytes('g.yml')
        old = os.stat(w.p('f.yaml')).st_mtime_ns if os.path.exists(w.p('f.yaml')) else 0
        with open(w.p('f.yaml'), 'wb') as h:
            h.write(s)
        if os.stat(w.p('f.yaml')).st_mtime_ns == old:
            os.utime(w.p('f.yaml'), ns=(old + 1, old + 1))
        w.files['f.yaml'] = dict(w.files['g.yml'])


OPS['remove f.yaml'] = remove
OPS['g.yml -> f.yaml'] = copyover


def verify(ctx, key, w, seq):
    ok = True
    present = sorted(os.listdir(w.d))
    ok &= ctx.eq(key + ':files', present, sorted(w.files), f'files after {seq}')
    for f, ents in w.files.items():
        if f.endswith('.csv'):
            b = ct.SolutionArray(w.g)
            try:
                b.read_csv(w.p(f))
            except Exception as x:
                ctx.violation(key, f'{f} after {seq}: {type(x).__name__}: {str(x)[:300]}')
                return False
            ok &= same(ctx, key, content(b), dict(w.ref[ents]), rtol=2e-8, msg=f'{f} after {seq}', csv=True)
            continue
        for name, (sub, arr) in ents.items():
            b = ct.SolutionArray(w.g)
            try:
                b.restore(w.p(f), name, sub)
            except Exception as x:
                ctx.violation(key, f'{f}:{name}/{sub} after {seq}: {type(x).__name__}: {str(x)[:300]}')
                return False
            ok &= same(ctx, key, content(b), w.ref[arr], msg=f'{f}:{name} after {seq}')
        top = ct.SolutionArray(w.g)
        for name in ('one', 'two', 'zero'):
            if name not in ents:
                try:
                    top.restore(w.p(f), name)
                    ctx.violation(key, f'{f}: entry {name} exists after {seq}')
                    ok = False
                except ct.CanteraError:
                    pass
    return ok


def history(ctx, seq):
    d = tempfile.mkdtemp(prefix='c27_')
    key = 'history:' + ' | '.join(seq)
    try:
        w = World(d)
        ctx.ev()
        for i, o in enumerate(seq):
            r = OPS[o](ctx, w)
            ctx.trans()
            if r:
                ctx.violation(key, f'{o} after {seq[:i]}: {r}')
                return
            ctx.state({f: e if isinstance(e, str) else sorted((n, str(s)) for n, s in e.items()) for f, e in w.files.items()})
            if not verify(ctx, key, w, seq[:i + 1]):
                return
        ctx.trace()
        ctx.outcome(str(w.files))
        ctx.sample(key)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def searchpath(ctx):
    """A file in the working directory is used even if a data directory has one of that name."""
    d = tempfile.mkdtemp(prefix='c27_')
    e = tempfile.mkdtemp(prefix='c27_')
    keep = os.getcwd()
    try:
        g = new('gas')
        a, b = fill('gas', 3, g, 'float'), fill('gas', 2, g, 'int')
        a.save(os.path.join(e, 'name_c27.yaml'), 'other')
        os.chdir(d)
        ct.add_directory(e)
        a.save('name_c27.yaml', 'one')
        b.save('name_c27.yaml', 'two')
        ctx.ev()
        for n, x in (('one', a), ('two', b)):
            r = ct.SolutionArray(g)
            try:
                r.restore('name_c27.yaml', n)
                same(ctx, 'search:' + n, content(r), content(x), msg='file in the working directory')
            except Exception as ex:
                ctx.violation('search:' + n, f'{type(ex).__name__}: {str(ex)[:300]}')
        r = ct.SolutionArray(g)
        try:
            r.restore('name_c27.yaml', 'other')
            ctx.violation('search:other', 'the working directory file has an entry of another file')
        except ct.CanteraError:
            pass
        ctx.trace()
    finally:
        os.chdir(keep)
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(e, ignore_errors=True)


def tasks(tier):
    out = [dict(kind='search')]
    for k in PHASES:
        for n in (0, 1, 2, 5):
            out.append(dict(kind='rt', phase=k, n=n))
        out.append(dict(kind='nd', phase=k))
    names = list(OPS)
    for f in names:
        if not f.startswith('bad') or tier == 'thorough':
            for s in names:
                out.append(dict(kind='hist', first=[f, s]))
    return out


def run(task, ctx):
    if task['kind'] == 'search':
        return searchpath(ctx)
    if task['kind'] in ('rt', 'nd'):
        d = tempfile.mkdtemp(prefix='c27_')
        try:
            if task['kind'] == 'nd':
                multidim(ctx, task['phase'], d)
            else:
                for col in COLS if task['n'] else ('none', 'float'):
                    roundtrip(ctx, task['phase'], task['n'], col, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return
    names = list(OPS)
    if ctx.tier == 'quick':
        third = [n for n in names if n.startswith('save') and 'f.yaml' in n or n in ('bad: slice', 'bad: csv quotes', 'bad: no name', 'g.yml -> f.yaml')]
        if task['first'][1].startswith('bad'):
            third = third[:1]
        for t in third:
            history(ctx, tuple(task['first']) + (t,))
    else:
        for t in itertools.product(names, repeat=2):
            history(ctx, tuple(task['first']) + t)
