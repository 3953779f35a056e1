"""C17: matrices, Jacobians and numerical kernels against elementary dense arithmetic: all fill patterns and operation sequences in bounds."""
import subprocess

PROPERTY, LEVEL = 'C17', 'model_checking'
BUILD = ['py', 'h:linalg']
TECHNIQUE = ('explicit-state enumeration on the built library (C++ harness): every operation sequence up to a depth on band matrices, dense matrices/arrays and the three system Jacobians, in step with a '
             'reference matrix; every fill pattern of small matrices over a few values; all grids up to six points for interpolation, quadrature and fits; solutions compared with long-double elimination with full pivoting')
LEVEL_NOTE = 'All sequences and patterns inside the bounds are run (large pattern spaces on a fixed lattice); a singular matrix has to be reported when a row or column is zero, otherwise a small residual is enough.'
RULE = 'A case is one solve, product or read-out compared; states are the distinct matrices or histories, transitions the operations.'
ASSUMPTIONS = ['the incomplete factorization is compared with that of a new object of the same contents (exact for diagonal matrices)', 'LAPACK variant of the build']
BOUNDS = {'quick': 'band 1..4 with all bandwidths; band histories of 4 from 17 operations on sizes 1 and 3; dense up to 3x3 over 4 values; array histories of 4; Jacobian histories of 4; grids of up to 6 points',
          'thorough': 'band 5, dense 4, histories of 5 for bands, arrays and Jacobians'}
V = '/verif'


def tasks(tier):
    q = tier == 'quick'
    out = [{'a': ['band', n, p, of, 0]} for n, of in ((1, 1), (2, 1), (3, 4), (4, 16)) + (() if q else ((5, 16),)) for p in range(of)]
    out += [{'a': ['bandhist', n, p, 32 if q else 256, 4 if q else 5]} for n in (1, 3) for p in range(32 if q else 256)]
    out += [{'a': ['dense', n, p, of, 0]} for n, of in ((1, 1), (2, 1), (3, 8)) + (() if q else ((4, 32),)) for p in range(of)]
    out += [{'a': ['array', 0, p, 16 if q else 128, 4 if q else 5]} for p in range(16 if q else 128)]
    for k, d in (('sparse', 4), ('adaptive', 4), ('banded', 4)):
        out += [{'a': [k, 0, p, 4 if q else 64, d if q else d + 1]} for p in range(4 if q else 64)]
    return out + [{'a': ['helpers', 0, p, 4, 0]} for p in range(4)]


def run(task, ctx):
    r = subprocess.run([f'{V}/build/o/linalg', *map(str, task['a'])], capture_output=True, text=True, errors='replace')
    done = False
    for line in r.stdout.splitlines():
        f = line.split('\t')
        if f[0] == 'V':
            ctx.violation(f[1], f[2])
        elif f[0] == 'N':
            done = True
            ctx.ev(int(f[1]))
            ctx.trans(int(f[2]))
            ctx.trace(int(f[6]))
            ctx.states_n(int(f[3]))
            for _ in range(min(int(f[5]), 1)):
                ctx.skip('singular up to rounding')
    ctx.check('harness', done, f'{task}: harness ended with {r.returncode}: {r.stderr[-300:]}')
    ctx.outcome(task['a'][0])
