"""C13: unit expressions, default unit systems, and models written in different unit systems."""
import itertools, json, math, os, re
import numpy as np
import models, kinpool
import cantera as ct
import ruamel.yaml

PROPERTY, LEVEL = 'C13', 'exploration'
BUILD = ['py']
TECHNIQUE = ('exhaustive enumeration of unit names, prefixes, exponents and expression shapes against an independent unit calculus, and of '
             'default-unit-system combinations and placements for documents re-expressed by an independent translator')
LEVEL_NOTE = 'All strings up to a length over the unit alphabet are classified, all compatible pairs converted, and each document is loaded in every unit system of the list.'
RULE = ('A case is one conversion, one rejected expression or one model property in one unit system; it is non-trivial when the factor is not 1 or the expression is rejected. '
        'States are distinct expressions or documents, transitions are conversions or loads.')
ASSUMPTIONS = ['unit definitions are those of the documentation (SI, 4.184 J thermochemical calorie, CODATA constants of the package)',
               'the translator of documents knows the dimension of each field from the input-file documentation']
BOUNDS = {'quick': 'strings up to 3 letters, all single-unit pairs with prefixes, products of 2 factors x exponents, 96 default systems, 33 thermo models and 14 mechanisms x 8 system/placement combinations',
          'thorough': 'products of 3 factors, 1200 default systems, 40 system/placement combinations'}

NA, R, QE, ATM = ct.avogadro, ct.gas_constant, ct.electron_charge, ct.one_atm
#        M  L  T  K  A  Q
BASE = {
    'kg': (1., (1, 0, 0, 0, 0, 0)), 'g': (1e-3, (1, 0, 0, 0, 0, 0)),
    'm': (1., (0, 1, 0, 0, 0, 0)), 'micron': (1e-6, (0, 1, 0, 0, 0, 0)), 'angstrom': (1e-10, (0, 1, 0, 0, 0, 0)), 'Å': (1e-10, (0, 1, 0, 0, 0, 0)),
    's': (1., (0, 0, 1, 0, 0, 0)), 'min': (60., (0, 0, 1, 0, 0, 0)), 'hr': (3600., (0, 0, 1, 0, 0, 0)),
    'K': (1., (0, 0, 0, 1, 0, 0)), 'C': (1., (0, 0, 0, 1, 0, 0)), 'A': (1., (0, 0, 0, 0, 1, 0)),
    'mol': (1e-3, (0, 0, 0, 0, 0, 1)), 'gmol': (1e-3, (0, 0, 0, 0, 0, 1)), 'mole': (1e-3, (0, 0, 0, 0, 0, 1)),
    'kmol': (1., (0, 0, 0, 0, 0, 1)), 'kgmol': (1., (0, 0, 0, 0, 0, 1)), 'molec': (1 / NA, (0, 0, 0, 0, 0, 1)),
    'J': (1., (1, 2, -2, 0, 0, 0)), 'cal': (4.184, (1, 2, -2, 0, 0, 0)), 'erg': (1e-7, (1, 2, -2, 0, 0, 0)), 'eV': (QE, (1, 2, -2, 0, 0, 0)),
    'N': (1., (1, 1, -2, 0, 0, 0)), 'dyn': (1e-5, (1, 1, -2, 0, 0, 0)),
    'Pa': (1., (1, -1, -2, 0, 0, 0)), 'atm': (101325., (1, -1, -2, 0, 0, 0)), 'bar': (1e5, (1, -1, -2, 0, 0, 0)),
    'liter': (1e-3, (0, 3, 0, 0, 0, 0)), 'L': (1e-3, (0, 3, 0, 0, 0, 0)), 'l': (1e-3, (0, 3, 0, 0, 0, 0)), 'cc': (1e-6, (0, 3, 0, 0, 0, 0)),
    'ohm': (1., (1, 2, -3, 0, -2, 0)), 'V': (1., (1, 2, -3, 0, -1, 0)), 'coulomb': (1., (0, 0, 1, 0, 1, 0)),
    '1': (1., (0,) * 6), '': (1., (0,) * 6),
}
PRE = {'Y': 1e24, 'Z': 1e21, 'E': 1e18, 'P': 1e15, 'T': 1e12, 'G': 1e9, 'M': 1e6, 'k': 1e3, 'h': 1e2, 'd': 1e-1, 'c': 1e-2, 'm': 1e-3, 'u': 1e-6,
       'n': 1e-9, 'p': 1e-12, 'f': 1e-15, 'a': 1e-18, 'z': 1e-21, 'y': 1e-24}
KIND = {'kg': 'mass', 'g': 'mass', 'm': 'length', 'micron': 'length', 'angstrom': 'length', 'Å': 'length', 's': 'time', 'min': 'time', 'hr': 'time',
        'mol': 'quantity', 'gmol': 'quantity', 'mole': 'quantity', 'kmol': 'quantity', 'kgmol': 'quantity', 'molec': 'quantity',
        'J': 'energy', 'cal': 'energy', 'erg': 'energy', 'eV': 'energy', 'Pa': 'pressure', 'atm': 'pressure', 'bar': 'pressure'}


def token(u):
    """(factor, dims, kind) of one unit name, or None."""
    if u in BASE:
        f, d = BASE[u]
        return f, d, KIND.get(u)
    if len(u) > 1 and u[0] in PRE and u[1:] in BASE:
        f, d = BASE[u[1:]]
        return f * PRE[u[0]], d, KIND.get(u[1:])
    return None


def parse(expr):
    """[(factor, dims, kind, exponent)] of an expression."""
    out = []
    for op, name, ex in re.findall(r'(^|[*/])\s*([^*/^]*?)\s*(?:\^\s*([-+0-9.]+)\s*)?(?=$|[*/])', expr.strip()):
        t = token(name)
        if t is None:
            raise ValueError(name)
        e = float(ex) if ex else 1.0
        out.append(t + ((-e if op == '/' else e),))
    return out


def factor(expr):
    return math.prod(t[0] ** t[3] for t in parse(expr))


def dims(expr):
    p = parse(expr)
    return tuple(round(sum(t[1][i] * t[3] for t in p), 9) for i in range(6))


class System:
    """Reference of a default unit system."""

    def __init__(self, units=None, parent=None):
        self.u = dict(parent.u) if parent else {}
        self.u.update(units or {})
        # an explicit activation-energy unit stays in force for nested maps

    def f(self, kind):
        return factor(self.u[kind]) if kind in self.u else 1.0

    def value(self, expr):
        """Factor turning a bare number with the dimensions of expr into the SI value."""
        r = 1.0
        for f, d, kind, e in parse(expr):
            if kind:
                r *= self.f(kind) ** e
            elif d == BASE['N'][1]:
                r *= (self.f('mass') * self.f('length') / self.f('time') ** 2) ** e
            elif d == BASE['L'][1]:
                r *= self.f('length') ** (3 * e)
        return r

    def act(self):
        """Factor turning a bare activation energy into J/kmol."""
        a = self.u.get('activation-energy')
        if a is None:
            return self.f('energy') / self.f('quantity')
        return act_factor(a)


def act_factor(a):
    d = dims(a)
    return factor(a) * {(1, 2, -2, 0, 0, -1): 1., (0, 0, 0, 1, 0, 0): R, (1, 2, -2, 0, 0, 0): NA}[d]


# ------------------------------------------------------------------ expressions
def t_strings(ctx, task):
    """Every string of letters up to length 3: accepted as a unit exactly when it is one."""
    us = ct.UnitSystem()
    alpha = sorted({c for u in BASE for c in u if c not in '1Å'} | set(PRE))
    n = bad = 0
    first = task['first']
    for l in range(0, 3):
        for tail in itertools.product(alpha, repeat=l):
            s = first + ''.join(tail)
            t = token(s)
            n += 1
            try:
                v = us.convert_to('1 ' + s, s)
                got = True
            except ct.CanteraError:
                got = False
            if got != (t is not None) or (got and abs(v - 1) > 1e-14):
                ctx.violation('string:' + s, f'unit string "{s}": accepted={got}, a unit: {t is not None}')
    ctx.trans(n)
    ctx.ev(n)
    ctx.state(('strings', first))


def t_pairs(ctx, task):
    us = ct.UnitSystem()
    names = [(p + u) for u in BASE if u for p in [''] + list(PRE) if token(p + u) and not (p and (p + u) in BASE)]
    groups = {}
    for u in names:
        groups.setdefault(token(u)[1], []).append(u)
    keys = sorted(groups)
    for gi, d in enumerate(keys):
        if gi % task['of'] != task['part']:
            continue
        bad = 0
        for a in groups[d]:
            fa = token(a)[0]
            for b in groups[d]:
                v = us.convert_to('3.25 ' + a, b)
                ref = 3.25 * fa / token(b)[0]
                if not abs(v / ref - 1) < 1e-12:
                    bad += 1
                    if bad < 4:
                        ctx.violation(f'pair:{a}:{b}', f'3.25 {a} is {v!r} {b}, expected {ref!r}')
        ctx.trans(len(groups[d]) ** 2)
        ctx.ev(len(groups[d]) ** 2)
        ctx.state(('group', d))
        for d2 in keys:            # incompatible dimensions
            if d2 == d:
                continue
            for a in (groups[d][0], groups[d][-1]):
                for b in (groups[d2][0], groups[d2][-1]):
                    try:
                        v = us.convert_to('1 ' + a, b)
                        ctx.violation(f'incompatible:{a}:{b}', f'converting {a} to {b} gives {v!r} instead of an error')
                    except ct.CanteraError:
                        ctx.ev()


EXPS = ['', '^2', '^-1', '^0.5', '^3', '^-1.5']
POOLU = ['kg', 'cm', 's', 'K', 'kmol', 'kJ', 'bar', 'molec', 'cal', 'mN', 'L', 'eV', 'angstrom', 'A', 'mV']


def t_exprs(ctx, task):
    """Products and quotients with exponents; conversion to a differently written compatible expression."""
    us = ct.UnitSystem()
    n = task['n']
    toks = [u + e for u in POOLU for e in EXPS]
    heads = [t for i, t in enumerate(toks) if i % task['of'] == task['part']]
    small = toks if n == 2 else [u + e for u in POOLU[:9] for e in EXPS[:4]]
    SI = ['kg', 'm', 's', 'K', 'A', 'kmol']
    for h in heads:
        for rest in itertools.product(small, repeat=n - 1):
            for ops in itertools.product('*/', repeat=n - 1):
                e = h + ''.join(o + r for o, r in zip(ops, rest))
                d = dims(e)
                dest = '*'.join(f'{u}^{x:g}' for u, x in zip(SI, d) if x) or '1'
                v = us.convert_to('2.5 ' + e, dest)
                ref = 2.5 * factor(e)
                if not abs(v / ref - 1) < 1e-12:
                    ctx.violation('expr:' + e, f'2.5 {e} is {v!r} {dest}, expected {ref!r}')
                w = us.convert_to(f'{v!r} {dest}', ' ' .join(re.split(r'([*/])', e)))
                if not abs(w / 2.5 - 1) < 1e-11:
                    ctx.violation('expr-inv:' + e, f'inverse of 2.5 {e} via {dest} gives {w!r}')
                wrong = dest + '*m' if dest != '1' else 'm'
                try:
                    us.convert_to('2.5 ' + e, wrong)
                    ctx.violation('expr-dim:' + e, f'{e} converted to {wrong}')
                except ct.CanteraError:
                    pass
                ctx.trans(3)
        ctx.ev(len(small) ** (n - 1) * 2 ** (n - 1))
        ctx.state(('expr', h))


MASS, LEN, TIME = ['kg', 'g', 'mg'], ['m', 'cm', 'angstrom'], ['s', 'min', 'ms']
QUA, PRS, ENE = ['kmol', 'mol', 'molec'], ['Pa', 'bar', 'dyn/cm^2'], ['J', 'cal', 'eV', 'MJ']
ACT = [None, 'K', 'eV', 'cal/mol', 'kJ/kmol', 'J/molec', 'kK', 'meV']
DEST = ['kg', 'g/cm^3', 'm^3/kmol', 'Pa', 'bar', '1/Pa', 'atm*m^6/kmol^2*K^0.5', 'J/kmol', 'cal/gmol/K', 'cal/gmol/bar', 'm^3/kmol/s', 'm^6/kmol^2/s', 'kmol/m^2', 'kmol/m^3',
        'kg^0.5/gmol^0.5', 'eV', 'J/kg/K', 'W/m', 'N', 'm/s', 'K', '1', 's^-1', 'm^3/kg', 'Pa*s', 'J*K/kmol/Pa', 'kg*m/s^2', 'L/min']
DEST = [d for d in DEST if d[0] != 'W']
AD = ['K', 'J/kmol', 'eV', 'kcal/mol', 'kK', 'mK', 'J/molec', 'erg/kmol', 'meV']


def systems(tier):
    out = []
    for i, (m, l, t, q, p, e) in enumerate(itertools.product(MASS, LEN, TIME, QUA, PRS, ENE)):
        a = ACT[i % len(ACT)]
        if tier != 'thorough' and i % 10:
            continue
        out.append({k: v for k, v in zip(('mass', 'length', 'time', 'quantity', 'pressure', 'energy', 'activation-energy'), (m, l, t, q, p, e, a)) if v})
    for k, vs in (('mass', MASS), ('length', LEN), ('time', TIME), ('quantity', QUA), ('pressure', PRS), ('energy', ENE), ('activation-energy', ACT)):
        out += [{k: v} for v in vs if v]
    return out


def t_systems(ctx, task):
    sysl = systems(task['tier'])
    for i, u in enumerate(sysl):
        if i % task['of'] != task['part']:
            continue
        us, ref = ct.UnitSystem(u), System(u)
        key = ','.join(f'{k}={v}' for k, v in u.items())
        for v in ({k: x for k, x in us.units.items() if k in u},):
            ctx.check('defaults', v == u, f'defaults reported {v} for {u}')
        for d in DEST:
            got, exp = us.convert_to(7.5, d), 7.5 * ref.value(d) / factor(d)
            ctx.check(f'system:{d}', abs(got / exp - 1) < 1e-11, f'[{key}] 7.5 in default units is {got!r} {d}, expected {exp!r}')
            got, exp = us.convert_to('7.5 ' + d, d), 7.5             # explicit units override
            ctx.check(f'explicit:{d}', abs(got / exp - 1) < 1e-13, f'[{key}] "7.5 {d}" is {got!r} {d}')
            got = us.convert_rate_coeff_to(7.5, ct.Units('m^3/kmol/s')) if d == 'm^3/kmol/s' else None
            if got is not None:
                exp = 7.5 * ref.value(d)
                ctx.check('rate', abs(got / exp - 1) < 1e-11, f'[{key}] rate coefficient 7.5 is {got!r} {d}, expected {exp!r}')
        got, exp = us.convert_to([1.5, '2 cm', ('3 m', 4)], 'mm'), None
        f = ref.f('length') * 1e3
        ctx.close('arrays', np.hstack([np.ravel(x) for x in got]), np.array([1.5 * f, 20, 3000, 4 * f]), 1e-12, 0, msg=f'[{key}] nested sequences')
        got = us.convert_to(np.array([[1.5, 2], [3, 4]]), 'mm')
        ctx.close('arrays', got, np.array([[1.5, 2], [3, 4]]) * f, 1e-12, 0, msg=f'[{key}] arrays')
        for d in AD:
            got, exp = us.convert_activation_energy_to(7.5, d), 7.5 * ref.act() / act_factor(d)
            ctx.check(f'act:{u.get("activation-energy")}:{d}', abs(got / exp - 1) < 1e-11, f'[{key}] activation energy 7.5 is {got!r} {d}, expected {exp!r}')
            for s in AD:
                got, exp = us.convert_activation_energy_to('7.5 ' + s, d), 7.5 * act_factor(s) / act_factor(d)
                ctx.check(f'act-explicit:{s}:{d}', abs(got / exp - 1) < 1e-11, f'[{key}] activation energy 7.5 {s} is {got!r} {d}, expected {exp!r}')
        for bad in ('kg/mol', 'm', 'J/K', 'eV/kmol/K'):
            try:
                us.convert_activation_energy_to(7.5, bad)
                ctx.violation('act-bad:' + bad, f'activation energy converted to {bad}')
            except ct.CanteraError:
                ctx.ev()
        ctx.trans(len(DEST) * 2 + len(AD) * (len(AD) + 1))
        ctx.ev(len(DEST))
        ctx.state(('system', key))
    if task['part'] == 0:
        for k, bad in itertools.product(('mass', 'length', 'time', 'quantity', 'pressure', 'energy', 'activation-energy', 'temperature', 'current'),
                                        ('kg', 'm', 's', 'kmol', 'Pa', 'J', 'K', 'A', 'J/kmol', 'kg*m', 'furlong', 'mK', 'mA')):
            ok = {'mass': 'kg', 'length': 'm', 'time': 's', 'quantity': 'kmol', 'pressure': 'Pa', 'energy': 'J', 'temperature': 'K', 'current': 'A'}.get(k) == bad
            ok = ok or (k == 'activation-energy' and bad in ('J', 'K', 'J/kmol', 'mK'))
            try:
                ct.UnitSystem({k: bad})
                got = True
            except ct.CanteraError:
                got = False
            ctx.check(f'default:{k}:{bad}', got == ok, f'default {k}: {bad} accepted={got}')
            ctx.ev()


# ------------------------------------------------------------------ documents
DIRS = ['/repo/test/data/', '/repo/data/', os.path.dirname(os.path.abspath(__file__)) + '/data/']
EOS = {'density': 'kg/m^3', 'molar-density': 'kmol/m^3', 'molar-volume': 'm^3/kmol', 'reference-pressure': 'Pa'}
COV = {'enthalpy': 'J/kmol', 'enthalpy-low': 'J/kmol', 'enthalpy-high': 'J/kmol', 'enthalpies': 'J/kmol', 'enthalpy-coefficients': 'J/kmol', 'entropy': 'J/kmol/K',
       'entropy-low': 'J/kmol/K', 'entropy-high': 'J/kmol/K', 'entropies': 'J/kmol/K', 'entropy-coefficients': 'J/kmol/K', 'heat-capacity-a': 'J/kmol/K', 'heat-capacity-b': 'J/kmol/K'}
HKFT = {'h0': 'cal/gmol', 'g0': 'cal/gmol', 's0': 'cal/gmol/K', 'omega': 'cal/gmol', 'a': ['cal/gmol/bar', 'cal/gmol', 'cal*K/gmol/bar', 'cal*K/gmol'], 'c': ['cal/gmol/K', 'cal*K/gmol']}
STATE = {'T': 'K', 'P': 'Pa', 'D': 'kg/m^3', 'density': 'kg/m^3'}
RK = ['Pa*m^6/kmol^2*K^0.5', 'Pa*m^6/kmol^2/K^0.5']


class Tr:
    """Rewrites a document from its own unit systems to a target one."""

    def __init__(self, target, mode, cdim=None, nth=0):
        self.target, self.mode, self.cdim, self.nth, self.k = target, mode, cdim or {}, nth, 0

    def emit(self, si, expr, is_act=False):
        """SI (or J/kmol) value -> number in the target system, or a string with units."""
        self.k += 1
        if self.mode == 'explicit' or (self.mode == 'mixed' and self.k % 3 == self.nth):
            if is_act:
                u = ('K', 'eV', 'kcal/mol', 'J/molec')[self.k % 4]
                return f'{si / act_factor(u)!r} {u}'
            toks = []
            alt = {'kg': 'mg', 'g': 'kg', 'm': 'cm', 's': 'min', 'kmol': 'molec', 'gmol': 'kmol', 'Pa': 'bar', 'bar': 'kPa', 'J': 'cal', 'cal': 'eV', 'K': 'K', 'angstrom': 'cm', 'eV': 'MJ'}
            for op, name, ex in re.findall(r'(^|[*/])\s*([^*/^]*?)\s*(?:\^\s*([-+0-9.]+)\s*)?(?=$|[*/])', expr):
                toks.append(op + (alt.get(name, name) if self.k % 2 else name) + ('^' + ex if ex else ''))
            e = ''.join(toks)
            return f'{si / factor(e)!r} {e}'
        return si / (self.target.act() if is_act else self.target.value(expr))

    def num(self, v, expr, sys):
        if isinstance(v, bool) or v is None or (isinstance(v, str) and not re.match(r'[-+.0-9]', v)):
            return v
        if isinstance(v, str):
            x, _, u = v.partition(' ')
            return self.emit(float(x) * factor(u), expr) if u else v
        return self.emit(v * sys.value(expr), expr)

    def act(self, v, sys):
        if isinstance(v, str):
            x, _, u = v.partition(' ')
            return self.emit(float(x) * act_factor(u), None, True)
        return self.emit(v * sys.act(), None, True)

    def table(self, d, tab, sys):
        d, sys = self.enter(d, sys)
        for k, e in tab.items():
            if k in d:
                v = d[k]
                if isinstance(v, list):
                    d[k] = [self.num(x, e[i] if isinstance(e, list) else e, sys) for i, x in enumerate(v)]
                elif isinstance(e, str):
                    d[k] = self.num(v, e, sys)
                else:
                    d[k] = self.num(v, e[0], sys)
        return d

    @staticmethod
    def enter(d, sys):
        d = dict(d)
        u = d.pop('units', None)
        return d, (System(u, sys) if u else sys)

    def eos(self, d, sys):
        d, sys = self.enter(d, sys)
        m = d.get('model')
        if m == 'HKFT':
            return self.table(d, HKFT, sys)
        if m in ('Peng-Robinson', 'Redlich-Kwong'):
            ab = RK if m == 'Redlich-Kwong' else 'Pa*m^6/kmol^2'
            d = self.table(d, {'a': ab, 'b': 'm^3/kmol'}, sys)
            if 'binary-a' in d:
                b, s2 = self.enter(d['binary-a'], sys)
                d['binary-a'] = {k: ([self.num(x, ab[i] if isinstance(ab, list) else ab, s2) for i, x in enumerate(v)] if isinstance(v, list)
                                     else self.num(v, ab[0] if isinstance(ab, list) else ab, s2)) for k, v in b.items()}
            return d
        if m in ('density-temperature-polynomial', 'molar-volume-temperature-polynomial'):
            e = 'kg/m^3' if m[0] == 'd' else 'm^3/kmol'
            d['data'] = [self.num(x, e + (f'/K^{i}' if i else ''), sys) for i, x in enumerate(d['data'])]
            return d
        return self.table(d, EOS, sys)

    def species(self, d, sys):
        d, sys = self.enter(d, sys)
        if 'thermo' in d:
            t, s2 = self.enter(d['thermo'], sys)
            t = self.table(t, {'reference-pressure': 'Pa', 'h0': 'J/kmol', 's0': 'J/kmol/K', 'cp0': 'J/kmol/K', 'T0': 'K'}, s2)
            if t.get('model') == 'piecewise-Gibbs' and not t.get('dimensionless'):
                b, s3 = self.enter(t['data'], s2)
                t['data'] = {k: self.num(v, 'J/kmol', s3) for k, v in b.items()}
            d['thermo'] = t
        if 'equation-of-state' in d:
            e = d['equation-of-state']
            d['equation-of-state'] = [self.eos(x, sys) for x in e] if isinstance(e, list) else self.eos(e, sys)
        if 'critical-parameters' in d:
            d['critical-parameters'] = self.table(d['critical-parameters'], {'critical-pressure': 'Pa', 'critical-temperature': 'K'}, sys)
        if 'Debye-Huckel' in d:
            d['Debye-Huckel'] = self.table(d['Debye-Huckel'], {'ionic-radius': 'm'}, sys)
        if 'coverage-dependencies' in d:
            d['coverage-dependencies'] = {k: self.table(v, COV, sys) for k, v in d['coverage-dependencies'].items()}
        return d

    def phase(self, d, sys):
        d, sys = self.enter(d, sys)
        sd = {'edge': 'kmol/m', 'lattice': 'kmol/m^3'}.get(d.get('thermo'), 'kmol/m^2')
        d = self.table(d, {'site-density': sd, 'density': 'kg/m^3'}, sys)
        if 'state' in d:
            d['state'] = self.table(d['state'], STATE, sys)
        if 'activity-data' in d:
            d['activity-data'] = self.table(d['activity-data'], {'A_Debye': 'kg^0.5/gmol^0.5', 'B_Debye': 'kg^0.5/gmol^0.5/m', 'default-ionic-radius': 'm'}, sys)
        if d.get('thermo') in ('Margules', 'Redlich-Kister'):
            d['interactions'] = [self.table(x, {'excess-enthalpy': 'J/kmol', 'excess-entropy': 'J/kmol/K', 'excess-volume-enthalpy': 'm^3/kmol', 'excess-volume-entropy': 'm^3/kmol/K'}, sys)
                                 for x in d.get('interactions', [])]
        if 'tabulated-thermo' in d:
            d['tabulated-thermo'] = self.table(d['tabulated-thermo'], {'enthalpy': 'J/kmol', 'entropy': 'J/kmol/K', 'molar-volume': 'm^3/kmol'}, sys)
        if 'electron-energy-distribution' in d:
            d['electron-energy-distribution'] = self.table(d['electron-energy-distribution'], {'mean-electron-energy': 'eV'}, sys)
        return d

    def element(self, d, sys):
        return self.table(d, {'entropy298': 'J/kmol/K'}, sys)

    def of(self, n):
        return self.cdim[n] if n in self.cdim else self.cdim[n.lower()]

    # -- reactions
    def aunits(self, r, extra):
        lhs = re.split(r'<=>|=>|=', r['equation'])[0]
        orders = dict(r.get('orders') or {})
        q = self.cdim[None]                       # (quantity, length) exponents of the rate
        Q, L = q
        for t in re.split(r'\s+\+\s+', re.sub(r'\(\+\s*[^)]*\)\s*$', '', re.sub(r'\(\+\s*\w+\)', '', lhs)).strip()):
            m = re.match(r'^\s*([0-9.]+)?\s+?(\S+)\s*$', ' ' + t) if re.match(r'^[0-9.]+\s', t) else None
            c, n = (float(m.group(1)), m.group(2)) if m else (1.0, t.strip())
            if n == 'M':
                extra += 1
                continue
            if n in orders:
                continue
            a, b = self.of(n)
            Q -= c * a
            L -= c * b
        for n, o in orders.items():
            a, b = self.of(n)
            Q -= o * a
            L -= o * b
        a, b = self.cdim[None]
        Q -= extra * a
        L -= extra * b
        e = [f'{u}^{x:g}' for u, x in (('kmol', Q), ('m', L)) if abs(x) > 1e-12]
        return '*'.join(e + ['s^-1'])

    def rate(self, d, A, sys, sticking=False):
        if isinstance(d, list):
            return [d[0] if sticking else self.num(d[0], A, sys)] + d[1:2] + [self.act(x, sys) for x in d[2:]]
        d, sys = self.enter(d, sys)
        for k in d:
            if k == 'A' and not sticking:
                d[k] = self.num(d[k], A, sys)
            elif k in ('Ea', 'Ea0', 'Ea-gas', 'Ea-electron', 'w'):
                d[k] = self.act(d[k], sys)
            elif k == 'P':
                d[k] = self.num(d[k], 'Pa', sys)
        return d

    def rates(self, d, r, sys, n=0):
        """All rate constants of a reaction or collider map."""
        ca = r.get('type') == 'chemically-activated' or d.get('type') == 'chemically-activated'
        A = lambda x: self.aunits(r, x + n)
        for k, x in (('rate-constant', 0), ('low-P-rate-constant', 0 if ca else 1), ('high-P-rate-constant', -1 if ca else 0)):
            if k in d:
                d[k] = self.rate(d[k], A(x), sys)
        if 'sticking-coefficient' in d:
            d['sticking-coefficient'] = self.rate(d['sticking-coefficient'], None, sys, True)
        if 'rate-constants' in d:
            d['rate-constants'] = [self.rate(x, A(0), sys) for x in d['rate-constants']]
        if 'data' in d and 'pressure-range' in d:
            d['pressure-range'] = [self.num(x, 'Pa', sys) for x in d['pressure-range']]
            d['temperature-range'] = [self.num(x, 'K', sys) for x in d['temperature-range']]
            rows = [list(x) for x in d['data']]
            a = A(0)
            rows[0][0] += math.log10(sys.value(a) / self.target.value(a))
            d['data'] = rows
        if 'coverage-dependencies' in d:
            cd, s2 = self.enter(d['coverage-dependencies'], sys)
            for k, v in cd.items():
                if isinstance(v, list):
                    cd[k] = v[:2] + [self.act(v[2], s2) if not isinstance(v[2], list) else [self.act(x, s2) for x in v[2]]]
                else:
                    v, s3 = self.enter(v, s2)
                    v['E'] = [self.act(x, s3) for x in v['E']] if isinstance(v['E'], list) else self.act(v['E'], s3)
                    cd[k] = v
            d['coverage-dependencies'] = cd
        return d

    def reaction(self, r, sys):
        try:
            return self.reaction_(r, sys)
        except KeyError:           # involves species that are not there: left out by the loader
            return self.enter(r, sys)[0]

    def reaction_(self, r, sys):
        r, sys = self.enter(r, sys)
        r = self.rates(r, r, sys)
        if 'colliders' in r:
            out = []
            for c in r['colliders']:
                c, s2 = self.enter(c, sys)
                if isinstance(c.get('efficiency'), (dict, list)):
                    c['efficiency'] = self.rate(c['efficiency'], '1', s2, True)
                out.append(self.rates(c, r, s2))
            r['colliders'] = out
        return r

    def section(self, items, fn, sys, target):
        items = list(items)
        if items and set(items[0]) == {'units'}:
            sys = System(items.pop(0)['units'], sys)
        return [fn(x, sys) for x in items]

    def doc(self, d):
        d = dict(d)
        sys = System(d.pop('units', None))
        top, sect, ent = {'top': (1, 0, 0), 'section': (0, 1, 0), 'entry': (0, 0, 1)}.get(self.mode, (1, 0, 0))
        u = dict(self.target.u)
        contrary = {'length': 'mm', 'mass': 'mg', 'time': 'hr', 'quantity': 'molec', 'pressure': 'atm', 'energy': 'erg', 'activation-energy': 'J/molec'}
        full = {**{'length': 'm', 'mass': 'kg', 'time': 's', 'quantity': 'kmol', 'pressure': 'Pa', 'energy': 'J'}, **u}
        full.setdefault('activation-energy', f"{full['energy']}/{full['quantity']}")
        out = {}
        out['units'] = u if top else contrary
        self.used = set()
        for p in d.get('phases', []):
            if p['name'] == self.name:
                r = p.get('reactions', 'reactions')
                r = 'reactions' if r in ('all', 'declared-species', 'none') else r
                for x in (r if isinstance(r, list) else [r]):
                    self.used |= set(x if isinstance(x, dict) else [x])
        for k, v in d.items():
            if not isinstance(v, list) or not v or not isinstance(v[0], dict):
                out[k] = v
                continue
            probe = v[1] if set(v[0]) == {'units'} and len(v) > 1 else v[0]
            fn = (self.reaction if 'equation' in probe else self.phase if 'thermo' in probe and isinstance(probe['thermo'], str) else
                  self.species if 'composition' in probe else self.element if 'symbol' in probe else None)
            if fn is None:
                out[k] = v
                continue
            self.cdim[None] = self.cdim[0] if fn != self.reaction or k in self.used else self.cdim[1]
            items = self.section(v, fn, sys, self.target)
            if sect:
                items = [{'units': full}] + items
            elif ent:
                items = [{**x, 'units': full} for x in items]
            out[k] = items
        return out


def load(file):
    for d in DIRS:
        if os.path.exists(d + file):
            break
    else:
        d = ''
    y = ruamel.yaml.YAML(typ='safe')
    y.allow_duplicate_keys = True
    text = re.sub(r'\n  species:(?=\n  species:)', '', open(d + file).read())
    return json.loads(json.dumps(y.load(text), default=str))


def concdims(k):
    out = {}
    for p in k:
        u = p.standard_concentration_units.dimensions
        for s in p.species_names:
            out[s] = (u['quantity'], u['length'])
    return out


SYS = [
    {},
    {'length': 'cm', 'mass': 'g', 'quantity': 'mol', 'energy': 'cal', 'pressure': 'bar', 'time': 'min'},
    {'length': 'mm', 'quantity': 'molec', 'energy': 'eV', 'pressure': 'atm', 'time': 'ms', 'activation-energy': 'K'},
    {'length': 'micron', 'mass': 'mg', 'quantity': 'kmol', 'energy': 'kJ', 'pressure': 'dyn/cm^2', 'activation-energy': 'eV'},
    {'quantity': 'molec'}, {'length': 'cm', 'energy': 'erg'}, {'activation-energy': 'kcal/mol', 'pressure': 'MPa'}, {'mass': 'g', 'time': 'hr'}, {'energy': 'MJ', 'quantity': 'mol'},
]
QUICK = [(1, 'top'), (2, 'top'), (3, 'section'), (2, 'entry'), (1, 'explicit'), (3, 'mixed0'), (0, 'explicit'), (6, 'top')]
FULL = [(s, m) for s in range(len(SYS)) for m in ('top', 'section', 'entry', 'explicit', 'mixed0', 'mixed1', 'mixed2')]


def build(doc, name, surf):
    text = json.dumps(doc)
    if surf:
        return ct.Interface(yaml=text, name=name)
    return ct.Solution(yaml=text, name=name, transport_model=None) if name else ct.Solution(yaml=text, transport_model=None)


def props(p, T, P, X, extra=()):
    p.TPX = T, P, X
    out = {}
    names = ['enthalpy_mole', 'entropy_mole', 'volume_mole', 'density_mass', 'P', 'chemical_potentials', 'standard_enthalpies_RT', 'standard_entropies_R', 'standard_cp_R', 'partial_molar_enthalpies',
             'partial_molar_entropies', 'partial_molar_volumes', 'activity_coefficients', 'activities', 'concentrations', 'site_density', 'mean_electron_energy', 'Te'] + list(extra)
    for n in names:
        try:
            out[n] = np.array(getattr(p, n), dtype=float)
        except (ct.CanteraError, ct.ThermoModelMethodError, NotImplementedError, AttributeError):
            continue
    return out


KN = ['forward_rate_constants', 'equilibrium_constants', 'forward_rates_of_progress', 'net_production_rates', 'delta_enthalpy']


def t_doc(ctx, task):
    kin = task['kind'] == 'kin'
    m = (kinpool.BY if kin else models.BY)[task['model']]
    try:
        base = m.make()
    except Exception as e:
        ctx.skip(f'load {m.name}')
        return
    doc = load(m.file)
    surf = isinstance(base, ct.Interface)
    Xs = kinpool.comps(m, base) if kin and hasattr(kinpool, 'comps') else models.comps(m, base)
    phases = [base]
    if surf:
        phases = kinpool.K('x', m.file, m.phase, m.T, m.P, m.X, surf=True).phases(base)
    cd = concdims(phases)
    cd.update({k.lower(): v for k, v in cd.items() if k.lower() not in cd})
    du = base.standard_concentration_units.dimensions
    cd[0], cd[1] = (du['quantity'], du['length']), (1., -3.)
    extra = KN if base.n_reactions else ()
    states = [(T, P, i) for T in m.T for P in m.P for i in range(len(Xs))]
    if task['tier'] != 'thorough':
        states = [states[0], states[-1]]

    def evaluate(p):
        if surf:
            ps = kinpool.K('x', m.file, m.phase, m.T, m.P, m.X, surf=True).phases(p)
        out = []
        for T, P, i in states:
            if surf:
                for q in ps[1:]:
                    q.TPX = T, P, np.arange(1, q.n_species + 1) / (q.n_species * (q.n_species + 1) / 2)
            out.append(props(p, T, P, Xs[i], extra))
        return out
    ref = evaluate(base)
    combos = FULL if task['tier'] == 'thorough' and not m.heavy else QUICK
    if m.heavy and task['tier'] != 'thorough':
        combos = QUICK[:4]
    for s, mode in combos:
        nth = int(mode[-1]) if mode.startswith('mixed') else 0
        md = 'mixed' if mode.startswith('mixed') else mode
        tr = Tr(System(SYS[s]), md, cd, nth)
        tr.name = m.phase or base.name
        key = f'{m.name}:{s}:{mode}'
        try:
            d = tr.doc(doc)
            p = build(d, m.phase or base.name, surf)
        except ct.CanteraError as e:
            ctx.violation(key + ':load', f'{key}: the document does not load in units {SYS[s]} ({mode}): {str(e)[:300]}')
            continue
        got = evaluate(p)
        ctx.state(key)
        for a, b in zip(ref, got):
            for n in a:
                if n not in b:
                    ctx.violation(key + ':' + n, f'{key}: {n} not available')
                    continue
                ctx.trans()
                sc = np.max(np.abs(a[n])) if n not in KN else 0
                tol = max(m.rtol, 1e-9) if not kin else 1e-8
                if n in ('equilibrium_constants', 'forward_rate_constants', 'forward_rates_of_progress'):
                    tol = 1e-7
                at = tol * sc if n not in KN else (tol * np.max(np.abs(a[n])) if n in ('net_production_rates', 'delta_enthalpy') else 0)
                x, y = np.atleast_1d(a[n]), np.atleast_1d(b[n])
                bad = ~((np.abs(x - y) <= tol * np.abs(x) + at) | (np.isnan(x) & np.isnan(y)) | (x == y))
                if bad.any():
                    i = int(np.argmax(bad))
                    what = base.reaction(i).equation if n in KN[:3] else ''
                    ctx.violation(f'{m.name}:{n}', f'{key}: {n}[{i}] {what} is {y[i]!r}, expected {x[i]!r} (units {SYS[s]})')
                    break
        ctx.ev(len(ref))
        if m.name in ('redlich-kwong-params', 'allrates') and s == 2:
            ctx.sample({'document': m.name, 'units': SYS[s], 'mode': mode, 'entry': json.dumps(d.get('rk-species', d.get('reactions'))[0])[:400]})


KM = ['allrates', 'h2o2', 'gri30', 'pdep', 'linearBurke', 'scratch', 'blowers-gas', 'orders', 'nonreactant', 'negative-order', 'sri', 'tsang', 'ET', 'rkgas', 'pt', 'pt-motzwise', 'scratch-surf',
      'blowers-surf', 'pt-sites', 'covdep', 'plasma']


def tasks(tier):
    alpha = sorted({c for u in BASE for c in u if c not in '1Å'} | set(PRE))
    out = [dict(kind='strings', first=c) for c in alpha]
    out += [dict(kind='pairs', part=i, of=4) for i in range(4)]
    out += [dict(kind='exprs', n=2, part=i, of=8) for i in range(8)]
    if tier == 'thorough':
        out += [dict(kind='exprs', n=3, part=i, of=90) for i in range(90)]
    out += [dict(kind='systems', part=i, of=8, tier=tier) for i in range(8)]
    out += [dict(kind='thermo', model=m.name, tier=tier) for m in models.POOL]
    out += [dict(kind='kin', model=k, tier=tier) for k in KM]
    return out


def run(task, ctx):
    {'strings': t_strings, 'pairs': t_pairs, 'exprs': t_exprs, 'systems': t_systems, 'thermo': t_doc, 'kin': t_doc}[task['kind']](ctx, task)
