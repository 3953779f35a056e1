"""C10: every rate parameterization evaluates its documented formula, from text and from objects."""
import itertools, math
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C10', 'exploration'
BUILD = ['py']
TECHNIQUE = 'exhaustive enumeration of a parameter lattice x a state lattice per rate type on the real code, against an independent implementation of the documented formula'
LEVEL_NOTE = 'Every parameter set and every state of the lattice is executed, including states exactly at, just inside and just outside table boundaries and every order of visiting two states; the continuous parameter space is covered on the lattice only.'
RULE = ('per rate type: every parameter set of the lattice (including zero/negative/degenerate parameters and repeated table pressures) x unit system of the input text x every state '
        '(T, P at/around table boundaries, composition incl. absent colliders); each value compared for the mechanism, the standalone object, the object rebuilt from its own parameters and '
        'a mechanism assembled from objects; non-trivial = finite non-zero rate')
ASSUMPTIONS = ['floating-point tolerance 1e-9 relative', 'the documentation pages under doc/sphinx/reference/kinetics define the formulas']
BOUNDS = {'quick': 'about 130 parameter sets, 2 unit systems, 20-60 states each', 'thorough': 'about 600 parameter sets, 3 unit systems, 60-200 states each'}

R = ct.gas_constant
ATM = 101325.0
SP = ['H2', 'H', 'O', 'O2', 'OH', 'H2O', 'HO2', 'H2O2', 'AR', 'N2']
# unit system: (header, length factor m->unit, quantity kmol->unit, energy J/kmol -> unit)
UNITS = {
    'si': ('{length: m, quantity: kmol, activation-energy: J/kmol}', 1.0, 1.0, 1.0),
    'cgs': ('{length: cm, quantity: mol, activation-energy: cal/mol}', 100.0, 1000.0, 1 / 4184.0),
    'molec': ('{length: cm, quantity: molec, activation-energy: K}', 100.0, 6.02214076e26, 1 / R),
}


def arr(a, T):
    A, b, E = a
    return A * T ** b * math.exp(-E / (R * T))


class U:
    def __init__(self, name):
        self.name = name
        self.head, self.l, self.q, self.e = UNITS[name]

    def A(self, A, order, dim=3):
        """SI rate constant (kmol, m^dim)^(1-order)/s written in these units."""
        c = self.l ** dim / self.q          # m^dim/kmol -> unit
        return A * c ** (order - 1)

    def arr(self, a, order, dim=3, extra=''):
        return f'{{A: {self.A(a[0], order, dim)!r}, b: {a[1]!r}, Ea: {a[2] * self.e!r}{extra}}}'


EQ = {1: ('H2O2 <=> 2 OH', {'H2O2': 1}), 2: ('O + H2 <=> H + OH', {'O': 1, 'H2': 1}), 3: ('2 H + O2 <=> H2 + O2', {'H': 2, 'O2': 1})}
FEQ = {1: ('H2O2 (+M) <=> 2 OH (+M)', {'H2O2': 1}), 2: ('H + O2 (+M) <=> HO2 (+M)', {'H': 1, 'O2': 1}), 3: ('2 H + O (+M) <=> H2O (+M)', {'H': 2, 'O': 1})}


# ---------------------------------------------------------------- reference formulas
def f_troe(p, T, pr):
    A, T3, T1 = p[:3]
    fc = (1 - A) * (math.exp(-T / T3) if T3 else 0.0) + A * (math.exp(-T / T1) if T1 else 0.0)
    if len(p) > 3:
        fc += math.exp(-p[3] / T)
    return troe_F(math.log10(max(fc, 1e-300)), pr)


def troe_F(lfc, pr):
    C = -0.4 - 0.67 * lfc
    N = 0.75 - 1.27 * lfc
    l = math.log10(max(pr, 1e-300))
    f1 = (l + C) / (N - 0.14 * (l + C))
    return 10 ** (lfc / (1 + f1 * f1))


def f_sri(p, T, pr):
    a, b, c = p[:3]
    d, e = p[3:] if len(p) > 3 else (1.0, 0.0)
    l = math.log10(max(pr, 1e-300))
    v = a * math.exp(-b / T) + (math.exp(-T / c) if c else 0.0)
    return d * v ** (1 / (1 + l * l)) * T ** e


def f_tsang(p, T, pr):
    A, B = p
    return troe_F(math.log10(max(A + B * T, 1e-300)), pr)


FF = {'Lindemann': lambda p, T, pr: 1.0, 'Troe': f_troe, 'SRI': f_sri, 'Tsang': f_tsang}


def falloff(kind, p, lo, hi, chem, T, M):
    k0, ki = arr(lo, T), arr(hi, T)
    pr = k0 * M / ki
    F = FF[kind](p, T, pr)
    return k0 / (1 + pr) * F if chem else ki * pr / (1 + pr) * F


def plog(tab, T, P):
    g = {}
    for p, a in tab:
        g.setdefault(p, []).append(a)
    ps = sorted(g)
    val = lambda p: sum(arr(a, T) for a in g[p])
    if P <= ps[0]:
        return val(ps[0])
    if P >= ps[-1]:
        return val(ps[-1])
    for p1, p2 in zip(ps, ps[1:]):
        if p1 <= P <= p2:
            l1, l2 = math.log(val(p1)), math.log(val(p2))
            return math.exp(l1 + (l2 - l1) * (math.log(P) - math.log(p1)) / (math.log(p2) - math.log(p1)))


def cheb(tr, pr, data, T, P):
    x = (2 / T - 1 / tr[0] - 1 / tr[1]) / (1 / tr[1] - 1 / tr[0])
    y = (2 * math.log10(P) - math.log10(pr[0]) - math.log10(pr[1])) / (math.log10(pr[1]) - math.log10(pr[0]))
    ph = lambda n, z: math.cos(n * math.acos(max(-1, min(1, z)))) if abs(z) <= 1 else np.polynomial.chebyshev.chebval(z, [0] * n + [1])
    return 10 ** sum(data[i][j] * ph(i, x) * ph(j, y) for i in range(len(data)) for j in range(len(data[0])))


def blowers(A, b, E0, w, dH, T):
    if dH <= -4 * E0:
        E = 0.0
    elif dH > 4 * E0:
        E = dH
    else:
        V = 2 * w * (w + E0) / (w - E0)
        E = (w + dH / 2) * (V - 2 * w + dH) ** 2 / (V ** 2 - 4 * w ** 2 + dH ** 2)
    return A * T ** b * math.exp(-E / (R * T))


# ---------------------------------------------------------------- parameter lattices (SI)
def p_arrhenius(th):
    A = [1e-3, 3.2e9, -4.0e6, 7.7e15] if th else [3.2e9, -4.0e6]
    b = [0.0, 2.7, -1.3, 1.0, 0.5] if th else [0.0, 2.7, -1.3]
    E = [0.0, 6.2e7, -8.1e6, 2.1e8] if th else [0.0, 6.2e7, -8.1e6]
    return list(itertools.product(A, b, E))


ARR = [(2.0e9, 0.0, 0.0), (3.1e12, -0.9, -7.1e6), (7.4e10, -0.37, 4.0e7), (5.5e3, 1.9, 1.2e8)]
FALL = {
    'Lindemann': [[]],
    'Troe': [[0.7346, 94., 1756.], [0.7346, 94., 1756., 5182.], [0.0, 120., 1500.], [1.0, 100., 900., 3000.], [0.5, 1e-30, 1e30], [0.6, 0.0, 1500.], [0.6, 120., 0.0], [1.6, 200., 1000., -300.], [0.42, 1e10, 1e10, 1e10]],
    'SRI': [[1.1, 700., 1234.], [1.1, 700., 1234., 56., 0.7], [0.5, 0.0, 900., 1.0, 0.0], [1.2, -200., 0.0], [0.54, 201., 1024., 1.0, -0.3], [0.9, 100., 500., 2.0, 0.0]],
    'Tsang': [[0.95, -1e-4], [0.4, 0.0], [0.2, 3e-4]],
}
P1, P2, P3, P4 = [x * ATM for x in (0.01, 1.0, 10, 100)]
PLOG = [
    [(P2, ARR[1])],
    [(P1, ARR[1]), (P3, ARR[2])],
    [(P3, ARR[2]), (P1, ARR[1])],
    [(P1, ARR[1]), (P2, ARR[2]), (P3, ARR[3]), (P4, ARR[1])],
    [(P1, ARR[1]), (P2, ARR[2]), (P2, ARR[3]), (P4, ARR[1])],
    [(P1, ARR[1]), (P1, ARR[2]), (P2, ARR[3]), (P4, ARR[1]), (P4, ARR[0]), (P4, ARR[2])],
    [(P2, ARR[1]), (P2, ARR[2])],
    [(P1, ARR[1]), (P2, ARR[1]), (P2, (-1e8, 0.0, 0.0)), (P2, (2e11, 0.0, 0.0)), (P4, ARR[3])],
    [(P4, ARR[1]), (P2, ARR[2]), (P3, ARR[0]), (P1, ARR[3]), (P3, ARR[3])],
]
CD = [[8.2883, -1.1397, -0.12059, 0.016034], [1.9764, 1.0037, 7.2865e-03, -0.030432], [0.3177, 0.26889, 0.094806, -7.6385e-03]]
CHEB = [((290., 3000.), (P1, P4), CD), ((500., 2000.), (P2, P3), [r[:1] for r in CD]), ((500., 2000.), (P2, P3), [CD[0]]), ((500., 2000.), (P2, P3), [[5.5]]),
        ((300., 2500.), (1e2, 1e8), [list(x) for x in zip(*CD)]), ((300., 2500.), (1e2, 1e8), [r[:2] for r in CD[:2]])]
BM = [(9.6e6, 2.0, 1.6e7, 1e9), (3.1e9, 0.0, 0.0, 1e9), (2.2e8, -0.5, 1.2e8, 7e8), (5e7, 1.0, 5.0e6, 1e9), (5e7, 1.0, -3.0e6, 1e9)]
TT = [(1.5e9, -1.0, 0.0, 0.0), (5.2e13, 0.5, -1.0e6, 5.2e6), (7e8, 0.0, 2.2e7, -3.3e6), (1.3e9, 1.5, 4.0e6, 0.0)]


def tstates(th):
    return [300., 500., 999.9, 1000., 1800., 2000., 2999.] if th else [500., 1000., 1800., 2000.]


def pstates(th):
    out = []
    for p in (P1, P2, P3, P4):
        out += [p, p * (1 - 1e-9), p * (1 + 1e-9)]
    out += [P1 / 50, 0.3 * ATM, 3.3 * ATM, 40 * ATM, P4 * 20]
    return out if th else [P1, P2, P3, P4, P2 * (1 - 1e-9), P2 * (1 + 1e-9), P1 / 50, 0.3 * ATM, 33 * ATM, P4 * 20]


COMPS = ['H2:2,H:0.1,O:0.05,O2:1,OH:0.1,H2O:0.3,HO2:0.05,H2O2:0.06,AR:1,N2:1', 'N2:1,AR:1e-3', 'AR:0.5,H2O2:0.2,H2O:0.3', 'H2O:1']


def gas_text(u, rx):
    return (f'units: {u.head}\nphases:\n- name: gas\n  thermo: ideal-gas\n  species:\n  - h2o2.yaml/species: [{", ".join(SP)}]\n'
            f'  kinetics: gas\n  reactions: all\n  state: {{T: 900, P: 1 atm}}\nreactions:\n' + '\n'.join(rx))


def eff_text(eff, default):
    s = ''
    if eff is not None:
        s += '\n  efficiencies: {' + ', '.join(f'{k}: {v!r}' for k, v in eff.items()) + '}'
    if default is not None:
        s += f'\n  default-efficiency: {default!r}'
    return s


EFFS = [(None, None), ({'H2': 2.0, 'H2O': 6.0, 'AR': 0.7}, None), ({'H2O': 3.65, 'N2': 0.0}, 0.5), ({'AR': 1.0}, 0.0)]


def Meff(C, eff, default):
    d = 1.0 if default is None else default
    return sum(C[i] * (eff or {}).get(s, d) for i, s in enumerate(SP))


def entries(kind, u, th):
    """list of (yaml text, object factory or None, reference f(T,P,C,X,gas) -> k, extra dict)."""
    out = []
    if kind == 'Arrhenius':
        for a, n in itertools.product(p_arrhenius(th), (1, 2, 3)):
            eq, _ = EQ[n]
            neg = '\n  negative-A: true' if a[0] < 0 else ''
            out.append((f'- equation: {eq}\n  duplicate: true\n  rate-constant: {u.arr(a, n)}{neg}',
                        lambda a=a: ct.ArrheniusRate(*a), lambda T, P, C, X, g, a=a: arr(a, T), dict(eq=eq)))
        for E, un in ((1.0, 'kcal/mol'), (5.0, 'kJ/mol'), (0.3, 'eV'), (1500., 'K')):
            f = {'kcal/mol': 4.184e6, 'kJ/mol': 1e6, 'eV': 1.602176634e-19 * 6.02214076e26, 'K': R}[un]
            eq, _ = EQ[2]
            out.append((f'- equation: {eq}\n  duplicate: true\n  rate-constant: {{A: 1.0e+13 cm^3/mol/s, b: 0.5, Ea: {E} {un}}}',
                        lambda E=E, f=f: ct.ArrheniusRate(1e10, 0.5, E * f), lambda T, P, C, X, g, E=E, f=f: arr((1e10, 0.5, E * f), T), dict(eq=eq)))
    elif kind == 'three-body':
        for a, (eff, d), n in itertools.product(ARR, EFFS, (1, 2)):
            eq = {1: 'H2O2 + M <=> 2 OH + M', 2: 'H + O2 + M <=> HO2 + M'}[n]
            out.append((f'- equation: {eq}\n  type: three-body\n  duplicate: true\n  rate-constant: {u.arr(a, n + 1)}{eff_text(eff, d)}',
                        lambda a=a: ct.ArrheniusRate(*a), lambda T, P, C, X, g, a=a: arr(a, T), dict(eq=eq, eff=eff, default=d, tb=True, n=n)))
        for col in ('AR', 'H2O', 'N2'):
            eq = f'H + O2 + {col} <=> HO2 + {col}'
            out.append((f'- equation: {eq}\n  duplicate: true\n  rate-constant: {u.arr(ARR[1], 3)}',
                        lambda: ct.ArrheniusRate(*ARR[1]), lambda T, P, C, X, g: arr(ARR[1], T), dict(eq=eq, eff={col: 1.0}, default=0.0, tb=True, n=2)))
    elif kind in ('falloff', 'chemically-activated'):
        chem = kind != 'falloff'
        for form in FALL:
            for p in FALL[form]:
                for (lo, hi), (eff, d), n in itertools.product(((ARR[1], ARR[2]), (ARR[0], ARR[3])) if th else ((ARR[1], ARR[2]),), EFFS if th else EFFS[1:3], (1, 2, 3) if th else (1, 2)):
                    eq, _ = FEQ[n]
                    names = {'Troe': ['A', 'T3', 'T1', 'T2'], 'SRI': ['A', 'B', 'C', 'D', 'E'], 'Tsang': ['A', 'B'], 'Lindemann': []}[form]
                    t = f'\n  {form}: {{' + ', '.join(f'{k}: {v!r}' for k, v in zip(names, p)) + '}' if p else ''
                    nl, nh = (n, n - 1) if chem else (n + 1, n)
                    cls = {'Lindemann': ct.LindemannRate, 'Troe': ct.TroeRate, 'SRI': ct.SriRate, 'Tsang': ct.TsangRate}[form]

                    def mk(lo=lo, hi=hi, p=p, cls=cls, chem=chem):
                        r = cls(low=ct.Arrhenius(*lo), high=ct.Arrhenius(*hi), falloff_coeffs=p)
                        r.chemically_activated = chem
                        return r
                    ord_l, ord_h = (n + 1, n) if not chem else (n, n - 1)
                    out.append((f'- equation: {eq}\n  type: {kind}\n  duplicate: true\n  low-P-rate-constant: {u.arr(lo, ord_l)}\n  high-P-rate-constant: {u.arr(hi, ord_h)}{t}{eff_text(eff, d)}',
                                mk, lambda T, P, C, X, g, form=form, p=p, lo=lo, hi=hi, eff=eff, d=d: falloff(form, p, lo, hi, chem, T, Meff(C, eff, d)),
                                dict(eq=eq, eff=eff, default=d, k0=lo, two=lambda T, M, form=form, p=p, lo=lo, hi=hi: falloff(form, p, lo, hi, chem, T, M))))
    elif kind == 'plog':
        for tab, n in itertools.product(PLOG, (1, 2, 3) if th else (1, 2)):
            eq, _ = EQ[n]
            t = '\n'.join(f'  - {{P: {p!r} Pa, ' + u.arr(a, n)[1:] for p, a in tab)
            out.append((f'- equation: {eq}\n  type: pressure-dependent-Arrhenius\n  duplicate: true\n  rate-constants:\n{t}',
                        lambda tab=tab: ct.PlogRate([(p, ct.Arrhenius(*a)) for p, a in tab]), lambda T, P, C, X, g, tab=tab: plog(tab, T, P),
                        dict(eq=eq, twoP=lambda T, P, tab=tab: plog(tab, T, P))))
    elif kind == 'chebyshev':
        for (tr, pr, D), n in itertools.product(CHEB, (1, 2, 3) if th else (1, 2)):
            eq, _ = EQ[n]
            Du = [list(r) for r in D]
            Du[0][0] += math.log10(u.A(1.0, n))
            t = '\n'.join(f'  - {r!r}' for r in Du)
            out.append((f'- equation: {eq}\n  type: Chebyshev\n  duplicate: true\n  temperature-range: [{tr[0]}, {tr[1]}]\n  pressure-range: [{pr[0]!r} Pa, {pr[1] / ATM!r} atm]\n  data:\n{t}',
                        lambda tr=tr, pr=pr, D=D: ct.ChebyshevRate(tr, pr, D), lambda T, P, C, X, g, tr=tr, pr=pr, D=D: cheb(tr, pr, D, T, P),
                        dict(eq=eq, twoP=lambda T, P, tr=tr, pr=pr, D=D: cheb(tr, pr, D, T, P), rtol=1e-8)))
    elif kind == 'blowers':
        eqs = ['O + H2 <=> H + OH', 'H + OH <=> O + H2', 'H + O2 <=> O + OH', '2 OH <=> H2O + O', 'H2 + O2 <=> 2 OH', 'H + OH => H2O']
        for q, eq in itertools.product(BM, eqs if th else eqs[:5]):
            if eq == 'H + OH => H2O' and q[2] > 1e8:
                continue
            lhs, rhs = [parse_side(x) for x in eq.replace('=>', '<=>').replace('<<', '<').split('<=>')]
            n = sum(lhs.values())
            tx = u.arr(q[:3], n).replace('Ea:', 'Ea0:')[:-1] + f', w: {q[3] * u.e!r}}}'

            def ref(T, P, C, X, g, q=q, lhs=lhs, rhs=rhs):
                h = dict(zip(SP, g.partial_molar_enthalpies))
                return blowers(*q, sum(v * h[s] for s, v in rhs.items()) - sum(v * h[s] for s, v in lhs.items()), T)
            out.append((f'- equation: {eq}\n  type: Blowers-Masel\n  duplicate: true\n  rate-constant: {tx}',
                        lambda q=q: ct.BlowersMaselRate(*q), ref, dict(eq=eq, bm=q)))
    elif kind == 'two-temp':
        for q, n in itertools.product(TT, (1, 2, 3)):
            eq = EQ[n][0].replace('<=>', '=>')
            tx = u.arr(q[:3], n).replace('Ea:', 'Ea-gas:')[:-1] + f', Ea-electron: {q[3] * u.e!r}}}'
            out.append((f'- equation: {eq}\n  type: two-temperature-plasma\n  duplicate: true\n  rate-constant: {tx}',
                        lambda q=q: ct.TwoTempPlasmaRate(*q), lambda T, P, C, X, g, q=q: twotemp(q, T, T), dict(eq=eq, tt=q)))
    elif kind == 'linear-Burke':
        for cols in burke_sets(th):
            n = 2
            eq = 'H + O2 <=> HO2' if True else ''
            body = ''
            for c in cols:
                body += f'\n  - name: {c["name"]}'
                for key in ('efficiency', 'eig0'):
                    if key in c:
                        a = c[key]
                        body += f'\n    {key}: {{A: {a[0]!r}, b: {a[1]!r}, Ea: {a[2] * u.e!r}}}'
                k = c.get('k')
                if k:
                    if k[0] == 'plog':
                        body += '\n    type: pressure-dependent-Arrhenius\n    rate-constants:' + ''.join(f'\n    - {{P: {p!r} Pa, ' + u.arr(a, n)[1:] for p, a in k[1])
                    elif k[0] == 'troe':
                        body += f'\n    type: falloff\n    low-P-rate-constant: {u.arr(k[1], n + 1)}\n    high-P-rate-constant: {u.arr(k[2], n)}\n    Troe: {{' + ', '.join(f'{x}: {v!r}' for x, v in zip(['A', 'T3', 'T1', 'T2'], k[3])) + '}'
                    else:
                        D = [list(r) for r in k[3]]
                        D[0][0] += math.log10(u.A(1.0, n))
                        body += f'\n    type: Chebyshev\n    temperature-range: [{k[1][0]}, {k[1][1]}]\n    pressure-range: [{k[2][0]!r} Pa, {k[2][1]!r} Pa]\n    data:' + ''.join(f'\n    - {r!r}' for r in D)
            out.append((f'- equation: {eq}\n  type: linear-Burke\n  duplicate: true\n  colliders:{body}', None,
                        lambda T, P, C, X, g, cols=cols: burke(cols, T, P, X), dict(eq=eq, rtol=1e-8)))
    return out


def burke_sets(th):
    kM = {'plog': ('plog', PLOG[3]), 'plog2': ('plog', PLOG[4]), 'troe': ('troe', ARR[1], ARR[2], [0.5, 1e-30, 1e30]), 'troe4': ('troe', ARR[0], ARR[2], [0.73, 94., 1756., 5182.]), 'cheb': ('cheb', (290., 3000.), (P1, P4), CD)}
    kinds = ['plog', 'troe4', 'cheb'] + (['plog2', 'troe'] if th else [])
    e = [(1.0, 0.0, 0.0), (10.0, 0.0, 0.0), (0.7, 0.4, 2.0e6), (3.3, -0.2, -1.5e6)]
    for m in kinds:
        yield [dict(name='M', k=kM[m])]
        yield [dict(name='M', k=kM[m]), dict(name='AR', efficiency=e[2])]
        yield [dict(name='M', k=kM[m], efficiency=e[0]), dict(name='H2O', efficiency=e[1]), dict(name='AR', efficiency=e[2])]
        for k2 in kinds:
            yield [dict(name='M', k=kM[m]), dict(name='H2O', efficiency=e[1], k=kM[k2])]
            yield [dict(name='M', k=kM[m], eig0=(2.0, 0.1, 3e6)), dict(name='H2O2', eig0=(30.0, -0.3, 1e6), k=kM[k2]), dict(name='AR', eig0=(1.0, 0.2, 2e6)), dict(name='H2O', eig0=(11.0, 0.0, 0.0), k=kM[m])]


def evk(k, T, P):
    if k[0] == 'plog':
        return plog(k[1], T, P)
    if k[0] == 'troe':
        return falloff('Troe', k[3], k[1], k[2], False, T, P / (R * T))
    return cheb(k[1], k[2], k[3], T, P)


def burke(cols, T, P, X):
    x = dict(zip(SP, X))
    M = cols[0]
    l0 = lambda c: arr(c['eig0'], T) if 'eig0' in c else arr(c.get('efficiency', (1.0, 0.0, 0.0)), T)
    rest = 1.0 - sum(x[c['name']] for c in cols[1:])
    eps = {c['name']: l0(c) / l0(M) for c in cols}
    tot = sum(eps[c['name']] * x[c['name']] for c in cols[1:]) + rest
    out, xm = 0.0, 1.0
    for c in cols[1:]:
        if 'k' in c:
            frac = eps[c['name']] * x[c['name']] / tot
            out += evk(c['k'], T, P * tot / eps[c['name']]) * frac
            xm -= frac
    return out + evk(M['k'], T, P * tot) * xm


def twotemp(q, T, Te):
    A, b, Eg, Ee = q
    return A * Te ** b * math.exp(-Eg / (R * T)) * math.exp(Ee * (Te - T) / (R * T * Te))


def parse_side(s):
    out = {}
    for t in s.split('+'):
        f = t.split()
        n, nm = (float(f[0]), f[1]) if len(f) == 2 else (1.0, f[0])
        out[nm] = out.get(nm, 0) + n
    return out


# ---------------------------------------------------------------- bulk tasks
def run_bulk(task, ctx):
    th = ctx.tier == 'thorough'
    kind, u = task['bulk'], U(task['u'])
    ent = entries(kind, u, th)
    text = gas_text(u, [e[0] for e in ent])
    gas = ct.Solution(yaml=text, transport_model=None)
    if not ctx.check(f'{kind}:count', gas.n_reactions == len(ent), f'{gas.n_reactions} reactions read, {len(ent)} written'):
        return
    kf = lambda g: g.forward_rate_constants
    # mechanisms assembled from objects
    objs, idx = [], []
    for i, e in enumerate(ent):
        if e[1] is None:
            continue
        r0 = gas.reaction(i)
        tb = None
        if r0.third_body is not None:
            tb = ct.ThirdBody(r0.third_body.name if e[3].get('tb') and e[3]['eff'] is not None and e[3]['default'] == 0.0 and len(e[3]['eff']) == 1 and ' M ' not in e[3]['eq'] + ' ' else 'M')
            if tb.name == 'M':
                if e[3].get('eff') is not None:
                    tb.efficiencies = e[3]['eff']
                if e[3].get('default') is not None:
                    tb.default_efficiency = e[3]['default']
        if kind in ('three-body', 'falloff', 'chemically-activated') and tb is None:
            ctx.violation(f'{kind}:thirdbody', f'no third body on {e[3]["eq"]}')
            continue
        rate = e[1]()
        if hasattr(rate, 'allow_negative_pre_exponential_factor'):
            rate.allow_negative_pre_exponential_factor = True
        r = ct.Reaction(equation=e[3]['eq'], rate=rate, third_body=tb) if tb is not None else ct.Reaction(equation=e[3]['eq'], rate=rate)
        r.duplicate = True
        objs.append(r)
        idx.append(i)
    g2 = ct.Solution(thermo='ideal-gas', kinetics='gas', species=gas.species(), reactions=objs) if objs else None
    # rebuilt from own serialized rate parameters
    re3 = []
    for i in range(gas.n_reactions):
        re3.append(ct.Reaction.from_dict(gas.reaction(i).input_data, gas))
    g3 = ct.Solution(thermo='ideal-gas', kinetics='gas', species=gas.species(), reactions=re3)
    states = []
    Ts, Ps = tstates(th), pstates(True)
    for c in COMPS:
        for T in Ts:
            for P in Ps:
                states.append((T, P, c))
    if kind == 'chebyshev':
        states += [(t, p, COMPS[0]) for t in (290., 300., 500., 2000., 2500., 3000., 1500.) for p in (1e2, 1e8, P1, P4, P2, P3)]
    if kind in ('Arrhenius', 'blowers', 'two-temp'):
        states = [s for s in states if s[1] in (P2, P3) and s[2] in COMPS[:2]]
    # visit order matters to caches: also revisit with only T, only P, only X changed
    order = states + [states[(i * 7) % len(states)] for i in range(len(states))]
    if not th and len(order) > 260:
        order = states + [states[(i * 7) % len(states)] for i in range(40)]
    Tprev = None
    for n, (T, P, c) in enumerate(order):
        gas.TPX = T, P, c
        C, X = gas.concentrations, gas.X
        got = kf(gas)
        ctx.ev(len(ent))
        ctx.trans()
        want = np.array([e[2](T, P, C, X, gas) for e in ent])
        # pr is bounded from below by a tiny number in the code: compare absolutely when the third body is absent
        rt = max(e[3].get('rtol', 1e-9) for e in ent)
        eps = np.array([max(abs(e[3]['two'](T, 1e-11 * C.sum())), 1e-11 * C.sum() * abs(arr(e[3]['k0'], T))) if 'two' in e[3] and kind == 'falloff' else 0.0 for e in ent])
        bad = np.abs(got - want) > rt * np.maximum(np.abs(want), np.abs(got)) + 1e-250 + eps
        bad |= ~np.isfinite(got) & np.isfinite(want)
        for i in np.flatnonzero(bad):
            ctx.violation(f'{kind}:{u.name}:formula', f'{ent[i][0]}\n at T={T} P={P} X={c}: rate constant {got[i]!r}, documented formula gives {want[i]!r}', dict(T=T, P=P, X=c, rxn=ent[i][0]))
        if kind in ('three-body', 'falloff', 'chemically-activated', 'Arrhenius'):
            rop = gas.forward_rates_of_progress
            for i, e in enumerate(ent):
                lhs = parse_side(e[3]['eq'].replace('(+M)', '').split('<=>')[0].replace('+ M', '').replace('+ AR', '').replace('+ H2O', '').replace('+ N2', '') if 'tb' in e[3] or '(+M)' in e[3]['eq'] else e[3]['eq'].split('<=>')[0])
                pc = math.prod(C[SP.index(s)] ** v for s, v in lhs.items())
                w = want[i] * pc
                w0 = eps[i] * pc * 1e12 + (want[i] * pc * C.sum() if e[3].get('tb') else 0.0)
                if e[3].get('tb'):
                    w *= Meff(C, e[3]['eff'], e[3]['default'])
                ctx.close(f'{kind}:{u.name}:rop', rop[i], w, rtol=2e-9, atol=1e-250 + 1e-12 * abs(w0), msg=f'{e[0]} rate of progress at T={T} P={P} X={c}')
        if n % (1 if th else 3) == 0:
            if g2 is not None:
                g2.TPX = T, P, c
                ctx.close(f'{kind}:{u.name}:objects', kf(g2), got[idx], rtol=max(rt, 1e-9), atol=1e-250 + eps[idx], msg=f'mechanism from objects vs text at {T},{P},{c}')
            g3.TPX = T, P, c
            ctx.close(f'{kind}:{u.name}:rebuilt', kf(g3), got, rtol=max(rt, 1e-9), atol=1e-250 + eps, msg=f'rebuilt from own parameters at {T},{P},{c}')
        ctx.outcome((kind, u.name, T, P, c))
    # standalone objects
    seen = set()
    for i, e in enumerate(ent):
        if e[1] is None:
            continue
        for src, rate in (('object', e[1]()), ('mechanism', gas.reaction(i).rate), ('dict', ct.ReactionRate.from_dict(e[1]().input_data))):
            if src == 'dict' and repr(e[1]().input_data) in seen:
                continue
            seen.add(repr(e[1]().input_data) if src == 'dict' else None)
            for T in Ts:
                ctx.ev()
                if 'two' in e[3]:
                    for M in (0.0, 1e-12, 1e-5, 0.01, 1.0, 50.0):
                        ctx.close(f'{kind}:call:{src}', rate(T, M), e[3]['two'](T, M), rtol=1e-9, atol=1e-250, msg=f'{e[0]} rate({T}, {M})')
                elif 'twoP' in e[3]:
                    for P in Ps:
                        ctx.close(f'{kind}:call:{src}', rate(T, P), e[3]['twoP'](T, P), rtol=1e-8, msg=f'{e[0]} rate({T}, {P})')
                elif 'tt' in e[3]:
                    for Te in (T, 2 * T, 11600., 0.5 * T):
                        ctx.close(f'{kind}:call:{src}', rate(T, Te), twotemp(e[3]['tt'], T, Te), rtol=1e-9, msg=f'{e[0]} rate({T}, {Te})')
                elif 'bm' in e[3]:
                    q = e[3]['bm']
                    for dH in (0.0, -4 * q[2], 4.001 * q[2], -4.001 * q[2], 3.999 * q[2], 5 * q[2] + 1e6, -2e8, 3e8, 1e7, -1e7):
                        rate.delta_enthalpy = dH
                        ctx.close(f'{kind}:call:{src}', rate(T), blowers(*q, dH, T), rtol=1e-9, msg=f'{e[0]} dH={dH} rate({T})')
                        if q[2] >= 0:
                            ctx.close(f'{kind}:Ea:{src}', math.exp(-rate.activation_energy / (R * T)), math.exp(math.log(blowers(1.0, 0.0, q[2], q[3], dH, T))), rtol=1e-8, msg=f'{e[0]} activation energy at dH={dH}')
                else:
                    ctx.close(f'{kind}:call:{src}', rate(T), e[2](T, P2, None, None, None), rtol=1e-9, msg=f'{e[0]} rate({T})')
    ctx.sample(dict(kind=kind, example=ent[0][0]))


# ---------------------------------------------------------------- plasma
def run_plasma(task, ctx):
    th = ctx.tier == 'thorough'
    ph = ct.Solution('oxygen-plasma.yaml', 'isotropic-electron-energy-plasma', transport_model=None)
    rx, refs = [], []
    e = ct.Species
    for q in TT:
        for eq in ('E + O2 => E + O2', 'O2- + O2 => E + 2 O2'):
            r = ct.Reaction(equation=eq, rate=ct.TwoTempPlasmaRate(*q))
            r.duplicate = True
            rx.append(r)
            refs.append(lambda T, g, q=q: twotemp(q, T, g.Te))
    grids = [([0.0, 1.0, 5.0, 40.0], [0.0, 2e-20, 1e-20, 4e-20]), ([1.0, 3.0], [5e-21, 5e-21]), ([0.5, 0.6, 2.0, 9.0, 100.0], [0.0, 1e-20, 0.0, 3e-20, 1e-21])]
    for lv, cs in grids:
        r = ct.Reaction(equation='E + O2 => E + E + O2' if False else 'E + O2 => O2-', rate=ct.ElectronCollisionPlasmaRate(energy_levels=lv, cross_sections=cs))
        r.duplicate = True
        rx.append(r)

        def ref(T, g, lv=lv, cs=cs):
            x = g.electron_energy_levels
            f = g.electron_energy_distribution * np.interp(x, lv, cs)
            return 0.5 * math.sqrt(2 * ct.electron_charge / 9.1093837015e-31) * ct.avogadro * simpson(f, x ** 2)
        refs.append(ref)
    g = ct.Solution(thermo='plasma', kinetics='gas', species=ph.species(), reactions=rx) if False else None
    import io
    ph2 = ct.Solution('oxygen-plasma.yaml', 'isotropic-electron-energy-plasma', transport_model=None)
    n0 = ph2.n_reactions
    for r in rx:
        ph2.add_reaction(r)
    names = ['isotropic', 'discretized']
    k = 0
    for T, Te, P, m, shape in itertools.product([300., 900.], [5000., 11600., 50000.], [1e4, ATM], range(3), [1.0, 2.0]):
        ph2.TPX = T, P, 'O2:1,O2-:1e-3,E:1e-3'
        levels = [np.linspace(0, 50, 101), np.linspace(0.1, 20, 40), np.geomspace(1e-3, 90, 61)][m]
        ph2.electron_energy_distribution_type = 'isotropic'
        ph2.electron_energy_levels = levels
        ph2.Te = Te
        ph2.isotropic_shape_factor = shape
        got = ph2.forward_rate_constants[n0:]
        ctx.ev(len(refs))
        ctx.trans(4)
        ctx.outcome((T, Te, P, m, shape))
        for i, f in enumerate(refs):
            w = f(T, ph2)
            ctx.close(f'plasma:{rx[i].rate.type}', got[i], w, rtol=1e-8, atol=1e-200, msg=f'{rx[i].equation} {rx[i].rate.input_data} at T={T} Te={Te} grid {m} shape {shape}')


def simpson(f, x):
    """composite Simpson's rule on a nonuniform grid; a left-over last interval uses the trapezoidal rule."""
    n = len(x) - 1
    h = np.diff(x)
    tot = 0.0
    for i in range(1, n, 2):
        h0, h1 = h[i - 1], h[i]
        tot += (h0 + h1) / 6 * ((2 - h1 / h0) * f[i - 1] + (h0 + h1) ** 2 / (h0 * h1) * f[i] + (2 - h0 / h1) * f[i + 1])
    if n % 2 == 1:
        tot += 0.5 * h[-1] * (f[-1] + f[-2])
    return tot


# ---------------------------------------------------------------- interface
SURF = """units: {units}
phases:
- name: gas
  thermo: ideal-gas
  species:
  - gri30.yaml/species: [H2, H, O, O2, OH, H2O, AR, CO]
  state: {{T: 900, P: 1 atm}}
- name: surf
  thermo: ideal-surface
  species: [Pt, Hs, Os, B2, Q]
  site-density: {sd} mol/cm^2
  kinetics: surface
  adjacent-phases: [gas, metal]
  {mw}
  reactions: all
  state: {{T: 900, coverages: {{Pt: 0.4, Hs: 0.3, Os: 0.1, B2: 0.15, Q: 0.05}}}}
- name: metal
  thermo: electron-cloud
  density: 9.0 kg/m^3
  species: [e-]
species:
- {{name: Pt, composition: {{Pt: 1}}, thermo: {{model: constant-cp, h0: 0.0}}}}
- {{name: Hs, composition: {{Pt: 1, H: 1}}, thermo: {{model: constant-cp, h0: -3.0e+04 kJ/kmol, s0: 30 J/mol/K}}}}
- {{name: Os, composition: {{Pt: 1, O: 1}}, thermo: {{model: constant-cp, h0: -9.0e+04 kJ/kmol, s0: 20 J/mol/K}}}}
- {{name: B2, composition: {{Pt: 2, H: 2}}, sites: 2, thermo: {{model: constant-cp, h0: -5.0e+04 kJ/kmol, s0: 33 J/mol/K}}}}
- {{name: Q, composition: {{Pt: 1, E: 1}}, thermo: {{model: constant-cp, h0: -2.0e+04 kJ/kmol, s0: 12 J/mol/K}}}}
- {{name: e-, composition: {{E: 1}}, thermo: {{model: constant-cp, h0: 0.0}}}}
reactions:
"""
SSP = ['Pt', 'Hs', 'Os', 'B2', 'Q']
SIZE = [1, 1, 1, 2, 1]
COVDEP = [
    {}, {'Hs': (0.3, 0.0, -2e7)}, {'Os': (0.0, 1.0, 0.0), 'Hs': (-1.2, -0.5, 1e7)}, {'Pt': (0.0, 2.0, 0.0), 'Os': (0.5, 0.0, 3e6), 'B2': (0.1, 0.3, -4e6)},
    {'Hs': (0.0, 0.0, [1e7, -2e7, 3e6, 5e6])}, {'Os': (0.2, 0.5, [3e7])}, {'Hs': (0.0, -1.0, [1e7, 2e7]), 'Os': (0.1, 0.0, -5e6)}, {'Pt': (0.0, 0.0, [1e6, 0.0, 3e6])}]


def covfac(cd, th, T):
    f = 1.0
    for s, (a, m, E) in cd.items():
        t = th[SSP.index(s)]
        e = E * t if not isinstance(E, list) else sum(c * t ** (i + 1) for i, c in enumerate(E))
        f *= 10 ** (a * t) * max(t, 1e-20) ** m * math.exp(-e / (R * T))
    return f


def cov_text(cd, u, form):
    if not cd:
        return ''
    def E(e):
        return repr([x * u.e for x in e]) if isinstance(e, list) else repr(e * u.e)
    if form == 0:
        return '\n  coverage-dependencies: {' + ', '.join(f'{s}: {{a: {a!r}, m: {m!r}, E: {E(e)}}}' for s, (a, m, e) in cd.items()) + '}'
    return '\n  coverage-dependencies: {' + ', '.join(f'{s}: [{a!r}, {m!r}, {E(e)}]' for s, (a, m, e) in cd.items()) + '}'


def run_surf(task, ctx):
    th = ctx.tier == 'thorough'
    u = U(task['u'])
    sd, mw = task['sd'], task['mw']
    G = sd * 10.0   # mol/cm2 -> kmol/m2
    ent = []
    W = dict(zip(['H2', 'H', 'O', 'O2', 'OH', 'H2O', 'AR', 'CO'], [2.016, 1.008, 15.999, 31.998, 17.007, 18.015, 39.95, 28.01]))

    def add(text, ref, obj=None, eq=None):
        ent.append((text, ref, obj, eq))
    for cd, form, (a, eq) in itertools.product(COVDEP, (0, 1), [((3.7e20, 0.0, 6.74e7), '2 Hs => H2 + 2 Pt'), ((1e13, 0.5, 1e7), 'Os => O + Pt'), ((5e12, 0.0, 0.0), 'B2 <=> H2 + 2 Pt')]):
        n = 2 if eq.startswith('2') else 1
        add(f'- equation: {eq}\n  duplicate: true\n  rate-constant: {u.arr(a, n, 2)}{cov_text(cd, u, form)}', lambda T, t, g, s, a=a, cd=cd: arr(a, T) * covfac(cd, t, T),
            lambda a=a, cd=cd: (ct.InterfaceArrheniusRate(*a), cd), eq)
    # sticking
    for cd, (a, eq, spec, n, sz), mz in itertools.product(COVDEP if th else COVDEP[:5], [((0.7, 0.0, 0.0), 'H2 + 2 Pt <=> 2 Hs', 'H2', 2, 1), ((0.02, 0.5, 4e6), 'O2 + 2 Pt => 2 Os', 'O2', 2, 1), ((1.0, 0.0, 0.0), 'H + Pt => Hs', 'H', 1, 1), ((0.1, 0.0, 1e6), 'H2 + B2 => B2 + H2', 'H2', 1, 2), ((0.9, 0.0, 0.0), 'CO + 0 Pt => CO' if False else 'OH + Hs => H2O + Pt', 'OH', 1, 1)], (None, True, False)):
        def ref(T, t, g, s, a=a, cd=cd, spec=spec, n=n, sz=sz, mz=mz):
            gam = arr(a, T) * covfac(cd, t, T)
            use = mz if mz is not None else (mw == 'Motz-Wise: true')
            if use:
                gam = gam / (1 - gam / 2)
            w = g.molecular_weights[g.species_index(spec)]
            return gam * math.sqrt(R * T / (2 * math.pi * w)) * sz ** n / G ** n
        mzt = '' if mz is None else f'\n  Motz-Wise: {str(mz).lower()}'
        add(f'- equation: {eq}\n  duplicate: true\n  sticking-coefficient: {{A: {a[0]!r}, b: {a[1]!r}, Ea: {a[2] * u.e!r}}}{mzt}{cov_text(cd, u, 0)}', ref,
            lambda a=a, cd=cd, mz=mz: (ct.StickingArrheniusRate(*a), cd, mz), eq)
    # non-integer forward order on a surface reactant
    for o in (1.5, 0.5):
        def ref(T, t, g, s, o=o):
            w = g.molecular_weights[g.species_index('O2')]
            gam = 0.3
            if mw == 'Motz-Wise: true':
                gam /= 1 - gam / 2
            return gam * math.sqrt(R * T / (2 * math.pi * w)) / G ** o
        add(f'- equation: O2 + 2 Pt => 2 Os\n  duplicate: true\n  orders: {{Pt: {o}}}\n  sticking-coefficient: {{A: 0.3, b: 0.0, Ea: 0.0}}', ref)
    # Blowers-Masel surface/sticking
    for q, cd in itertools.product(BM[:4], COVDEP[:4]):
        def dH(g, s, eq):
            h = dict(zip(g.species_names, g.partial_molar_enthalpies))
            h.update(zip(SSP, s.partial_molar_enthalpies))
            l, r = eq.replace('<=>', '=>').split('=>')
            return sum(v * h[x] for x, v in parse_side(r).items()) - sum(v * h[x] for x, v in parse_side(l).items())
        eq = 'Hs + Os <=> OH + 2 Pt'
        add(f'- equation: {eq}\n  type: interface-Blowers-Masel\n  duplicate: true\n  rate-constant: ' + u.arr(q[:3], 2, 2).replace('Ea:', 'Ea0:')[:-1] + f', w: {q[3] * u.e!r}}}' + cov_text(cd, u, 0),
            lambda T, t, g, s, q=q, cd=cd, eq=eq: blowers(*q, dH(g, s, eq), T) * covfac(cd, t, T))
        eq2 = 'H2 + 2 Pt <=> 2 Hs'
        q2 = (0.3, 0.0, min(q[2], 1e7), q[3])

        def ref(T, t, g, s, q2=q2, cd=cd, eq2=eq2):
            gam = blowers(*q2, dH(g, s, eq2), T) * covfac(cd, t, T)
            if mw == 'Motz-Wise: true':
                gam /= 1 - gam / 2
            return gam * math.sqrt(R * T / (2 * math.pi * g.molecular_weights[g.species_index('H2')])) / G ** 2
        add(f'- equation: {eq2}\n  type: sticking-Blowers-Masel\n  duplicate: true\n  sticking-coefficient: {{A: {q2[0]}, b: {q2[1]}, Ea0: {q2[2] * u.e!r}, w: {q2[3] * u.e!r}}}' + cov_text(cd, u, 0), ref)
    # charge transfer
    for beta, exch, cd, (eq, nr, dz, sgn) in itertools.product((None, 0.0, 0.3, 1.0), (False, True), COVDEP[:3], [('Pt + e- => Q', 2, None, 1), ('Q => Pt + e-', 1, None, -1), ('Q + Hs <=> H + 2 Pt + e-', 2, None, -1)]):
        a = (2.2e7, 0.0, 3e7)
        def ref(T, t, g, s, beta=beta, exch=exch, cd=cd, eq=eq, a=a):
            b = 0.5 if beta is None else beta
            l, r = eq.replace('<=>', '=>').split('=>')
            l, r = parse_side(l), parse_side(r)
            m = s.adjacent['metal']
            phi = {**{x: s.electric_potential for x in SSP}, **{x: g.electric_potential for x in g.species_names}, 'e-': m.electric_potential}
            z = {**{x: 0 for x in SSP}, **{x: 0 for x in g.species_names}, 'e-': -1, 'Q': -1}
            dphi = sum(v * z[x] * phi[x] for x, v in r.items()) - sum(v * z[x] * phi[x] for x, v in l.items())
            k = arr(a, T) * covfac(cd, t, T) * math.exp(-b * dphi * ct.faraday / (R * T))
            if exch:
                mu = {**dict(zip(SSP, s.standard_gibbs_RT)), **dict(zip(g.species_names, g.standard_gibbs_RT)), 'e-': 0.0}
                c0 = {**{x: G / SIZE[i] for i, x in enumerate(SSP)}, **{x: g.P / (R * T) for x in g.species_names}, 'e-': 1.0}
                dG = sum(v * mu[x] for x, v in r.items()) - sum(v * mu[x] for x, v in l.items())
                k *= math.exp(-b * dG)
                for x in r:
                    k /= c0[x] ** 1
                k /= ct.faraday
            return k
        bt = '' if beta is None else f'\n  beta: {beta}'
        et = '\n  exchange-current-density-formulation: true' if exch else ''
        A_si = a[0]
        # exchange-current: A has units of current density; here only SI text is meaningful
        if exch and u.name != 'si':
            continue
        add(f'- equation: {eq}\n  duplicate: true\n  rate-constant: {u.arr(a, nr, 2) if not (u.name != "si" and "e-" in eq.split("=>")[0]) else None}{bt}{et}{cov_text(cd, u, 0)}', ref)
    ent = [e for e in ent if 'rate-constant: None' not in e[0]]
    text = SURF.format(units=u.head, sd=repr(sd), mw=mw) + '\n'.join(e[0] for e in ent)
    s = ct.Interface(yaml=text, name='surf')
    g, m = s.adjacent['gas'], s.adjacent['metal']
    if not ctx.check('surf:count', s.n_reactions == len(ent), f'{s.n_reactions} vs {len(ent)}'):
        return
    re3 = [ct.Reaction.from_dict(s.reaction(i).input_data, s) for i in range(s.n_reactions)]
    covs = [[0.4, 0.3, 0.1, 0.15, 0.05], [1, 0, 0, 0, 0], [0.05, 0.55, 0.3, 0.05, 0.05], [0.0, 0.5, 0.5, 0.0, 0.0]]
    Ts = [400., 900., 1500.] if th else [500., 900.]
    for T, P, cov, (pm, ps, pg) in itertools.product(Ts, [ATM, 3e5], covs, [(0, 0, 0), (0.3, 0, 0), (-0.2, 0.4, 0.1)]):
        g.TPX = T, P, 'H2:1,O2:1,AR:3,CO:0.3,H:0.01,OH:0.1,H2O:1,O:0.01'
        m.TP = T, P
        s.TP = T, P
        s.set_unnormalized_coverages(np.array(cov))
        t = s.coverages
        m.electric_potential, s.electric_potential, g.electric_potential = pm, ps, pg
        got = s.forward_rate_constants
        ctx.ev(len(ent))
        ctx.trans(5)
        ctx.outcome((u.name, sd, mw, T, P, tuple(cov), pm, ps))
        for i, e in enumerate(ent):
            w = e[1](T, t, g, s)
            if not (1e-250 < abs(w) < 1e250):
                ctx.skip('out of range of doubles')
                continue
            ctx.close(f'surf:{u.name}:{s.reaction(i).rate.type}', got[i], w, rtol=1e-8, msg=f'{e[0]}\n at T={T} P={P} cov={cov} phi={(pm, ps, pg)}')
    # standalone interface rates
    if u.name == 'si':
        for i, e in enumerate(ent):
            if e[2] is None:
                continue
            o = e[2]()
            rate, cd = o[0], o[1]
            if not isinstance(rate, ct.InterfaceArrheniusRate):
                continue
            rate.coverage_dependencies = {k: v if not isinstance(v[2], list) else v for k, v in cd.items()} if all(not isinstance(v[2], list) for v in cd.values()) else {}
            if any(isinstance(v[2], list) for v in cd.values()):
                continue
            rate.set_species(SSP)
            for T, cov in itertools.product(Ts, covs):
                ctx.ev()
                if cd and min(cov) == 0:
                    continue
                ctx.close('surf:object', rate(T, np.array(cov, dtype=float)), arr((rate.input_data['rate-constant']['A'], rate.input_data['rate-constant']['b'], rate.input_data['rate-constant']['Ea']), T) * covfac(cd, cov, T), rtol=1e-9, msg=f'{e[0]} standalone at {T} {cov}')
    # mechanism from the reactions' own data
    s2 = ct.Interface(yaml=text.split('reactions:\n- equation')[0].replace('reactions: all', 'reactions: none') + 'reactions: []\n', name='surf')
    for r in re3:
        s2.add_reaction(r)
    g2, m2 = s2.adjacent['gas'], s2.adjacent['metal']
    for T, cov in itertools.product(Ts, covs):
        for a, b, c in ((s, g, m), (s2, g2, m2)):
            b.TPX = T, ATM, 'H2:1,O2:1,AR:3,CO:0.3,H:0.01,OH:0.1,H2O:1,O:0.01'
            c.TP = T, ATM
            a.TP = T, ATM
            a.coverages = cov
            c.electric_potential, a.electric_potential, b.electric_potential = 0.1, 0.0, 0.0
        ctx.close(f'surf:{u.name}:rebuilt', s2.forward_rate_constants, s.forward_rate_constants, rtol=1e-9, atol=1e-250, msg=f'rebuilt reactions at {T},{cov}')


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for k in ('Arrhenius', 'three-body', 'falloff', 'chemically-activated', 'plog', 'chebyshev', 'blowers', 'two-temp', 'linear-Burke'):
        for u in ('si', 'cgs') + (('molec',) if th else ()):
            out.append(dict(bulk=k, u=u))
    for sd, mw in itertools.product((2.7063e-9, 1e-8) if th else (2.7063e-9,), ('', 'Motz-Wise: true', 'Motz-Wise: false') if th else ('', 'Motz-Wise: true')):
        for u in ('si', 'cgs'):
            out.append(dict(surf=1, u=u, sd=sd, mw=mw))
    out.append(dict(plasma=1))
    return out


def run(task, ctx):
    if 'bulk' in task:
        run_bulk(task, ctx)
    elif 'surf' in task:
        run_surf(task, ctx)
    else:
        run_plasma(task, ctx)
