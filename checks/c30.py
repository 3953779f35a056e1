"""C30: Chemkin-format mechanisms from a grammar are converted by ck2yaml; the result is compared with the Chemkin definitions."""
import contextlib, io, itertools, os, shutil, tempfile
import numpy as np
import warnings
import cantera as ct
from cantera import ck2yaml

PROPERTY, LEVEL = 'C30', 'exploration'
BUILD = ['py']
TECHNIQUE = 'exhaustive enumeration of a grammar of Chemkin mechanisms (equations, auxiliary lines, units, layouts, thermo and transport entries, single faults); each is converted, loaded and compared with an independent evaluation of the Chemkin definitions'
LEVEL_NOTE = 'Every word of the grammar inside the bounds is converted by the real ck2yaml and evaluated by the real library; the reference rates are computed here from the abstract mechanism the text was written from.'
RULE = ('A word is a reaction (kind x order x units x options) or an entry written in one of several layouts. The converted mechanism must have the species, stoichiometry, orders, reversibility and duplicate flags written, '
        'and forward rates of progress of the Chemkin formulas at 6 states. Faults (one per word) must be refused by the conversion or by loading the result.')
ASSUMPTIONS = ['the rate formulas of the Chemkin-II/III manuals', 'case-sensitive species names, as in ck2yaml documentation']
BOUNDS = {'quick': '10 rate kinds x 3 orders x 16 header units x 4-12 local units; all pairs of 9 species names; 5 spacings x 3 arrows x 4 coefficient forms; ~45 layouts; ~90 faults',
          'thorough': 'all local units for all headers, all pairs of names on both sides, every fault on every kind'}
warnings.simplefilter('ignore')
ct.suppress_thermo_warnings()
NA = ct.avogadro      # per kmol
R = ct.gas_constant
NAMES = {'H': 1, 'H2': 2, 'M1': 1, 'X(S)': 1, 'X': 1, 'X+': 1, 'N=N': 2, '1-B': 1, 'D*': 2, 'LOWMASS': 1}
SP = list(NAMES)
EN = {'CAL/MOLE': 4184., 'KCAL/MOLE': 4.184e6, 'JOULES/MOLE': 1e3, 'KJOULES/MOLE': 1e6, 'KELVINS': R, 'EVOLTS': ct.electron_charge * NA, 'CAL/MOL': 4184., 'KCAL/MOL': 4.184e6}
EN2 = {'KELVIN': R, 'KELV': R, 'JOULES/MOL': 1e3, 'KJOULES/MOL': 1e6, 'KCAL': 4.184e6, 'KJOU': 1e6, 'JOUL': 1e3, 'EVOL': ct.electron_charge * NA}
QT = {'MOLES': 1e-3, 'MOLECULES': 1e-6 * NA}
QT2 = {'MOL': 1e-3, 'MOLE': 1e-3, 'MOLEC': 1e-6 * NA}
ALLE, ALLQ = {**EN, **EN2}, {**QT, **QT2}
STATES = [(T, P) for T in (350., 1100., 2600.) for P in (2e4, 3e6)]
X0 = np.arange(1., len(SP) + 1)
X0 /= X0.sum()

LO = [2.5, 1e-3, -2e-7, 1e-11, 1e-15, -800., 2.]
HI = [2.6, 9e-4, -1e-7, 1e-11, -1e-15, -850., 1.5]


def coef(a):
    return f'{a:15.8E}'


def nasa7(name, comp, lo=LO, hi=HI, T=(200., 4000., 1000.), tint=None, cont='', mid='', end='1'):
    """one NASA7 entry: 4 lines"""
    h = f'{name:<18s}' + 'x 1/00' + ''.join(f'{e:<2s}{n:>3d}' for e, n in comp)
    h = f'{h:<44s}G{T[0]:10.3f}{T[1]:10.3f}' + (f'{T[2]:8.2f}' if tint is None else tint)
    h = f'{h:<73s}{mid}'
    h = f'{h:<79s}{end}{cont}'
    return [h, ''.join(map(coef, hi[:5])) + '    2', ''.join(map(coef, hi[5:] + lo[:3])) + '    3', f'{"".join(map(coef, lo[3:])):<79s}4']


THERMO = [l for n, c in NAMES.items() for l in nasa7(n, [('H', c)])]


def mech(reactions, header='REACTIONS', species=None, thermo=None, elements='H O C N AR'):
    return '\n'.join([f'ELEMENTS\n{elements}\nEND', 'SPECIES', ' '.join(species or SP), 'END', 'THERMO ALL', ' 300. 1000. 5000.', *(THERMO if thermo is None else thermo), 'END', header, *reactions, 'END']) + '\n'


class Refused(Exception):
    pass


def convert(text, permissive=None, surface=None, thermo=None, transport=None, **kw):
    d = tempfile.mkdtemp(prefix='c30')
    try:
        f = os.path.join(d, 'm.inp')
        names = {}
        for k, t in (('m', text), ('surf', surface), ('th', thermo), ('tr', transport)):
            if t is not None:
                names[k] = os.path.join(d, k + '.inp')
                with open(names[k], 'w') as s:
                    s.write(t)
        out = os.path.join(d, 'o.yaml')
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                ck2yaml.Parser.convert_mech(names['m'], out_name=out, quiet=True, permissive=permissive, surface_file=names.get('surf'), thermo_file=names.get('th'),
                                            transport_file=names.get('tr'), **kw)
        except SystemExit as e:
            raise Refused(f'exit {e}')
        except Exception as e:
            raise Refused(f'{type(e).__name__} {e}')
        return open(out).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def arr(A, b, E, T):
    """A and E in SI"""
    return A * T**b * np.exp(-E / R / T)


class Rx:
    """abstract reaction: what it means, and how to write it"""
    def __init__(self, kind, reac, prod, arrow='=', A=None, b=.5, Ea=3.1, low=None, extra=None, eff=None, units=(None, None), opts=(), third=None, orders=None, n=0):
        self.kind, self.reac, self.prod, self.arrow = kind, reac, prod, arrow
        self.units, self.opts, self.orders = units, opts, orders or {}
        self.eff = eff or {}
        self.third = third
        self.rate = (A if A is not None else float(f'{1.234567e5 * (1 + .01 * (n % 37)):.6E}'), b, Ea)
        self.low = low or (4.7654e9, -.5, 2.2)
        self.extra = extra

    def order(self):
        o = {s: c for s, c in combine(self.reac).items()}
        o.update(self.orders)
        return o

    def lines(self, spaces=0, coefstyle=0, auxsep='\n', perm=0, case=0):
        k = self.kind
        m = {'3b': '+M'}.get(k) or (f'(+{self.third or "M"})' if k in ('lind', 'troe3', 'troe4', 'sri3', 'sri5', 'ca', 'catroe') else '')
        if k in ('plog', 'cheb') and self.third:
            m = self.third

        def side(s):
            t = []
            for c, n in s:
                if c == 1:
                    t.append(n)
                elif coefstyle == 0:
                    t.append(f'{c:g}{n}')
                elif coefstyle == 1:
                    t.append(f'{c:g} {n}')
                elif coefstyle == 2:
                    t.append(f'{float(c)}{n}')
                elif c == int(c):
                    t += [n] * int(c)
                else:
                    t.append(f'{c:g}{n}')
            p = {0: '+', 1: ' + ', 2: '+ ', 3: ' +', 4: '  +  '}[spaces]
            r = p.join(t)
            if m:
                r += (' ' if spaces in (1, 4) else '') + (m if spaces < 4 or not m.startswith('+') else '+ M')
            return r
        ar = {0: '{}', 1: ' {} ', 2: '{} ', 3: ' {}', 4: '   {}   '}[spaces].format(self.arrow)
        f = '{:.6E} {:g} {:g}' if not case else '{:.6e}   {:.3f}\t{:.2f}'
        out = [side(self.reac) + ar + side(self.prod) + '   ' + f.format(*self.rate)]
        aux = []
        low3 = '{:.6E} {:g} {:g}'.format(*self.low)
        if k in ('lind', 'troe3', 'troe4', 'sri3', 'sri5'):
            aux.append(f'LOW / {low3} /')
        if k in ('ca', 'catroe'):
            aux.append(f'HIGH / {low3} /')
        if k in ('troe3', 'troe4', 'catroe'):
            aux.append('TROE / ' + ' '.join(map(repr, self.extra)) + ' /')
        if k in ('sri3', 'sri5'):
            aux.append('SRI/' + ' '.join(map(repr, self.extra)) + '/')
        if k == 'plog':
            aux += [f'PLOG / {p!r} {a!r} {b!r} {e!r} /' for p, a, b, e in self.extra]
        if k == 'cheb':
            Tr, Pr, c = self.extra
            aux += [f'TCHEB/ {Tr[0]!r} {Tr[1]!r} /', f'PCHEB/ {Pr[0]!r} {Pr[1]!r} /', f'CHEB/ {len(c)} {len(c[0])} /'] + ['CHEB/ ' + ' '.join(map(repr, row)) + ' /' for row in c]
        if self.eff:
            aux.append(' '.join(f'{s}/{v!r}/' for s, v in self.eff.items()))
        q, e = self.units
        if q:
            aux.append(f'UNITS / {q} /')
        if e:
            aux.append(f'UNITS/{e}/')
        aux += [f'FORD / {s} {v!r} /' for s, v in self.orders.items()]
        for o in self.opts:
            aux.append('DUPLICATE' if o == 'dup' else o)
        if perm == 1 and k != 'cheb' and k != 'plog':
            aux = aux[::-1]
        if perm == 2 and len(aux) > 1 and k not in ('cheb', 'plog'):
            aux = aux[1:] + aux[:1]
        if case:
            aux = [lower(a, self.eff) for a in aux]
        if aux:
            out += ['  ' + auxsep.join(aux)] if auxsep != '\n' else ['  ' + a for a in aux]
        return out

    def text(self, **kw):
        return '\n'.join(self.lines(**kw))

    def rop(self, T, P, X, hq, he):
        """forward rate of progress [kmol/m3/s]; header units hq, he"""
        q, e = ALLQ[self.units[0] or hq], ALLE[self.units[1] or he]
        C = dict(zip(SP, X * P / R / T))
        o = self.order()
        n = sum(o.values())
        ctot = P / R / T
        M = sum(C[s] * self.eff.get(s, 1.) for s in SP) if not self.third or self.third in ('+M', '(+M)') else C[self.third]
        conc = np.prod([C[s]**v for s, v in o.items()])
        k = self.kind
        A, b, Ea = self.rate
        kinf = arr(A * q**(n - 1), b, Ea * e, T)
        if k == 'elem':
            return kinf * conc
        if k == '3b':
            return arr(A * q**n, b, Ea * e, T) * conc * M
        lA, lb, lE = self.low
        if k in ('lind', 'troe3', 'troe4', 'sri3', 'sri5', 'ca', 'catroe'):
            if k in ('ca', 'catroe'):
                k0, kinf = arr(A * q**(n - 1), b, Ea * e, T), arr(lA * q**(n - 2), lb, lE * e, T)
            else:
                k0 = arr(lA * q**n, lb, lE * e, T)
            Pr = k0 * M / kinf
            F = 1.
            if k in ('troe3', 'troe4', 'catroe'):
                a, T3, T1 = self.extra[:3]
                Fc = (1 - a) * np.exp(-T / T3) + a * np.exp(-T / T1) + (np.exp(-self.extra[3] / T) if len(self.extra) > 3 else 0.)
                lF, lP = np.log10(Fc), np.log10(Pr)
                c, N = -.4 - .67 * lF, .75 - 1.27 * lF
                F = 10**(lF / (1 + ((lP + c) / (N - .14 * (lP + c)))**2))
            if k in ('sri3', 'sri5'):
                a, bb, c = self.extra[:3]
                d, ee = self.extra[3:] if len(self.extra) > 3 else (1., 0.)
                F = d * T**ee * (a * np.exp(-bb / T) + np.exp(-T / c))**(1 / (1 + np.log10(Pr)**2))
            kk = k0 / (1 + Pr) * F if k in ('ca', 'catroe') else kinf * Pr / (1 + Pr) * F
            return kk * conc
        if k == 'plog':
            ps = sorted({p for p, *_ in self.extra})
            kp = [sum(arr(a * q**(n - 1), b, E * e, T) for p_, a, b, E in self.extra if p_ == p) for p in ps]
            lp = np.log(P / ct.one_atm)
            return conc * np.exp(np.interp(lp, np.log(ps), np.log(kp)))
        if k == 'cheb':
            Tr, Pr, c = self.extra
            tt = (2 / T - 1 / Tr[0] - 1 / Tr[1]) / (1 / Tr[1] - 1 / Tr[0])
            pp = (2 * np.log10(P / ct.one_atm) - np.log10(Pr[0]) - np.log10(Pr[1])) / (np.log10(Pr[1]) - np.log10(Pr[0]))
            s = sum(c[i][j] * np.cos(i * np.arccos(np.clip(tt, -1, 1) + 0j)).real * np.cos(j * np.arccos(np.clip(pp, -1, 1) + 0j)).real for i in range(len(c)) for j in range(len(c[0])))
            if abs(tt) > 1 or abs(pp) > 1:
                return None
            return conc * 10**s * q**(n - 1)


def lower(a, eff):
    if a.split('/')[0].strip() in eff or a.startswith('FORD'):
        return a
    return a.lower()


def combine(s):
    d = {}
    for c, n in s:
        d[n] = d.get(n, 0.) + c
    return d


TROE3, TROE4 = [.6, 120., 900.], [.7, 95., 1700., 5100.]
SRI3, SRI5 = [.5, 300., 1200.], [.4, 200., 1500., 1.1, .02]
PLOG = [(.01, 1.3e5, .2, 1.), (.1, 2.4e7, 0., 1.5), (1., 3.3e8, -.1, 2.), (1., 1.1e6, .3, .5), (100., 5.5e9, 0., 3.)]
CHEB = ((290., 3000.), (.001, 100.), [[8.2, -.5, -.1], [.3, .25, .05], [-.2, .1, .01], [.07, 0., -.02]])
EFF = {'H2': 2.5, 'X+': 0., 'X(S)': 1.7}
KINDS = {'elem': {}, '3b': {'eff': EFF}, 'lind': {'eff': EFF}, 'troe3': {'extra': TROE3, 'eff': EFF}, 'troe4': {'extra': TROE4}, 'sri3': {'extra': SRI3}, 'sri5': {'extra': SRI5, 'eff': {'H': 3.}},
         'ca': {'eff': EFF}, 'catroe': {'extra': TROE4}, 'plog': {'extra': PLOG}, 'cheb': {'extra': CHEB}}
ORD = {1: ([(1, 'H2')], [(1, 'H'), (1, 'X')]), 2: ([(1, 'H'), (1, 'X')], [(1, 'H2')]), 3: ([(2, 'H'), (1, 'M1')], [(1, 'H2'), (1, 'X')])}


def compare(ctx, key, rxs, labels, hq, he, header, **kw):
    """convert all reactions in one file and compare; when this fails, one by one"""
    text = mech([r.text(**k) for r, k in zip(rxs, kw.get('layout', [{}] * len(rxs)))], header)
    ctx.trans(1)
    try:
        yml = convert(text)
    except Refused as e:
        if len(rxs) > 1:
            lay = kw.get('layout', [{}] * len(rxs))
            for r, l, y in zip(rxs, labels, lay):
                compare(ctx, key, [r], [l], hq, he, header, layout=[y])
        else:
            ctx.violation(f'{key}:{rxs[0].kind}:refused', f'{labels[0]}: {rxs[0].text(**kw.get("layout", [{}])[0])!r} under {header}: {str(e)[-250:]}')
        return
    try:
        gas = load_yaml(yml)
    except ct.CanteraError as e:
        if len(rxs) > 1:
            lay = kw.get('layout', [{}] * len(rxs))
            for r, l, y in zip(rxs, labels, lay):
                compare(ctx, key, [r], [l], hq, he, header, layout=[y])
        else:
            ctx.violation(f'{key}:{rxs[0].kind}:load', f'{labels[0]}: {rxs[0].text(**kw.get("layout", [{}])[0])!r} under {header}: {str(e)[-250:]}')
        return
    want_n = sum(1 + sum(o.startswith('REV') and not o.startswith('REV / 0') for o in r.opts) for r in rxs)
    if not ctx.eq(f'{key}:number', gas.n_reactions, want_n, f'{labels[0]}: number of reactions'):
        if len(rxs) > 1:
            return
    i = 0
    idx = []
    for r in rxs:
        idx.append(i)
        i += 1 + sum(o.startswith('REV') and not o.startswith('REV / 0') for o in r.opts)
    if i != gas.n_reactions:
        return
    for r, l, j in zip(rxs, labels, idx):
        ctx.ev(1)
        ctx.trace(1)
        ctx.state(l)
        rx = gas.reaction(j)
        kk = f'{key}:{r.kind}'
        ctx.outcome(r.kind)
        # a species on both sides may be taken for a third body; its stoichiometry and rate are the same
        tb = rx.third_body
        more = [(1., tb.name)] if tb is not None and tb.mass_action and tb.name != 'M' else []
        ctx.eq(f'{kk}:reactants', combine([(v, s) for s, v in rx.reactants.items()] + more), combine(r.reac), f'{l}: {rx.equation}')
        ctx.eq(f'{kk}:products', combine([(v, s) for s, v in rx.products.items()] + more), combine(r.prod), f'{l}: {rx.equation}')
        rev = r.arrow in ('=', '<=>') and not any(o.startswith('REV') for o in r.opts)
        ctx.eq(f'{kk}:reversible', rx.reversible, rev, f'{l}: {rx.equation}')
        ctx.eq(f'{kk}:duplicate', rx.duplicate, 'dup' in r.opts, l)
        ctx.eq(f'{kk}:orders', dict(rx.orders), r.orders, l)
    for T, P in STATES:
        gas.TPX = T, P, X0
        got = gas.forward_rates_of_progress
        for r, l, j in zip(rxs, labels, idx):
            w = r.rop(T, P, X0, hq, he)
            if w is not None:
                ctx.close(f'{key}:{r.kind}:rate', got[j], w, kw.get('rtol', 1e-8), 0., f'{l}: {gas.reaction(j).equation} at {T, P}')
            for o in r.opts:
                if o.startswith('REV') and not o.startswith('REV / 0'):
                    A, b, Ea = map(float, o.split('/')[1].split())
                    p = combine(r.prod)
                    n = sum(p.values()) + (r.kind == '3b')
                    C = dict(zip(SP, X0 * P / R / T))
                    w = arr(A * ALLQ[r.units[0] or hq]**(n - 1), b, Ea * ALLE[r.units[1] or he], T) * np.prod([C[s]**v for s, v in p.items()])
                    if r.kind == '3b':
                        w *= sum(C[s] * r.eff.get(s, 1.) for s in SP)
                    if T == 350. and P == 2e4:
                        ctx.eq(f'{key}:{r.kind}:rev:equation', (dict(gas.reaction(j + 1).reactants), dict(gas.reaction(j + 1).products), gas.reaction(j + 1).reversible), (p, combine(r.reac), False), l)
                    ctx.close(f'{key}:{r.kind}:rev:rate', got[j + 1], w, 1e-8, 0., f'{l}: {gas.reaction(j + 1).equation} at {T, P}')


def load_yaml(yml):
    """species and reactions, without the check for duplicates (which needs other mechanisms than these)"""
    from ruamel.yaml import YAML
    y = YAML(typ='safe').load(yml)
    rs = y.pop('reactions', [])
    ph = y['phases'][0]
    ph.pop('kinetics', None)
    ph.pop('reactions', None)
    s = io.StringIO()
    YAML(typ='safe').dump({k: y[k] for k in ('units', 'phases', 'species', 'elements') if k in y}, s)
    base = ct.Solution(yaml=s.getvalue())
    if not rs:
        return base
    d = tempfile.mkdtemp(prefix='c30')
    try:
        f = os.path.join(d, 'r.yaml')
        with open(f, 'w') as o:
            o.write(yml)
        rx = ct.Reaction.list_from_file(f, base)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ct.Solution(thermo='ideal-gas', kinetics='gas', species=base.species(), reactions=rx)


# ---------------------------------------------------------------- units
def units(ctx, part, of):
    H = list(itertools.product(QT, EN)) + [(q, e) for q in QT2 for e in list(EN2)[::3]] + [('MOLES', e) for e in EN2]
    for q, e in H[part::of]:
        loc = [(None, None), ('MOLECULES', None), ('MOLES', 'KELVINS'), (None, 'KCAL/MOLE')]
        if (q, e) in (('MOLES', 'CAL/MOLE'), ('MOLECULES', 'KELVINS')) or ctx.tier == 'thorough':
            loc += [(None, x) for x in ALLE] + [(x, None) for x in ALLQ] + [('MOLEC', x) for x in ALLE]
        rxs, lab = [], []
        for n, (k, o, u) in enumerate(itertools.product(KINDS, ORD, loc)):
            rxs.append(Rx(k, *ORD[o], units=u, n=n, **scaled(k, ALLE[u[1] or e])))
            lab.append(f'{k} order {o} header {q} {e} local {u}')
        for hd in ([f'REACTIONS {q} {e}'] if (q, e) != ('MOLES', 'CAL/MOLE') else ['REACTIONS', 'REAC', 'REACTIONS MOLES', f'REACTIONS {e} {q}']):
            compare(ctx, 'units', rxs, lab, q, e, hd)


def scaled(k, e):
    """energies of about 12 to 40 MJ/kmol in the given unit"""
    s = 4.184e6 / e
    d = dict(KINDS[k])
    d['Ea'] = float(f'{3.1 * s:.5g}')
    d['low'] = (4.7654e9, -.5, float(f'{2.2 * s:.5g}'))
    if k == 'plog':
        d['extra'] = [(p, a, b, float(f'{x * s:.5g}')) for p, a, b, x in PLOG]
    return d


# ---------------------------------------------------------------- equations
def equations(ctx, part, of):
    words = []
    pairs = list(itertools.combinations_with_replacement(SP, 2))
    # all pairs of names on the left side (with a fixed balance on the right) and on the right side
    for a, b in pairs:
        n = NAMES[a] + NAMES[b]
        words.append((([(1, a), (1, b)] if a != b else [(2, a)]), [(n, 'H')]))
        words.append(([(n, 'H')], ([(1, a), (1, b)] if a != b else [(2, a)])))
        words.append((([(1, b), (1, a)] if a != b else [(2, a)]), [(n, 'X+')]))
        words.append((([(1.5, b), (.5, a)]), [((3 * NAMES[b] + NAMES[a]) / 2, 'D*' if False else 'X')]))
    todo = []
    ar = ['=', '<=>', '=>']
    for i, (l, r) in enumerate(words):
        for sp, cs, k, arrow in itertools.product(range(5), range(4), ('elem', '3b', 'lind'), ar):
            if ctx.tier == 'quick' and (sp + cs + ar.index(arrow) + i) % 4:
                continue
            todo.append((l, r, sp, cs, k, arrow))
    todo = todo[part::of]
    for c in range(0, len(todo), 250):
        ch = todo[c:c + 250]
        rxs = [Rx(k, l, r, arrow=a, n=j, **KINDS[k]) for j, (l, r, sp, cs, k, a) in enumerate(ch)]
        # energies in kcal
        lab = [f'{k} {l} {a} {r} spaces {sp} coefficients {cs}' for l, r, sp, cs, k, a in ch]
        compare(ctx, 'eqn', rxs, lab, 'MOLES', 'KCAL/MOLE', 'REACTIONS KCAL/MOLE', layout=[{'spaces': sp, 'coefstyle': cs} for l, r, sp, cs, k, a in ch])


# ---------------------------------------------------------------- layouts and options
def layouts(ctx):
    HD = ('MOLES', 'KCAL/MOLE', 'REACTIONS KCAL/MOLE')
    for k in KINDS:
        for o in ORD:
            rxs, lab, lay = [], [], []
            for perm, case, sep in itertools.product(range(3), (0, 1), ('\n', ' ', '   ', '\n! comment\n  ', ' ! a comment\n', '\n\n')):
                if sep.strip(' ') == '' and k in ('cheb',):
                    continue
                for third in [None] + (['H2', 'X+', 'X(S)'] if k in ('lind', 'troe3', 'catroe') else []) + (['(+M)', '+M'] if k == 'plog' else ['(+M)'] if k == 'cheb' else []):
                    kw = dict(KINDS[k])
                    if third:
                        kw.pop('eff', None)
                    rxs.append(Rx(k, *ORD[o], n=perm, third=third, **kw))
                    lay.append({'perm': perm, 'case': case, 'auxsep': sep})
                    lab.append(f'{k} order {o} third body {third} layout {lay[-1]}')
            compare(ctx, 'layout', rxs, lab, *HD, layout=lay)
    # DUP, REV, FORD with every kind they apply to
    for k in KINDS:
        for o in ORD:
            rxs, lab = [], []
            for dup, rev, ford, u in itertools.product((0, 1), (None, 'REV / 2.5E+07 0.3 1.7 /', 'REV / 0. 0. 0. /'), (None, {'H': .5}, {'H': 1.5, 'D*': -.4}, {'X': 2.}, {'H2': 0.}), ((None, None), ('MOLECULES', None), (None, 'KELVINS'))):
                if rev and k not in ('elem', '3b') or ford and k not in ('elem', '3b', 'plog'):
                    continue
                if ford and rev:
                    continue
                if ford and 'H2' in ford and o != 1 or ford and ('H' in ford or 'X' in ford) and o == 1:
                    continue
                if ford and 'X' in ford and o != 2:
                    continue
                opts = (['dup'] if dup else []) + ([rev] if rev else [])
                a = '=>' if ford else '='
                rxs.append(Rx(k, *ORD[o], arrow=a, opts=opts, orders=ford, units=u, **KINDS[k]))
                lab.append(f'{k} order {o} options {opts} FORD {ford} units {u}')
            compare(ctx, 'option', rxs, lab, *HD)
    # negative rates, with duplicates so that they are allowed; many significant digits
    rxs = [Rx('elem', *ORD[2], A=-1.5e8, opts=['dup']), Rx('elem', *ORD[2], A=3e9, opts=['dup']), Rx('3b', *ORD[2], A=-2e12, opts=['dup']), Rx('3b', *ORD[2], A=2.2e12, opts=['dup'])]
    compare(ctx, 'negative', rxs, ['negative A'] * 4, *HD)
    rxs = [Rx('plog', *ORD[o], extra=[(p, a * 1.123456789, b, e) for p, a, b, e in PLOG], units=u) for o in ORD for u in ((None, None), ('MOLECULES', None))]
    compare(ctx, 'digits', rxs, ['many digits'] * 6, *HD, rtol=1e-8)
    # sections: whole files written in different ways give the same mechanism
    rx = [Rx(k, *ORD[2], **KINDS[k]).text() for k in KINDS]
    ref = convert(mech(rx, 'REACTIONS KCAL/MOLE'))
    ref = ref[ref.index('units:'):]
    t = mech(rx, 'REACTIONS KCAL/MOLE')
    def low_sections(s):
        for a in ('ELEMENTS', 'SPECIES', 'THERMO ALL', 'REACTIONS KCAL/MOLE', 'END'):
            s = s.replace('\n' + a + '\n', '\n' + a.lower() + '\n')
        return s
    var = {'lower case': low_sections(t), 'short keywords': t.replace('ELEMENTS', 'ELEM').replace('\nSPECIES', '\nSPEC').replace('REACTIONS', 'REAC'),
           'on one line': t.replace('ELEMENTS\nH', 'ELEMENTS H').replace('SPECIES\n', 'SPECIES '), 'end on the same line': t.replace('AR\nEND', 'AR END').replace(f'{SP[-1]}\nEND', f'{SP[-1]} END'),
           'blank lines': t.replace('END\n', 'END\n\n\n'), 'no final end': t.rstrip()[:-3], 'comment lines': t.replace('END\n', 'END\n! a comment = with + signs / and / slashes\n'),
           'indented': '\n'.join('  ' + l if l.strip() in ('END', 'ELEMENTS', 'SPECIES', 'THERMO ALL') or l.startswith('REACTIONS') else l for l in t.split('\n')),
           'carriage returns': t.replace('\n', '\r\n'), 'species on several lines': t.replace(' '.join(SP), '\n'.join(SP)), 'no blanks at line ends': '\n'.join(l.rstrip() for l in t.split('\n')),
           'lower case elements': t.replace('H O C N AR', 'h o c n ar'), 'trailing blanks': t.replace('\n', '   \n') if False else t}
    for n, v in var.items():
        ctx.trans(1)
        ctx.trace(1)
        ctx.state('file ' + n)
        try:
            g = convert(v)
            g = g[g.index('units:'):]
            import re
            strip = lambda s: re.sub(r'\n    note: .*', '', re.sub(r'\n  note:(.|\n    )*', '', s))
            a, b = load_yaml(g), load_yaml(ref)
            ctx.check(f'file:{n}', a.species_names == b.species_names and a.element_names == b.element_names and [str(r) for r in a.reactions()] == [str(r) for r in b.reactions()],
                      f'{n}: species or reactions differ: {a.species_names} {a.element_names} {len(a.reactions())} {len(b.reactions())}')
            a.TPX = b.TPX = 900., 1e5, X0
            ctx.close(f'file:{n}', a.forward_rates_of_progress, b.forward_rates_of_progress, 1e-14, 0., n)
        except (Refused, ct.CanteraError) as e:
            ctx.violation(f'file:{n}', f'{n}: {str(e)[-300:]}')


# ---------------------------------------------------------------- thermo
def poly7(a, T):
    cp = sum(a[i] * T**i for i in range(5))
    h = sum(a[i] * T**(i + 1) / (i + 1) for i in range(5)) + a[5]
    s = a[0] * np.log(T) + sum(a[i] * T**i / i for i in range(1, 5)) + a[6]
    return cp * R, h * R, s * R


def thermo(ctx):
    cases = {}
    S = [('H', 2), ('O', 1)]
    cases['plain'] = (nasa7('AA', S), S, (200., 4000., 1000.), LO, HI)
    cases['midpoint 1400'] = (nasa7('AA', S, T=(300., 5000., 1400.)), S, (300., 5000., 1400.), LO, HI)
    cases['midpoint by default'] = (nasa7('AA', S, tint=''), S, (200., 4000., 1000.), LO, HI)
    cases['midpoint in columns 66-75'] = (nasa7('AA', S, T=(300., 5000., 1385.), tint='  1385.000'), S, (300., 5000., 1385.), LO, HI)
    cases['one range, zeros'] = (nasa7('AA', S, hi=HI, lo=[0.] * 7, T=(200., 1000., 0), tint=' '), S, (200., 1000., None), HI, HI)
    cases['one range, high zeros'] = (nasa7('AA', S, lo=LO, hi=[0.] * 7, T=(200., 1000., 0), tint=' '), S, (200., 1000., None), LO, LO)
    cases['one range, equal'] = (nasa7('AA', S, lo=LO, hi=LO), S, (200., 4000., None), LO, LO)
    cases['one range above'] = (nasa7('AA', S, hi=HI, lo=[0.] * 7, T=(1000., 5000., 0), tint=' '), S, (1000., 5000., None), HI, HI)
    for n in range(1, 5):
        c = [('H', 2), ('O', 1), ('C', 12), ('N', 3)][:n]
        cases[f'{n} elements'] = (nasa7('AA', c), c, (200., 4000., 1000.), LO, HI)
    c = [('C', 1), ('H', 2), ('O', 3), ('N', 4)]
    cases['fifth element in columns 74-78'] = (nasa7('AA', c, mid='AR  5'), c + [('AR', 5)], (200., 4000., 1000.), LO, HI)
    cases['fifth element, other midpoint'] = (nasa7('AA', c, T=(300., 5000., 1400.), mid='AR  5'), c + [('AR', 5)], (300., 5000., 1400.), LO, HI)
    cases['fifth element, no midpoint'] = (nasa7('AA', c, tint='', mid='AR  5'), c + [('AR', 5)], (200., 4000., 1000.), LO, HI)
    cases['fifth element zero'] = (nasa7('AA', c, mid='    0'), c, (200., 4000., 1000.), LO, HI)
    cases['zero elements'] = (nasa7('AA', [('H', 2), ('O', 1), ('C', 0), ('', 0)]), S, (200., 4000., 1000.), LO, HI)
    cases['lower case elements'] = (nasa7('AA', [('h', 2), ('ar', 1)]), [('H', 2), ('AR', 1)], (200., 4000., 1000.), LO, HI)
    cases['float counts'] = ([l.replace('H   2', 'H  2.').replace('O   1', 'O  1.') for l in nasa7('AA', S)], S, (200., 4000., 1000.), LO, HI)
    cases['large counts'] = (nasa7('AA', [('H', 120), ('C', 60)]), [('H', 120), ('C', 60)], (200., 4000., 1000.), LO, HI)
    e = nasa7('AA', [], cont='&')
    cases['continued composition'] = ([e[0], 'H 2 O 1'] + e[1:], S, (200., 4000., 1000.), LO, HI)
    cases['continued composition, two lines'] = ([e[0], 'H 200 O 1 &', 'C 1000'] + e[1:], [('H', 200), ('O', 1), ('C', 1000)], (200., 4000., 1000.), LO, HI)
    e = nasa7('AA', [('H', 2)])
    cases['beyond column 80'] = ([e[0] + 'O         1' [:2] + '        1'[:8]] + e[1:], None, (200., 4000., 1000.), LO, HI)
    ext = f'{"O":<2s}{1:>8d}{"C":<2s}{1234:>8d}'
    cases['beyond column 80'] = ([e[0] + ext] + e[1:], [('H', 2), ('O', 1), ('C', 1234)], (200., 4000., 1000.), LO, HI)
    d = nasa7('AA', S)
    cases['fortran D exponents'] = ([d[0]] + [l.replace('E', 'D') for l in d[1:]], S, (200., 4000., 1000.), LO, HI)
    cases['exponents with blanks'] = ([d[0]] + [l.replace('E+', 'E ') for l in d[1:]], S, (200., 4000., 1000.), LO, HI)
    cases['lower case exponents'] = ([d[0]] + [l.replace('E', 'e') for l in d[1:]], S, (200., 4000., 1000.), LO, HI)
    cases['comments'] = (['! before', d[0], '! inside', d[1], d[2], d[3], '! after'], S, (200., 4000., 1000.), LO, HI)
    cases['blank lines'] = (['', d[0], d[1], d[2], d[3], ''], S, (200., 4000., 1000.), LO, HI)
    for n, (lines, comp, Tr, lo, hi) in cases.items():
        for where in ('input', 'file', 'file with others'):
            ctx.trans(1)
            ctx.trace(1)
            ctx.ev(1)
            ctx.state(('thermo', n, where))
            els = 'H O C N AR'
            other = nasa7('ZZ', [('H', 1)])
            th = 'THERMO ALL\n 300. 1000. 5000.\n' + '\n'.join((other if where != 'input' else []) + lines + (nasa7('YY', [('N', 2)]) if where == 'file with others' else [])) + '\nEND\n'
            try:
                if where == 'input':
                    y = convert(f'ELEMENTS {els} END\nSPECIES AA END\n{th}')
                else:
                    y = convert(f'ELEMENTS {els} END\nSPECIES AA END\n', thermo=th)
                g = ct.Solution(yaml=y)
            except (Refused, ct.CanteraError) as e:
                ctx.violation(f'thermo:{n}', f'{n} in {where}: {str(e)[-300:]}')
                continue
            s = g.species('AA')
            ctx.eq(f'thermo:{n}:species', g.species_names, ['AA'], where)
            ctx.eq(f'thermo:{n}:composition', {k.upper(): v for k, v in s.composition.items()}, {k: float(v) for k, v in comp}, where)
            ctx.close(f'thermo:{n}:range', np.array([s.thermo.min_temp, s.thermo.max_temp]), np.array(Tr[:2]), 1e-12, 0., where)
            for T in (250., 500., 999., 1001., 1200., 1390., 1450., 3000.):
                a = lo if Tr[2] is None or T <= Tr[2] else hi
                w = poly7(a, T)
                ctx.close(f'thermo:{n}:values', np.array([s.thermo.cp(T), s.thermo.h(T), s.thermo.s(T)]), np.array(w), 1e-7, 0., f'{where}: cp, h, s at {T}')
    # NASA9
    A9 = [[1e4, -200., 3.2, 1e-3, -2e-7, 1e-11, 1e-15, -900., 3.], [2e5, 100., 2.8, 1.1e-3, -1e-7, 2e-11, -1e-15, 700., 4.], [-1e5, 50., 3.4, 9e-4, -1e-7, 1e-11, 1e-16, 300., 1.]]
    Ts = [200., 1000., 6000., 20000.]
    def f16(x):
        return f'{x:16.8E}'.replace('E', 'D')
    for nz in (1, 2, 3):
        for comp in ([('H', 2), ('O', 1)], [('C', 1), ('H', 4), ('O', 1), ('N', 2), ('AR', 1)]):
            L = ['BB                Ref. something', f'{nz:2d} g 1/00 ' + f'{"".join(f"{e:<2s}{n:6.2f}" for e, n in comp):<40s} 0{20.:13.7f}{0.:15.3f}']
            for z in range(nz):
                L += [f' {Ts[z]:10.3f}{Ts[z + 1]:10.3f} 7 -2.0 -1.0  0.0  1.0  2.0  3.0  4.0  0.0', ''.join(map(f16, A9[z][:5])), ''.join(map(f16, A9[z][5:7])) + ' ' * 16 + ''.join(map(f16, A9[z][7:]))]
            for first in ('', '   200.000  1000.000  6000.000 20000.000\n'):
                ctx.trans(1)
                ctx.trace(1)
                ctx.state(('nasa9', nz, len(comp), bool(first)))
                try:
                    g = ct.Solution(yaml=convert('ELEMENTS H O C N AR END\nSPECIES BB END\nTHERMO NASA9\n' + first + '\n'.join(L) + '\nEND\n'))
                except (Refused, ct.CanteraError) as e:
                    ctx.violation('thermo:nasa9', f'{nz} ranges, {len(comp)} elements: {str(e)[-300:]}')
                    continue
                s = g.species('BB')
                ctx.eq('thermo:nasa9:composition', {k.upper(): v for k, v in s.composition.items()}, {k: float(v) for k, v in comp}, f'{nz}')
                for T in (300., 900., 2000., 7000.):
                    z = min(nz - 1, sum(T > t for t in Ts[1:-1]))
                    if T > Ts[nz]:
                        continue
                    a = A9[z]
                    cp = sum(a[i] * T**(i - 2.) for i in range(7))
                    h = -a[0] / T + a[1] * np.log(T) + sum(a[i] * T**(i - 1.) / (i - 1) for i in range(2, 7)) + a[7]
                    ss = -a[0] / 2 / T**2 - a[1] / T + a[2] * np.log(T) + sum(a[i] * T**(i - 2.) / (i - 2) for i in range(3, 7)) + a[8]
                    ctx.close('thermo:nasa9:values', np.array([s.thermo.cp(T), s.thermo.h(T), s.thermo.s(T)]), R * np.array([cp, h, ss]), 1e-8, 0., f'{nz} ranges at {T}')
    # elements with custom weights, transport
    for wt, sep in itertools.product((3.5, 40.), ('/', ' / ')):
        t = f'ELEMENTS\nH QQ{sep}{wt}{sep}O\nEND\nSPECIES AA END\nTHERMO ALL\n 300. 1000. 5000.\n' + '\n'.join(nasa7('AA', [('QQ', 2), ('H', 1)])) + '\nEND\n'
        ctx.trans(1)
        try:
            g = ct.Solution(yaml=convert(t))
            ctx.close('element:weight', g.molecular_weights[0], 2 * wt + g.atomic_weight('H'), 1e-10, 0., f'{wt} {sep!r}')
            ctx.eq('element:names', g.element_names, ['H', 'Qq', 'O'], sep)
        except (Refused, ct.CanteraError) as e:
            ctx.violation('element:weight', f'{wt}{sep}: {str(e)[-300:]}')
    for geo, num, place in itertools.product((0, 1, 2), (['80.0', '2.75', '0.0', '0.0', '0.0'], ['572.4', '2.605', '1.844', '0.5', '4.0'], ['1e2', '3.', '0', '1.76E+00', '280.']), ('file', 'section')):
        cmp = {0: [('AR', 1)], 1: [('H', 2)], 2: [('H', 2), ('O', 1)]}[geo]
        t = 'ELEMENTS H O C N AR END\nSPECIES AA END\nTHERMO ALL\n 300. 1000. 5000.\n' + '\n'.join(nasa7('AA', cmp)) + '\nEND\n'
        line = f'! comment\nQQ 1 2 3 4 5 6\n\nAA    {geo}  {"   ".join(num)}  ! note\n'
        ctx.trans(1)
        ctx.state(('transport', geo, tuple(num), place))
        try:
            g = ct.Solution(yaml=convert(t, transport=line) if place == 'file' else convert(t + 'TRANSPORT\n' + line + 'END\n'))
            d = g.species('AA').transport
            v = list(map(float, num))
            ctx.eq('transport:geometry', d.geometry, ['atom', 'linear', 'nonlinear'][geo], line)
            ctx.close('transport:values', np.array([d.well_depth / ct.boltzmann, d.diameter * 1e10, d.dipole * 1e21 * ct.light_speed, d.polarizability * 1e30, d.rotational_relaxation]), np.array(v), 1e-9, 1e-12, line)
        except (Refused, ct.CanteraError) as e:
            ctx.violation('transport', f'{line!r} {place}: {str(e)[-300:]}')


# ---------------------------------------------------------------- surfaces
def surface(ctx):
    gasrx = 'H+X=>H2  1.0E10 0.0 0.0'
    sp = ['PT(S)', 'H(S)', 'D2(S)']
    th = [l for n, c in (('PT(S)', [('PT', 1)]), ('H(S)', [('H', 1), ('PT', 1)]), ('D2(S)', [('H', 2), ('PT', 2)])) for l in nasa7(n, c)]
    for he, hg, mw, sden, loc in itertools.product(('', 'KCAL/MOLE', 'KELVINS', 'JOULES/MOLE'), ('', 'KCAL/MOLE', 'KELVINS'), ('', 'MWON', 'MWOFF'), (2.7e-9,), ('', 'KELVINS', 'KJOULES/MOLE')):
        e = ALLE[loc or he or 'CAL/MOLE']
        s = 4.184e6 / e
        rx = [(f'H + PT(S) => H(S)  0.3 0.2 {.5 * s:.4g}', ['STICK'], 'stick'),
              (f'X + PT(S) => H(S)  0.4 0.0 {.1 * s:.4g}', ['STICK', 'MWON'], 'stickmw'),
              (f'M1 + PT(S) => H(S)  0.9 0.0 {.1 * s:.4g}', ['STICK', 'MWOFF'], 'sticknomw'),
              (f'2H(S) => H2 + 2PT(S)  3.7E+21 0.0 {16. * s:.4g}', [f'COV/H(S) 0.1 0.5 {-1.4 * s:.4g}/'], 'cov'),
              (f'H2 + 2PT(S) => 2H(S)  4.6E+15 -0.5 {.3 * s:.4g}', ['FORD/PT(S) 1.0/'], 'ford')]
        body = []
        for a, b, _ in rx:
            body += [a] + ['  ' + x for x in b] + ([f'  UNITS/{loc}/'] if loc else [])
        gas = mech([gasrx], f'REACTIONS {hg}', elements='H O C N AR PT')
        surf = f'SITE/PTS/ SDEN/{sden}/\n PT(S) H(S) D2(S)/2/\nEND\nTHERMO ALL\n 300. 1000. 5000.\n' + '\n'.join(th) + f'\nEND\nREACTIONS {he} {mw}\n' + '\n'.join(body) + '\nEND\n'
        ctx.trans(1)
        ctx.trace(1)
        ctx.ev(1)
        lab = f'surface energies {he or "default"}, gas energies {hg or "default"}, {mw or "no"} Motz-Wise option, local {loc or "none"}'
        ctx.state(lab)
        try:
            y = convert(gas, surface=surf)
            i = ct.Interface(yaml=y, name='PTS', adjacent=[ct.Solution(yaml=y, name='gas')])
        except (Refused, ct.CanteraError) as ex:
            ctx.violation('surface:refused', f'{lab}: {str(ex)[-300:]}')
            continue
        ctx.close('surface:density', i.site_density, sden * 10, 1e-12, 0., lab)     # mol/cm2 to kmol/m2
        ctx.eq('surface:sites', [i.species(n).size for n in sp], [1., 1., 2.], lab)
        g = i.adjacent['gas']
        names = i.kinetics_species_names
        for T, P in ((400., 1e5), (1200., 2e3)):
            g.TPX = T, P, X0
            i.TPX = T, P, 'PT(S):0.5,H(S):0.3,D2(S):0.2'
            i.coverages = [.5, .3, .2]
            th_ = dict(zip(sp, i.coverages))
            C = dict(zip(SP, g.concentrations))
            C.update(zip(sp, i.concentrations))
            W = dict(zip(SP, g.molecular_weights))
            G = sden * 10
            got = i.forward_rates_of_progress
            for j, (a, b, k) in enumerate(rx):
                A, bb, Ea = map(float, a.split()[-3:])
                kk = A * T**bb * np.exp(-Ea * e / R / T)
                if k.startswith('stick'):
                    on = k == 'stickmw' or k == 'stick' and mw == 'MWON'
                    n = a.split()[0]
                    gam = kk / (1 - .5 * kk) if on else kk
                    w = gam * np.sqrt(R * T / (2 * np.pi * W[n])) * C[n] * th_['PT(S)']
                elif k == 'cov':
                    t = th_['H(S)']
                    w = kk * .1 * 10**(.1 * t) * 10 if False else kk * 10**(.1 * t) * t**.5 * np.exp(1.4 * s * e / R / T * t if False else -float(f'{-1.4 * s:.4g}') * e / R / T * t) * .1 * C['H(S)']**2
                else:
                    # A: (cm2, cm3, mol) with order 1 in H2 and 1 in PT(S) -> cm3/mol/s
                    w = kk * 1e-3 * C['H2'] * C['PT(S)']
                ctx.close(f'surface:{k}', got[j], w, 1e-7, 0., f'{lab}: {i.reaction(j).equation} at {T, P}')


# ---------------------------------------------------------------- faults
def faults(ctx):
    ok = {k: Rx(k, *ORD[2], **KINDS[k]).lines() for k in KINDS}
    bad = []

    def rep(k, n, a, b):
        l = list(ok[k])
        assert a in l[n], (l, n, a)
        l[n] = l[n].replace(a, b)
        return l
    for k in KINDS:
        base = ok[k]
        num = base[0].split()[-3:]
        bad.append((f'{k}: no activation energy', [base[0].rsplit(None, 1)[0]] + base[1:]))
        bad.append((f'{k}: no rate', [base[0].split('   ')[0]] + base[1:]))
        bad.append((f'{k}: four numbers', [base[0] + ' 1.0'] + base[1:]))
        bad.append((f'{k}: word as A', [base[0].replace(num[0], 'abc')] + base[1:]))
        bad.append((f'{k}: unknown reactant', [base[0].replace('H+', 'QQ+', 1)] + base[1:]))
        bad.append((f'{k}: unknown product', [base[0].replace('=H2', '=QQ2', 1)] + base[1:]))
        bad.append((f'{k}: unbalanced', [base[0].replace('=H2', '=H', 1)] + base[1:]))
        bad.append((f'{k}: unknown units', base + ['  UNITS/FOO/']))
        bad.append((f'{k}: reactant photon', [base[0].replace('H+', 'HV+H+', 1)] + base[1:]))
        bad.append((f'{k}: product photon', [base[0].replace('=H2', '=HV+H2', 1)] + base[1:]))
        bad.append((f'{k}: unknown word', base + ['  FOO']))
        for w in ('RORD/H2 1.0/', 'TDEP/E/', 'LT/1.0 2.0/', 'RLT/1.0 2.0/', 'JAN/1. 2. 3. 4. 5. 6. 7. 8. 9./', 'FIT1/1. 2. 3. 4./', 'XSMI', 'MOME', 'EXCI/1.0/', 'HV/1.0/'):
            bad.append((f'{k}: unsupported {w.split("/")[0]}', base + ['  ' + w]))
        bad.append((f'{k}: unknown collider', base + ['  QQ/2.0/']))
        if k in ('elem',):
            bad.append((f'{k}: efficiencies without third body', base + ['  H2/2.0/']))
            bad.append((f'{k}: TROE without LOW', base + ['  TROE/0.6 100. 900./']))
            bad.append((f'{k}: SRI without LOW', base + ['  SRI/0.6 100. 900./']))
            bad.append((f'{k}: LOW without third body', base + ['  LOW/1e10 0. 0./']))
            bad.append((f'{k}: HIGH without third body', base + ['  HIGH/1e10 0. 0./']))
            bad.append((f'{k}: falloff form only', [base[0].replace('=', '(+M)=').replace('H2 ', 'H2(+M) ')]))
            bad.append((f'{k}: third body on one side', [base[0].replace('=', '+M=')]))
            bad.append((f'{k}: third body on the other side', [base[0].replace('H2 ', 'H2+M ')]))
            bad.append((f'{k}: falloff on one side', [base[0].replace('=', '(+M)='), '  LOW/1e10 0. 0./']))
            bad.append((f'{k}: no products', [base[0].replace('=H2', '=')]))
            bad.append((f'{k}: no reactants', ['=H2  1e10 0. 0.']))
            bad.append((f'{k}: two arrows', ['H+X=H2=H2  1e10 0. 0.']))
            bad.append((f'{k}: STICK in a gas', base + ['  STICK']))
            bad.append((f'{k}: coverage in a gas', base + ['  COV/H 0.1 0. 0./']))
        if k in ('3b', 'lind', 'troe3', 'sri5', 'ca'):
            e = next(i for i, l in enumerate(base) if 'H2/' in l or ' H/' in l)
            l = list(base)
            l[e] = l[e] + ' X'
            bad.append((f'{k}: collider without efficiency', l))
            l = list(base)
            l[e] = l[e] + ' X/abc/'
            bad.append((f'{k}: word as efficiency', l))
        if k == '3b':
            bad.append((f'{k}: TROE without LOW', base + ['  TROE/0.6 100. 900./']))
            bad.append((f'{k}: LOW with +M', base + ['  LOW/1e10 0. 0./']))
            bad.append((f'{k}: no efficiencies and other third body', [base[0].replace('+M=', '+M=', 1).replace('H2+M', 'H2')]))
        if k in ('lind', 'troe3', 'troe4', 'sri3', 'sri5'):
            bad.append((f'{k}: two numbers in LOW', rep(k, 1, ' 2.2 /', ' /')))
            bad.append((f'{k}: four numbers in LOW', rep(k, 1, ' 2.2 /', ' 2.2 1.0 /')))
            bad.append((f'{k}: word in LOW', rep(k, 1, ' 2.2 /', ' abc /')))
            bad.append((f'{k}: LOW and HIGH', base + ['  HIGH/1e10 0. 0./']))
            bad.append((f'{k}: LOW and PLOG', base + ['  PLOG/1. 1e10 0. 0./']))
            bad.append((f'{k}: LOW without slashes', rep(k, 1, '/', ' ')))
            bad.append((f'{k}: different third bodies', [base[0].replace('H2(+M)', 'H2(+X)')] + base[1:]))
            bad.append((f'{k}: LOW twice', base + [base[1]]))
        if k in ('troe3', 'troe4', 'catroe'):
            i = next(i for i, l in enumerate(base) if 'TROE' in l)
            l = list(base)
            l[i] = '  TROE / 0.6 100. /'
            bad.append((f'{k}: two numbers in TROE', l))
            l = list(base)
            l[i] = '  TROE / 0.6 100. 900. 5000. 1.0 /'
            bad.append((f'{k}: five numbers in TROE', l))
            bad.append((f'{k}: TROE and SRI', base + ['  SRI/0.6 100. 900./']))
        if k in ('sri3', 'sri5'):
            i = next(i for i, l in enumerate(base) if 'SRI' in l)
            for n in (2, 4, 6):
                l = list(base)
                l[i] = '  SRI/' + ' '.join(['0.6', '100.', '900.', '1.1', '0.1', '2.'][:n]) + '/'
                bad.append((f'{k}: {n} numbers in SRI', l))
        if k == 'plog':
            bad.append((f'{k}: three numbers', rep(k, 1, ' 1.0 /', ' /')))
            bad.append((f'{k}: five numbers', rep(k, 1, ' 1.0 /', ' 1.0 2.0 /')))
            bad.append((f'{k}: word', rep(k, 1, '0.01', 'abc')))
            bad.append((f'{k}: negative pressure', rep(k, 1, '0.01', '-0.01')))
        if k == 'cheb':
            bad.append((f'{k}: no TCHEB', base[:1] + base[2:]))
            bad.append((f'{k}: no PCHEB', base[:2] + base[3:]))
            bad.append((f'{k}: row missing', base[:-1]))
            bad.append((f'{k}: row too many', base + [base[-1]]))
            bad.append((f'{k}: no dimensions', base[:3] + base[4:]))
            bad.append((f'{k}: one temperature', rep(k, 1, ' 3000.0 /', ' /')))
            bad.append((f'{k}: three temperatures', rep(k, 1, ' 3000.0 /', ' 3000.0 1.0 /')))
            bad.append((f'{k}: fractional dimensions', rep(k, 3, '4 3', '4.5 3')))
        if k == 'elem':
            bad.append((f'{k}: two numbers in REV', base + ['  REV/1e10 0./']))
            bad.append((f'{k}: REV without numbers', base + ['  REV']))
            bad.append((f'{k}: four numbers in REV', base + ['  REV/1e10 0. 0. 1./']))
            bad.append((f'{k}: FORD without order', base + ['  FORD/H/']))
            bad.append((f'{k}: FORD of unknown species', base + ['  FORD/QQ 1.0/']))
            bad.append((f'{k}: FORD with three words', base + ['  FORD/H 1.0 2.0/']))
            bad.append((f'{k}: undeclared duplicate', base + base))
            bad.append((f'{k}: DUP of one', base + ['  DUP']))
    fails(ctx, 'reaction', [(n, mech(l, 'REACTIONS KCAL/MOLE')) for n, l in bad])
    # thermo, species, elements, sections
    t = mech(ok['elem'], 'REACTIONS KCAL/MOLE')
    d = nasa7('H', [('H', 1)])
    L = []
    L.append(('section: unknown', t + 'FOO\nH\nEND\n'))
    L.append(('section: unknown reaction option', t.replace('KCAL/MOLE', 'KCAL/MOLE FOO')))
    L.append(('section: site in a gas', t + 'SITE/PT/ SDEN/1e-9/\nP(S)\nEND\n'))
    L.append(('species: twice', t.replace('\nH H2 ', '\nH H2 H ')))
    L.append(('species: no thermo', t.replace('\nH H2 ', '\nH H2 QQ ')))
    L.append(('elements: missing', t.replace('ELEMENTS\nH O C', 'ELEMENTS\nO C')))
    L.append(('elements: unknown', t.replace('ELEMENTS\nH O C', 'ELEMENTS\nH O QX C').replace(d[0], d[0].replace('H   1', 'QX  1'))))
    L.append(('thermo: twice', t.replace('\n'.join(d), '\n'.join(d + d))))
    for i in range(4):
        L.append((f'thermo: line {i + 1} missing', t.replace('\n'.join(d), '\n'.join(d[:i] + d[i + 1:]))))
        L.append((f'thermo: line {i + 1} without number', t.replace('\n'.join(d), '\n'.join(d[:i] + [d[i][:79]] + d[i + 1:]))))
        if i:
            L.append((f'thermo: word in line {i + 1}', t.replace('\n'.join(d), '\n'.join(d[:i] + ['      word     ' + d[i][15:]] + d[i + 1:]))))
    L.append(('thermo: no composition', t.replace(d[0], d[0].replace('H   1', '     '))))
    L.append(('thermo: fractional number of atoms', t.replace(d[0], d[0].replace('H   1', 'H 1.5'))))
    L.append(('thermo: word as temperature', t.replace(d[0], d[0].replace('   200.000', '      cold'))))
    L.append(('thermo: two ranges without midpoint', t.replace(d[0], d[0].replace('  4000.000 1000.00', '   900.000        '))))
    fails(ctx, 'input', L)
    tr = 'AA 1 80.0 2.75 0.0 0.0 0.0'
    g = 'ELEMENTS H O C N AR END\nSPECIES AA END\nTHERMO ALL\n 300. 1000. 5000.\n' + '\n'.join(nasa7('AA', [('H', 2)])) + '\nEND\n'
    T = [('transport: ' + n, l) for n, l in (('five numbers', tr.rsplit(None, 1)[0]), ('seven numbers', tr + ' 1.0'), ('no species', 'QQ' + tr[2:]), ('twice', tr + '\n' + tr), ('geometry 3', tr.replace(' 1 ', ' 3 ')),
                                             ('geometry -1', tr.replace(' 1 ', ' -1 ')), ('geometry 0.5', tr.replace(' 1 ', ' 0.5 ')), ('word as geometry', tr.replace(' 1 ', ' linear ')), ('word as diameter', tr.replace('2.75', 'abc')),
                                             ('geometry of an atom', tr.replace(' 1 ', ' 0 ')), ('empty file', '\n'))]
    for n, l in T:
        ctx.trans(1)
        ctx.trace(1)
        ctx.state(n)
        try:
            y = convert(g, transport=l)
            ct.Solution(yaml=y, transport_model='mixture-averaged')
            ctx.violation(f'fault:{n}', f'{n}: {l!r} is accepted')
        except (Refused, ct.CanteraError):
            ctx.outcome('refused')
    # the unchanged entries are accepted
    for l in (tr, tr.replace(' 1 ', ' 1.0 ')):
        try:
            ct.Solution(yaml=convert(g, transport=l), transport_model='mixture-averaged')
        except (Refused, ct.CanteraError) as e:
            ctx.violation('fault:base', f'{l}: {e}')


def fails(ctx, kind, words):
    for n, t in words:
        ctx.trans(1)
        ctx.trace(1)
        ctx.ev(1)
        ctx.state(n)
        try:
            y = convert(t)
        except Refused as e:
            ctx.outcome('refused by ck2yaml')
            if not str(e).strip():
                ctx.violation(f'fault:{n}:message', f'{n}: refused without a message')
            continue
        try:
            g = ct.Solution(yaml=y)
            ctx.violation(f'fault:{n}', f'{n} is accepted: {[r.input_data for r in g.reactions()][:2] if kind == "reaction" else (g.species_names, [s.composition for s in g.species()][:3])}')
        except ct.CanteraError:
            ctx.outcome('refused by loading')


def tasks(tier):
    return [{'k': 'units', 'part': i, 'of': 8} for i in range(8)] + [{'k': 'eqn', 'part': i, 'of': 8} for i in range(8)] + [{'k': k} for k in ('layouts', 'thermo', 'surface', 'faults')]


def run(task, ctx):
    if task['k'] == 'units':
        units(ctx, task['part'], task['of'])
    elif task['k'] == 'eqn':
        equations(ctx, task['part'], task['of'])
    else:
        {'layouts': layouts, 'thermo': thermo, 'surface': surface, 'faults': faults}[task['k']](ctx)
