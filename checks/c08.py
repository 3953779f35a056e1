"""C08: assembly orders, refused edits, duplicates and undeclared species of mechanisms, exhaustively over small reaction sets."""
import itertools
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C08', 'model_checking'
BUILD = ['py']
TECHNIQUE = 'exhaustive enumeration of assembly histories (all ordered selections of reactions x assembly route x interleaved queries x refused operations) on the real kinetics objects against single-reaction mechanisms and a reference duplicate predicate'
LEVEL_NOTE = 'Every ordered selection up to the bound is assembled through every route; larger mechanisms are covered by permutations of the shipped ones only.'
RULE = ('gas: all ordered selections of 3 reactions out of 14 (one per kind of rate) x routes (file, batch, one-by-one with queries, one-by-one with refused operations in between, two sections); surface: same with 9 interface reactions; '
        'duplicates: all ordered pairs (and triples) of forms x flags x handling options; undeclared names: every position x every option')
ASSUMPTIONS = ['a mechanism with one reaction is the reference for that reaction', 'duplicates are detected when a mechanism is loaded from input text', 'tolerance 1e-10 relative']
BOUNDS = {'quick': 'selections of 3 of 14 gas / 9 surface kinds (each order for a third of the routes), pairs of 2x17 duplicate forms in 4 handling modes', 'thorough': 'all routes for all ordered selections of 3 and cyclic/reversed orders of all; all ordered triples of 14 duplicate forms'}

A = '{A: %g, b: %g, Ea: %g cal/mol}'
P0 = [
    ('arr', 'equation: H2 + O <=> H + OH\nrate-constant: ' + A % (3.87e4, 2.7, 6260)),
    ('irr', 'equation: O + HO2 => OH + O2\nrate-constant: ' + A % (2e13, 0.1, 100)),
    ('3b', 'equation: 2 O + M <=> O2 + M\ntype: three-body\nrate-constant: ' + A % (1.2e17, -1, 0) + '\nefficiencies: {H2: 2.4, H2O: 15.4, AR: 0.83}'),
    ('3bx', 'equation: H + O2 + AR <=> HO2 + AR\nrate-constant: ' + A % (7e17, -0.8, 0)),
    ('3b0', 'equation: H + OH + M <=> H2O + M\ntype: three-body\nrate-constant: ' + A % (2.2e22, -2, 0) + '\ndefault-efficiency: 0.2\nefficiencies: {H2: 0.73, H2O: 3.65}'),
    ('lind', 'equation: O + H2O (+M) <=> H2O2 (+M)\ntype: falloff\nlow-P-rate-constant: ' + A % (2.3e18, -0.9, -1700) + '\nhigh-P-rate-constant: ' + A % (7.4e13, -0.37, 0) + '\nefficiencies: {AR: 0.7}'),
    ('troe', 'equation: 2 OH (+M) <=> H2O2 (+M)\ntype: falloff\nlow-P-rate-constant: ' + A % (2.3e18, -0.9, -1700) + '\nhigh-P-rate-constant: ' + A % (7.4e13, -0.37, 0) + '\nTroe: {A: 0.7346, T3: 94.0, T1: 1756.0, T2: 5182.0}\nefficiencies: {H2: 2.0, H2O: 6.0}'),
    ('chact', 'equation: HO2 + OH (+M) <=> H2O + O2 (+M)\ntype: chemically-activated\nlow-P-rate-constant: ' + A % (2.3e8, 0.9, 1700) + '\nhigh-P-rate-constant: ' + A % (7.4e3, 1.37, 0)),
    ('plog', 'equation: H2O2 + H <=> HO2 + H2\ntype: pressure-dependent-Arrhenius\nrate-constants:\n- {P: 0.1 atm, A: 1.2e6, b: 2, Ea: 5000 cal/mol}\n- {P: 1 atm, A: 1.2e7, b: 2, Ea: 5200 cal/mol}\n- {P: 10 atm, A: 1.2e8, b: 1.9, Ea: 5300 cal/mol}'),
    ('cheb', 'equation: H2O2 + OH <=> HO2 + H2O\ntype: Chebyshev\ntemperature-range: [290, 3000]\npressure-range: [0.01 atm, 100 atm]\ndata:\n- [8.2883, -1.1397, -0.12059]\n- [1.9764, 1.0037, 7.2865e-03]\n- [0.3177, 0.26889, 0.094806]'),
    ('bm', 'equation: H2O2 + O <=> OH + HO2\ntype: Blowers-Masel\nrate-constant: {A: 9.63e6, b: 2, Ea0: 4000 cal/mol, w: 1e9}'),
    ('ord', 'equation: H2 + O2 => 2 OH\nrate-constant: ' + A % (1e10, 0, 1000) + '\norders: {H2: 0.5, O2: 1.3}'),
    ('frac', 'equation: 1.5 H2 + 0.5 O2 => H2O + H\nrate-constant: ' + A % (1e10, 0, 1000)),
    ('burke', 'equation: H + HO2 <=> H2 + O2\ntype: linear-Burke\ncolliders:\n- name: M\n  type: falloff\n  low-P-rate-constant: ' + A % (2e10, 0, 0) + '\n  high-P-rate-constant: ' + A % (7e6, 0.37, 0) + '\n  Troe: {A: 0.7, T3: 94.0, T1: 1756.0}\n- name: H2O\n  efficiency: {A: 10, b: 0, Ea: 0}'),
]
UN = 'units: {length: cm, quantity: mol, activation-energy: cal/mol}\n'
HDR = UN + '''
phases:
- name: gas
  thermo: ideal-gas
  species: [{h2o2.yaml/species: all}]
  kinetics: gas
  %s
'''
XS = ['H2:2,O2:1,H:0.1,O:0.05,OH:0.1,H2O:0.3,HO2:0.05,H2O2:0.06,AR:1,N2:1', 'H2:0.3,O2:1,H:0.01,O:0.15,OH:0.02,H2O:1.3,HO2:0.02,H2O2:0.01,AR:0.2']
STATES = [(700., 101325., XS[0]), (1600., 2e6, XS[1])]


def item(y):
    return '- ' + y.replace('\n', '\n  ') + '\n'


def doc(rx, opt='reactions: all', ph=HDR):
    return ph % opt + 'reactions:\n' + ''.join(item(y) for y in rx)


def rates(kin, phs, states=STATES, surf=False):
    out = []
    for st in states:
        for p, s in zip(phs, st if surf else [st]):
            p.TPX = s
        out += [kin.forward_rate_constants, kin.reverse_rate_constants, kin.forward_rates_of_progress, kin.reverse_rates_of_progress]
    return np.array(out)


def prod(kin, phs, states, surf=False):
    out = []
    for st in states:
        for p, s in zip(phs, st if surf else [st]):
            p.TPX = s
        out += [kin.net_production_rates, kin.creation_rates]
    return np.array(out)


class Env:
    """One kind of mechanism: how to make it empty, from text, from a list."""
    def __init__(self, surf):
        self.surf = surf
        if not surf:
            self.pool = P0
            self.states = STATES
            self.g = ct.Solution('h2o2.yaml', transport_model=None)
        else:
            self.src = open(models.R + '/data/ptcombust.yaml').read()
            self.pool = SURF
            x = 'CH4:0.1,O2:0.2,H2:0.1,CO:0.1,H2O:0.1,N2:0.3,CO2:0.1,OH:0.05,H:0.02,O:0.03'
            s1, s2 = 'PT(S):0.5,H(S):0.3,O(S):0.1,OH(S):0.05,CO(S):0.05', 'PT(S):0.1,O(S):0.5,CO(S):0.2,C(S):0.1,H2O(S):0.1'
            self.states = [((700., 101325., s1), (700., 101325., x)), ((1100., 5e5, s2), (1100., 5e5, x))]
            self.gas = ct.Solution('ptcombust.yaml', 'gas', transport_model=None)
            self.sp = ct.Interface('ptcombust.yaml', 'Pt_surf', adjacent=[self.gas])
        self.ref = {}

    def phs(self, k):
        return [k, self.gas] if self.surf else [k]

    def list(self, rx):
        if self.surf:
            p = ct.Interface(thermo='ideal-surface', kinetics='surface', species=self.sp.species(), reactions=rx, adjacent=[self.gas], name='Pt_surf')
            p.site_density = self.sp.site_density
            return p
        return ct.Solution(thermo='ideal-gas', kinetics='gas', species=self.g.species(), reactions=rx)

    def text(self, rx):
        if self.surf:
            s = UN + '''
phases:
- name: Pt_surf
  thermo: ideal-surface
  species: [{ptcombust.yaml/species: [%s]}]
  kinetics: surface
  reactions: all
  site-density: 2.7063e-09
reactions:
''' % ', '.join(self.sp.species_names) + ''.join(item(y) for y in rx)
            return ct.Interface(yaml=s, adjacent=[self.gas])
        return ct.Solution(yaml=doc(rx), transport_model=None)

    def obj(self, y):
        return ct.Reaction.from_yaml(UN_(y), self.sp if self.surf else self.g)

    def want(self, names):
        d = dict(self.pool)
        for n in names:
            if n not in self.ref:
                k = self.text([d[n]])
                self.ref[n] = (rates(k, self.phs(k), self.states, self.surf), prod(k, self.phs(k), self.states, self.surf))
        return np.hstack([self.ref[n][0] for n in names]), sum(self.ref[n][1] for n in names)


def UN_(y):
    """units inside the reaction text are per-value; rate coefficients given in cm/mol units"""
    return y + '\nunits: {length: cm, quantity: mol, activation-energy: cal/mol}'


SURF = [
    ('ads', 'equation: H2 + 2 PT(S) => 2 H(S)\nrate-constant: {A: 4.4579e+10, b: 0.5, Ea: 0.0}\norders: {PT(S): 1.0}'),
    ('des', 'equation: 2 H(S) => H2 + 2 PT(S)\nrate-constant: {A: 3.7e+21, b: 0.0, Ea: 6.74e4 J/mol}\ncoverage-dependencies:\n  H(S): {a: 0.0, m: 0.0, E: -6000.0 J/mol}'),
    ('stick', 'equation: H + PT(S) => H(S)\nsticking-coefficient: {A: 1.0, b: 0, Ea: 0}'),
    ('stick2', 'equation: O2 + 2 PT(S) => 2 O(S)\nsticking-coefficient: {A: 0.023, b: 0, Ea: 0}\nMotz-Wise: true'),
    ('rev', 'equation: H(S) + O(S) <=> OH(S) + PT(S)\nrate-constant: {A: 3.7e+21, b: 0.0, Ea: 1.15e4 J/mol}'),
    ('sticov', 'equation: CO + PT(S) => CO(S)\nsticking-coefficient: {A: 0.84, b: 0, Ea: 0}\ncoverage-dependencies:\n  CO(S): {a: 0.1, m: 0.5, E: -3000.0 J/mol}\n  PT(S): {a: 0, m: 1, E: 0}'),
    ('bm', 'equation: CO(S) + O(S) <=> CO2(S) + PT(S)\ntype: interface-Blowers-Masel\nrate-constant: {A: 3.7e+21, b: 0.0, Ea0: 1.055e5 J/mol, w: 1e8 J/mol}'),
    ('rev2', 'equation: H2O + PT(S) <=> H2O(S)\nsticking-coefficient: {A: 0.75, b: 0, Ea: 0}'),
    ('bms', 'equation: OH + PT(S) => OH(S)\ntype: sticking-Blowers-Masel\nsticking-coefficient: {A: 0.9, b: 0.0, Ea0: 1e4 J/mol, w: 1e8 J/mol}'),
]

BAD_GAS = [
    ('undeclared', 'equation: H2 + Xx <=> H + OH\nrate-constant: ' + A % (1, 0, 0)), ('unbalanced', 'equation: H2 + O <=> H + 2 OH\nrate-constant: ' + A % (1, 0, 0)),
    ('unbalanced3b', 'equation: 2 H + M <=> H + M\nrate-constant: ' + A % (1, 0, 0)),
    ('unbalancedfo', 'equation: 2 OH (+M) <=> H2O (+M)\ntype: falloff\nlow-P-rate-constant: ' + A % (1, 0, 0) + '\nhigh-P-rate-constant: ' + A % (1, 0, 0)),
    ('orders-rev', 'equation: H2 + O <=> H + OH\nrate-constant: ' + A % (1, 0, 0) + '\norders: {H2: 0.5}'),
    ('orders-neg', 'equation: H2 + O => H + OH\nrate-constant: ' + A % (1, 0, 0) + '\norders: {H2: -0.5}'),
    ('orders-non', 'equation: H2 + O => H + OH\nrate-constant: ' + A % (1, 0, 0) + '\norders: {AR: 0.5}'),
    ('negA', 'equation: H2 + O <=> H + OH\nrate-constant: ' + A % (-1, 0, 0)),
    ('plogM', 'equation: H + OH (+M) <=> H2O (+M)\ntype: pressure-dependent-Arrhenius\nrate-constants:\n- {P: 0.1 atm, A: 1.2, b: 2, Ea: 0}'),
    ('fo-noM', 'equation: H + OH <=> H2O\ntype: falloff\nlow-P-rate-constant: ' + A % (1, 0, 0) + '\nhigh-P-rate-constant: ' + A % (1, 0, 0)),
    ('eff', 'equation: 2 H + M <=> H2 + M\nrate-constant: ' + A % (1, 0, 0) + '\nefficiencies: {Xx: 2}'),
    ('collider', 'equation: 2 H + Xx <=> H2 + Xx\nrate-constant: ' + A % (1, 0, 0)),
    ('surf', 'equation: H2 + O <=> H + OH\nsticking-coefficient: ' + A % (1, 0, 0)),
]
BAD_SURF = [
    ('undeclared', 'equation: H2 + PT(S) => Xx(S)\nrate-constant: ' + A % (1, 0, 0)), ('unbalanced', 'equation: H2 + 2 PT(S) => 2 OH(S)\nrate-constant: ' + A % (1, 0, 0)),
    ('sites', 'equation: H + 2 PT(S) => H(S)\nrate-constant: ' + A % (1, 0, 0)), ('covundef', 'equation: H + PT(S) => H(S)\nrate-constant: ' + A % (1, 0, 0) + '\ncoverage-dependencies:\n  Xx(S): {a: 0, m: 1, E: 0}'),
    ('covmod', None), ('stick-none', 'equation: H(S) + O(S) <=> OH(S) + PT(S)\nsticking-coefficient: ' + A % (1, 0, 0)),
    ('stick-two', 'equation: H + OH + PT(S) => H2O(S)\nsticking-coefficient: ' + A % (1, 0, 0)),
    ('negA', 'equation: H + PT(S) => H(S)\nrate-constant: ' + A % (-1, 0, 0)),
]


def try_bad(ctx, env, kin, names, i, key):
    """apply the i-th refused operation; returns its name."""
    bad = BAD_SURF if env.surf else BAD_GAS
    d = dict(env.pool)
    nops = len(bad) + 5
    i = i % nops
    what = None
    try:
        if i < len(bad):
            what = bad[i][0]
            if bad[i][1] is None:     # replacement by the same reaction with an undeclared coverage dependency
                j = len(names) - 1
                r = env.obj(d[names[j]])
                if not hasattr(r.rate, 'coverage_dependencies'):
                    raise ValueError()
                dd = r.input_data
                dd['coverage-dependencies'] = {'Xx(S)': {'a': 0, 'm': 1, 'E': 0}}
                kin.modify_reaction(j, ct.Reaction.from_dict(dd, kin))
            else:
                kin.add_reaction(ct.Reaction.from_yaml(UN_(bad[i][1]), kin))
        else:
            j = i - len(bad)
            last = names[-1]
            other = next(n for n, _ in env.pool if n not in names)
            if j == 0:
                what = 'modify-range'
                kin.modify_reaction(len(names), env.obj(d[last]))
            elif j == 1:
                what = 'modify-neg'
                kin.modify_reaction(-1, env.obj(d[last]))
            elif j == 2:
                what = 'modify-other'
                kin.modify_reaction(len(names) - 1, env.obj(d[other]))
            elif j == 3:
                what = 'modify-products'
                r = env.obj(d[last])
                kin.modify_reaction(len(names) - 1, ct.Reaction(reactants=r.reactants, products={k: 2 * v for k, v in r.products.items()}, rate=r.rate, third_body=r.third_body))
            else:
                what = 'modify-rate'
                r = env.obj(d[last])
                rate = ct.ArrheniusRate(1, 0, 0) if not isinstance(r.rate, ct.ArrheniusRate) else ct.PlogRate([(1e5, ct.Arrhenius(1, 0, 0))])
                kin.modify_reaction(len(names) - 1, ct.Reaction(reactants=r.reactants, products=r.products, rate=rate, third_body=None if r.third_body is None else r.third_body))
    except (ct.CanteraError, IndexError, OverflowError, ValueError):
        return what
    ctx.violation(f'{key}:accepted:{what}', f'{what} accepted by mechanism {names}')
    return what


def compare(ctx, env, kin, names, key, msg):
    w, p = env.want(names)
    if not ctx.eq(f'{key}:n', kin.n_reactions, len(names), f'{msg}: number of reactions'):
        return
    g = rates(kin, env.phs(kin), env.states, env.surf)
    for j, n in enumerate(names):
        ctx.close(f'{key}:{n}', g[:, j], w[:, j], rtol=1e-10, atol=1e-200, msg=f'{msg}: rates of reaction {n} in {names}')
    ctx.close(f'{key}:prod', prod(kin, env.phs(kin), env.states, env.surf), p, rtol=1e-9, scale=np.abs(p).max(axis=1, keepdims=True) * 1e-6, msg=f'{msg}: production rates of {names}')
    ctx.trans()


def run_assembly(task, ctx):
    env = Env(task['surf'])
    th = ctx.tier == 'thorough'
    d = dict(env.pool)
    allnames = [n for n, _ in env.pool]
    pre = 's' if env.surf else 'g'
    sels = [s for s in itertools.permutations(allnames, 3) if s[0] == task['first']]
    cnt = sum(map(ord, task['first']))
    for s in sels:
        cnt += 1
        s = list(s)
        routes = range(5) if th else [cnt % 5, (cnt + 2) % 5]
        ctx.state((pre, tuple(s)))
        for r in routes:
            if r == 0:
                compare(ctx, env, env.text([d[n] for n in s]), s, f'{pre}:text', 'from text')
            elif r == 1:
                compare(ctx, env, env.list([env.obj(d[n]) for n in s]), s, f'{pre}:list', 'from objects')
            elif r == 2:
                k = env.list([])
                for i, n in enumerate(s):
                    k.add_reaction(env.obj(d[n]))
                    compare(ctx, env, k, s[:i + 1], f'{pre}:one-by-one', 'one by one with queries')
            elif r == 3:
                k = env.text([d[n] for n in s[:2]])
                st = env.states[0]
                if cnt % 2:
                    compare(ctx, env, k, s[:2], f'{pre}:text2', 'from text')
                for b in range(3):
                    i = cnt * 3 + b
                    what = try_bad(ctx, env, k, s[:2], i, f'{pre}:refuse')
                    if not ctx.eq(f'{pre}:refused:{what}:n', k.n_reactions, 2, 'number of reactions after a refused operation'):
                        break
                    if b == 1:
                        compare(ctx, env, k, s[:2], f'{pre}:refused:{what}', f'after refused {what}')
                else:
                    k.add_reaction(env.obj(d[s[2]]))
                    compare(ctx, env, k, s, f'{pre}:refused+add', f'after refused operations ending with {what}, then added {s[2]}')
            else:
                k = env.list([env.obj(d[s[0]])])
                for n in s[1:]:
                    o = env.obj(d[n])
                    y = o.input_data
                    o2 = ct.Reaction.from_dict(y, kinetics=k)
                    k.add_reaction(o2)
                compare(ctx, env, k, s, f'{pre}:input_data', 'batch, then from written data')
            ctx.trace()
    # whole pool, rotated/reversed starting with this reaction
    i0 = allnames.index(task['first'])
    rot = allnames[i0:] + allnames[:i0]
    for s in (rot, rot[::-1]):
        compare(ctx, env, env.text([d[n] for n in s]), s, f'{pre}:all-text', 'whole pool from text')
        k = env.list([])
        for n in s:
            k.add_reaction(env.obj(d[n]))
        compare(ctx, env, k, s, f'{pre}:all-add', 'whole pool one by one')
        ctx.trace(2)
    if not env.surf and i0 < 4:
        # sections
        secs = 'reactions: [alpha, beta]'
        y = HDR % secs + 'beta:\n' + ''.join(item(d[n]) for n in rot[5:]) + 'alpha:\n' + ''.join(item(d[n]) for n in rot[:5])
        compare(ctx, env, ct.Solution(yaml=y, transport_model=None), rot, 'g:sections', 'two sections')
    # every refused operation on the whole pool
    k = env.list([env.obj(d[n]) for n in rot[:-1]])
    ktxt = env.text([d[n] for n in rot[:-1]])
    eq0 = k.reaction_equations()
    for i in range(len(BAD_SURF if env.surf else BAD_GAS) + 5):
        for kk, lab in ((k, 'list'), (ktxt, 'text')):
            if lab == 'list' and not env.surf and i in (10, 11):
                continue    # undeclared third bodies are skipped silently by this constructor
            what = try_bad(ctx, env, kk, rot[:-1], i, f'{pre}:{lab}')
            ctx.eq(f'{pre}:refused:{what}:eqs', kk.reaction_equations(), eq0, f'equations after refused {what}')
            if kk.n_reactions == len(rot) - 1:
                compare(ctx, env, kk, rot[:-1], f'{pre}:refused:{what}', f'after refused {what}')
            else:
                kk = None
                return
            ctx.trace()


# --- duplicates -------------------------------------------------------------------------------------------------
S1 = ({'H2': 1, 'O': 1}, {'H': 1, 'OH': 1})
R_ = 'rate-constant: ' + A % (1e10, 0, 100)
FO = 'type: falloff\nlow-P-rate-constant: ' + A % (2.3e18, -0.9, 0) + '\nhigh-P-rate-constant: ' + A % (7.4e13, -0.37, 0)
# name, text, class of type/rate, stoichiometry vector, direction, reversible, third body: None or (name, default, {eff})
DUP = [
    ('f', 'equation: H2 + O <=> H + OH\n' + R_, 'A', 'x', 1, True, None),
    ('f>', 'equation: H2 + O => H + OH\n' + R_, 'A', 'x', 1, False, None),
    ('r', 'equation: OH + H <=> O + H2\n' + R_, 'A', 'x', -1, True, None),
    ('r>', 'equation: H + OH => H2 + O\n' + R_, 'A', 'x', -1, False, None),
    ('2f', 'equation: 2 O + 2 H2 <=> 2 H + 2 OH\n' + R_, 'A', 'x', 1, True, None),
    ('bm', 'equation: H2 + O <=> H + OH\ntype: Blowers-Masel\nrate-constant: {A: 1, b: 0, Ea0: 1, w: 1e9}', 'BM', 'x', 1, True, None),
    ('M', 'equation: 2 H + M <=> H2 + M\n' + R_, '3', 'y', 1, True, ('M', 1, {})),
    ('Mr', 'equation: H2 + M => 2 H + M\n' + R_, '3', 'y', -1, False, ('M', 1, {})),
    ('M-AR', 'equation: 2 H + M <=> H2 + M\n' + R_ + '\nefficiencies: {AR: 0}', '3', 'y', 1, True, ('M', 1, {'AR': 0})),
    ('AR', 'equation: 2 H + AR <=> H2 + AR\n' + R_, '3', 'y', 1, True, ('AR', 0, {'AR': 1})),
    ('H2O', 'equation: 2 H + H2O <=> H2 + H2O\n' + R_, '3', 'y', 1, True, ('H2O', 0, {'H2O': 1})),
    ('M0', 'equation: 2 H + M <=> H2 + M\n' + R_ + '\ndefault-efficiency: 0\nefficiencies: {H2O: 2}', '3', 'y', 1, True, ('M', 0, {'H2O': 2})),
    ('el', 'equation: 2 H <=> H2\n' + R_, 'A', 'y', 1, True, None),
    ('fo', 'equation: 2 H (+M) <=> H2 (+M)\n' + FO, 'fo', 'y', 1, True, ('M', 1, {})),
    ('foAR', 'equation: 2 H (+AR) <=> H2 (+AR)\n' + FO, 'fo', 'y', 1, True, ('AR', 0, {'AR': 1})),
    ('p1', 'equation: 3 H2 + 2 O2 => 2 H2O + H2O2\n' + R_, 'A', 'z', 1, False, None),
    ('p2', 'equation: 4 H2 + 3 O2 => 2 H2O + 2 H2O2\n' + R_, 'A', 'w', 1, False, None),
]
SPN = ['H2', 'H', 'O', 'O2', 'OH', 'H2O', 'HO2', 'H2O2', 'AR', 'N2']


def conflict(a, b, mode):
    """None: unrelated or fine; 'E': undeclared duplicate; 'M': explicit/generic overlap handled by mode."""
    if a[2] != b[2] or a[3] != b[3]:
        return None
    if a[4] != b[4] and not a[5] and not b[5]:
        return None
    if a[6] and b[6]:
        def eff(t, s):
            return t[2].get(s, t[1])
        if all(eff(a[6], s) * eff(b[6], s) == 0 for s in SPN):
            return None
        if (a[6][0] == 'M') != (b[6][0] == 'M') and mode != 'error':
            return 'M'
    return 'E'


def expect(forms, flags, mode):
    n = len(forms)
    if n > 2 and mode in ('mark-duplicate', 'modify-efficiency') and any(conflict(a, b, mode) == 'M' for a, b in itertools.combinations(forms, 2)):
        return None     # these options change the reactions while they are compared
    for i, j in itertools.combinations(range(n), 2):
        if not (flags[i] and flags[j]) and conflict(forms[i], forms[j], mode) == 'E':
            return False
    for i in range(n):
        if flags[i] and not any(j != i and flags[j] and forms[j][3] == forms[i][3] for j in range(n)):
            # 'mark-duplicate' may provide the partner
            return False if mode != 'mark-duplicate' else None
    return True


def run_dup(task, ctx):
    mode = task['mode']
    th = ctx.tier == 'thorough'
    n = 0
    first = DUP[task['first']]
    others = [(f, fl) for f in DUP for fl in (0, 1)]
    sels = [[(first, a), (b, c)] for a in (0, 1) for b, c in others]
    if th:
        sels += [[(first, a), x, y] for a in (0, 1) for x in others for y in others]
    else:
        sels += [[(first, 0), x, y] for i, x in enumerate(others) for j, y in enumerate(others) if (i * 7 + j * 3 + task['first']) % 23 == 0]
    for sel in sels:
        forms, flags = [s[0] for s in sel], [s[1] for s in sel]
        want = expect(forms, flags, mode)
        rx = [f[1] + ('\nduplicate: true' if fl else '') for f, fl in sel]
        label = ' | '.join(f[0] + ('*' if fl else '') for f, fl in sel)
        ctx.trans()
        ctx.state((mode, label))
        if want is None:
            continue
        try:
            g = ct.Solution(yaml=HDR % f'reactions: all\n  explicit-third-body-duplicates: {mode}' + 'reactions:\n' + ''.join(item(y) for y in rx), transport_model=None)
            ok = True
        except ct.CanteraError as e:
            ok = False
            ctx.check(f'dup:{mode}:{label}:msg', 'uplicate' in str(e), f'unexpected error {e}')
        k = 'stoich' if {'p1', 'p2'} <= {f[0] for f in forms} else label
        ctx.eq(f'dup:{mode}:{k}', ok, want, f'mechanism [{label}] handling {mode}: accepted vs expected')
        if ok and mode == 'mark-duplicate':
            fl = [r.duplicate for r in g.reactions()]
            for i, j in itertools.combinations(range(len(sel)), 2):
                if conflict(forms[i], forms[j], mode) == 'M':
                    ctx.check(f'dup:mark:{label}', fl[i] and fl[j], f'{label}: not marked duplicate: {fl}')
        if ok and mode == 'modify-efficiency' and len(sel) == 2 and conflict(forms[0], forms[1], mode) == 'M' and not (flags[0] and flags[1]):
            i = 0 if forms[0][6][0] == 'M' else 1
            o = forms[1 - i][6][0]
            ctx.eq(f'dup:modify:{label}', g.reaction(i).third_body.efficiency(o), 0.0, f'{label}: efficiency of {o} after modify-efficiency')
            ctx.eq(f'dup:modify:{label}', g.reaction(1 - i).third_body.efficiency(o), 1.0, f'{label}: explicit collider efficiency')
            h = ct.Solution(thermo='ideal-gas', kinetics='gas', species=g.species(), reactions=g.reactions())
            ctx.close('dup:modify:rates', rates(g, [g]), rates(h, [h]), rtol=1e-10, msg=f'{label}: rates of the mechanism vs of its reactions')


# --- undeclared names -------------------------------------------------------------------------------------------
UND = [  # text, kind of undeclared use
    ('reactant', 'equation: Xx + O <=> H + OH\n' + R_), ('product', 'equation: H2 + O <=> Xx + OH\n' + R_),
    ('both', 'equation: Xx + O <=> Yy + O\n' + R_), ('reactant3b', 'equation: Xx + O + M <=> H + OH + M\n' + R_),
    ('order', 'equation: H2 + O => H + OH\n' + R_ + '\norders: {Xx: 1}\nnonreactant-orders: true'),
    ('eff', 'equation: 2 H + M <=> H2 + M\n' + R_ + '\nefficiencies: {Xx: 3, AR: 0.5}'), ('efffo', 'equation: 2 H (+M) <=> H2 (+M)\n' + FO + '\nefficiencies: {Xx: 3, AR: 0.5}'),
    ('coll', 'equation: 2 H + Xx <=> H2 + Xx\n' + R_), ('collfo', 'equation: 2 H (+Xx) <=> H2 (+Xx)\n' + FO)]


def run_und(task, ctx):
    d = dict(P0)
    for (kind, y), rule, skip, pos in itertools.product(UND, ('all', 'declared-species', 'none', None), (None, True, False), (0, 1, 2)):
        rx = [d['irr'], d['troe']]
        rx.insert(pos, y)
        opt = ''
        if rule:
            opt += f'reactions: {rule}\n  '
        if skip is not None:
            opt += f'skip-undeclared-third-bodies: {str(skip).lower()}\n  '
        ctx.trans()
        ctx.state((kind, rule, skip, pos))
        spc = kind in ('reactant', 'product', 'both', 'reactant3b', 'order')
        drop = False
        if rule == 'none':
            want, n = True, 0
        elif spc:
            want, n = rule == 'declared-species', 2
            drop = True
        elif kind in ('eff', 'efffo'):
            want, n = bool(skip), 3
        elif kind == 'coll':
            # explicit collider of a three-body reaction that is not a declared species: an undeclared reactant as well
            want, n = (True, 2) if skip or rule == 'declared-species' else (False, 2)
            drop = True
            if rule == 'declared-species' and not skip:
                want = None
        else:
            want, n = bool(skip), 2
            drop = True
            if rule == 'declared-species' and not skip:
                want = None
        key = f'und:{kind}:{rule}:{skip}'
        try:
            g = ct.Solution(yaml=HDR % opt + 'reactions:\n' + ''.join(item(t) for t in rx), transport_model=None)
        except ct.CanteraError as e:
            if want:
                ctx.violation(key, f'refused: {str(e)[-300:]}')
            continue
        if want is None:
            ctx.skip('unspecified combination')
            continue
        if not want:
            ctx.violation(key, f'accepted with {g.n_reactions} reactions')
            continue
        ctx.eq(key, g.n_reactions, n, 'number of reactions')
        if n:
            ref = ct.Solution(yaml=HDR % '' + 'reactions:\n' + ''.join(item(t.replace('Xx: 3, ', '')) for t in rx if not (drop and t is y)), transport_model=None)
            ctx.close(key + ':rates', rates(g, [g]), rates(ref, [ref]), rtol=1e-12, msg='rates with undeclared species removed')


def tasks(tier):
    out = [dict(kind='asm', surf=False, first=n) for n, _ in P0] + [dict(kind='asm', surf=True, first=n) for n, _ in SURF]
    out += [dict(kind='dup', mode=m, first=i) for m in ('error', 'mark-duplicate', 'modify-efficiency', 'warn') for i in range(len(DUP))]
    out += [dict(kind='und')]
    return out


def run(task, ctx):
    {'asm': run_assembly, 'dup': run_dup, 'und': run_und}[task['kind']](task, ctx)
