"""C36: small graphs of objects sharing phases; every order of release, replacements and failing operations, with the species lock and the values of what remains checked after every step."""
import gc, itertools, json, os, pickle, shutil, subprocess, sys, tempfile
import numpy as np, cantera as ct
import models
from c28 import forked

PROPERTY, LEVEL = 'C36', 'model_checking'
BUILD = ['py']
TECHNIQUE = ('stateless exploration of the built module: all graphs of up to 3 (4) objects over a shared gas and surface phase, every order in which the handles are dropped, with a reference reachability model deciding after each step '
             'whether the phase may accept a species, and the values of every remaining object compared with the same graph in which nothing was dropped; replacement and failing operations inserted at every position; in forked processes')
LEVEL_NOTE = 'All graphs and orders inside the bounds are run. Reachability between handles (a device keeps its reactors, reactors keep their devices, a network keeps its reactors) is part of the reference model.'
RULE = 'A case is one judged attempt to add a species or one comparison of values; states are distinct (graph, set of live handles, last operation).'
ASSUMPTIONS = ['a handle is gone once it is unreachable and the garbage collector has run', 'an object of the listed kinds uses the phases it was created from']
BOUNDS = {'quick': 'graphs of <= 3 objects beside the phases, creation in one order, all release orders; operations at each position for graphs of 1 object',
          'thorough': 'graphs of <= 4 objects (3 with all creation orders); operations at each position for graphs of 2 objects'}

Y = '''
phases:
- {name: gas, thermo: ideal-gas, species: [{h2o2.yaml/species: [H2, O2, OH, H2O, AR]}], kinetics: gas, reactions: [gas-reactions], transport: mixture-averaged, state: {T: 1100, P: 1 atm, X: {H2: 2, O2: 1, AR: 3, OH: 0.01}}}
- {name: gas2, thermo: ideal-gas, species: [{h2o2.yaml/species: [H2, O2, OH, H2O, AR]}], kinetics: gas, reactions: [gas-reactions], transport: mixture-averaged, state: {T: 900, P: 2 atm, X: {H2: 1, O2: 1, AR: 3}}}
- {name: surf, thermo: ideal-surface, adjacent-phases: [gas], site-density: 2.7e-09, species: [PT(S), H(S)], kinetics: surface, reactions: [surf-reactions], state: {T: 1100, P: 1 atm, coverages: {PT(S): 0.5, H(S): 0.5}}}
- {name: solid, thermo: fixed-stoichiometry, species: [C(gr)], state: {T: 1100, P: 1 atm}}
species:
- {name: PT(S), composition: {Pt: 1}, sites: 1, thermo: {model: constant-cp, T0: 298.15, h0: 0, s0: 0, cp0: 0}}
- {name: H(S), composition: {Pt: 1, H: 1}, sites: 1, thermo: {model: constant-cp, T0: 298.15, h0: -3.0e+7, s0: 1e4, cp0: 1e4}}
- {name: C(gr), composition: {C: 1}, thermo: {model: constant-cp, T0: 298.15, h0: 0, s0: 5740, cp0: 8500}, equation-of-state: {model: constant-volume, density: 2.26 g/cm^3}}
gas-reactions:
- {equation: H2 + O2 <=> 2 OH, rate-constant: {A: 1.7e10, b: 0, Ea: 200 kJ/mol}}
- {equation: OH + H2 <=> H2O + H2, rate-constant: {A: 1e4, b: 0, Ea: 1000}, duplicate: true}
surf-reactions:
- {equation: H2 + 2 PT(S) <=> 2 H(S), rate-constant: {A: 4.46e7 , b: 0.5, Ea: 0}}
'''.replace('- {equation: OH + H2 <=> H2O + H2, rate-constant: {A: 1e4, b: 0, Ea: 1000}, duplicate: true}\n', '- {equation: OH + OH + H2 <=> H2O + H2O, rate-constant: {A: 1e4, b: 0, Ea: 1000}}\n')
NEW = {'gas': 'N2', 'gas2': 'N2', 'surf': None, 'solid': None}
SPN = {s.name: s for s in ct.Species.list_from_file('h2o2.yaml')}
DEFS = {n: ct.Solution(yaml=Y, name=n, transport_model=None) for n in ('gas',)}


class World:
    pass


def newspecies(phase):
    if phase.name.startswith('gas'):
        s = SPN['N2']
        return ct.Species.from_dict(s.input_data)
    x = ct.Species(f'X{phase.n_species}(S)', {'Pt': 1}, size=1)
    x.thermo = ct.ConstantCp(200, 5000, ct.one_atm, (298.15, 1e6, 1e4, 1e4))
    return x


def mkphases():
    gas = ct.Solution(yaml=Y, name='gas')
    return gas


def mksurf(gas):
    return ct.Interface(yaml=Y, name='surf', adjacent=[gas])


def flame(gas, cls=None):
    f = (cls or ct.FreeFlame)(gas, grid=[0, 0.005, 0.01, 0.02])
    f.inlet.T = 300
    f.inlet.mdot = 0.1
    return f


# name: (constructor(objects), objects required, phases used, kept handles)
K = {
    'gas': (lambda o: mkphases(), [], [], []),
    'gas2': (lambda o: ct.Solution(yaml=Y, name='gas2'), [], [], []),
    'surf': (lambda o: mksurf(o['gas']), ['gas'], ['gas'], ['gas']),
    'R': (lambda o: ct.IdealGasReactor(o['gas'], volume=0.5), ['gas'], ['gas'], ['gas', 'M', 'W', 'RS', 'V']),
    'CP': (lambda o: ct.ConstPressureMoleReactor(o['gas']), ['gas'], ['gas'], ['gas', 'W']),
    'RV': (lambda o: ct.Reservoir(o['gas']), ['gas'], ['gas'], ['gas', 'M', 'V']),
    'M': (lambda o: ct.MassFlowController(o['RV'], o['R'], mdot=0.01), ['RV', 'R'], [], ['RV', 'R']),
    'V': (lambda o: ct.Valve(o['R'], o['RV'], K=1e-6), ['RV', 'R'], [], ['RV', 'R']),
    'W': (lambda o: ct.Wall(o['R'], o['CP'], A=0.3, U=100., K=1e-9), ['R', 'CP'], [], ['R', 'CP']),
    'RS': (lambda o: ct.ReactorSurface(o['surf'], o['R'], A=0.1), ['surf', 'R'], ['surf'], ['surf', 'R']),
    'N': (lambda o: ct.ReactorNet([o[k] for k in ('R', 'CP') if k in o]), ['R'], [], ['R', 'CP']),
    'A': (lambda o: ct.SolutionArray(o['gas'], 3), ['gas'], ['gas'], ['gas']),
    'SL': (lambda o: o['A'][1:3], ['A'], ['gas'], ['gas']),
    'S2': (lambda o: o['SL'][0:1], ['A', 'SL'], ['gas'], ['gas']),
    'Q': (lambda o: ct.Quantity(o['gas'], mass=2.), ['gas'], ['gas'], ['gas']),
    'MX': (lambda o: ct.Mixture([(o['gas'], 2.)]), ['gas'], ['gas'], ['gas']),
    'MC': (lambda o: ct.Mixture([(o['gas'], 2.), (ct.Solution(yaml=Y, name='solid'), 0.1)]), ['gas'], ['gas'], ['gas']),
    'FL': (lambda o: flame(o['gas']), ['gas'], ['gas'], ['gas']),
    'IN': (lambda o: ct.Inlet1D(o['gas'], name='in'), ['gas'], ['gas'], ['gas']),
    'AX': (lambda o: ct.AxisymmetricFlow(o['gas'], name='ax'), ['gas'], ['gas'], ['gas']),
    'SU': (lambda o: ct.ReactingSurface1D(o['surf'], name='su'), ['surf'], ['surf'], ['surf', 'gas']),
}
KINDS = [k for k in K if k not in ('gas', 'gas2', 'surf')]
PHASE = {'R': lambda r: r.thermo, 'CP': lambda r: r.thermo, 'RV': lambda r: r.thermo}


def thval(p):
    return [p.T, p.P, p.density, *p.X, p.cp_mass]


def probe(k, o, seen):
    """values that do not depend on anything but the object itself"""
    if k in ('gas', 'gas2'):
        o.TPX = 1000, 2e5, 'H2:1,O2:2,OH:0.1'
        o.transport_model = o.transport_model
        return [*o.net_production_rates, o.viscosity, o.cp_mass, *o.partial_molar_enthalpies, o.n_total_species]
    if k == 'surf':
        g = o.adjacent['gas']
        g.TPX = 1000, 2e5, 'H2:1,O2:2,OH:0.1'
        o.TP = 1000, 2e5
        o.coverages = [0.3, 0.7]
        return [*o.net_production_rates[-7:], o.cp_mole, o.n_total_species]
    if k in ('R', 'CP', 'RV'):
        t = o.thermo
        v = [o.T, o.density, o.mass if k != 'RV' else 0, o.volume, *thval(t)]
        if k != 'RV':
            v += list(o.kinetics.net_production_rates)
        return v + [len(o.inlets), len(o.outlets), len(o.walls), len(o.surfaces)]
    if k == 'M':
        return [o.mass_flow_coeff]
    if k == 'V':
        return [o.valve_coeff]
    if k == 'W':
        return [o.area, o.heat_transfer_coeff, o.expansion_rate_coeff]
    if k == 'RS':
        return [o.area, *o.coverages]
    if k == 'N':
        return [o.time]
    if k in ('A', 'SL', 'S2'):
        o.TP = 600., 3e5
        return [*o.T, *o.P, *o.cp_mass, *o.net_production_rates.flat, *o.viscosity]
    if k == 'Q':
        return [o.T, o.P, o.mass, o.enthalpy, *o.X]
    if k in ('MX', 'MC'):
        o.T, o.P = 700, 2e5
        return [o.T, o.P, *o.species_moles, *o.chemical_potentials]
    if k == 'FL':
        return [*o.T, *o.grid, *o.X.flat, *o.viscosity, *o.net_production_rates.flat, *o.cp_mass]
    if k in ('IN', 'SU'):
        return [o.T, o.n_points]
    if k == 'AX':
        return [o.P, *o.grid, o.n_components]


def advance(o):
    """last use: what needs the connections"""
    v = []
    if 'N' in o:
        n = o['N']
        n.rtol = 1e-8
        n.advance(n.time + 1e-4)
        v += list(n.get_state())
        n.reinitialize()
    if 'A' in o:
        o['A'].equilibrate('TP')
        v += list(o['A'].X.flat)
    if 'Q' in o:
        o['Q'].equilibrate('HP')
        v += [o['Q'].T]
    if 'MX' in o:
        o['MX'].equilibrate('TP')
        v += list(o['MX'].species_moles)
    if 'FL' in o:
        o['FL'].transport_model = 'multicomponent'
        v += list(o['FL'].viscosity)
        o['FL'].transport_model = 'mixture-averaged'
    return v


def close_graph(ks):
    """graph with everything its members need, in the order of K"""
    s = set(ks)
    while True:
        t = s | {q for k in s for q in K[k][1]}
        if t == s:
            break
        s = t
    return [k for k in K if k in s]


def reach(held, made, edges):
    s = set(held)
    st = list(held)
    while st:
        k = st.pop()
        for q in edges.get(k, ()):
            if q in made and q not in s:
                s.add(q)
                st.append(q)
    return s


def can_add(phase):
    n = phase.n_species
    x = newspecies(phase)
    if x.name in phase.species_names:
        return 'present', 0
    try:
        phase.add_species(x)
        return 'added', phase.n_species - n
    except ct.CanteraError as e:
        return 'refused', phase.n_species - n


def expect_lock(ph, held, made, edges, users):
    live = reach(held, made, edges)
    return any(ph in users.get(k, ()) for k in live)


def find_phase(ph, o, extra):
    if ph in o:
        return o[ph]
    if ph == 'gas' and 'surf' in o:
        return o['surf'].adjacent['gas']
    for k, v in o.items():
        if k in ('A', 'SL', 'S2', 'Q'):
            if ph == 'gas':
                return v._phase
        if k == 'FL' and ph == 'gas':
            return v.gas
        if k in ('IN', 'AX') and ph == 'gas':
            return v.phase
        if k == 'SU' and ph == 'surf':
            return v.phase
        if k == 'N' and ph in extra['R']:
            return v.reactors[0].thermo
        if k == 'RS' and ph == 'surf':
            return v.kinetics
        if k in ('MX', 'MC') and ph == 'gas':
            return v.phase(0) if hasattr(v, 'phase') else None
        if k in ('R', 'CP', 'RV') and ph in extra[k]:
            return v.thermo
    return None


def run_order(graph, order, ops, res, base=None, cyclic=False):
    """graph: creation order; order: order of release; ops: {position: [op names]}. Appends (kind, key, message) or counts to res."""
    o, made = {}, set(graph)
    edges = {k: list(K[k][3]) for k in graph}
    users = {k: list(K[k][2]) for k in graph}
    name = '+'.join(k for k in graph)
    for k in graph:
        o[k] = K[k][0](o)
    want = base if base is not None else {k: probe(k, o[k], None) for k in o}
    hist = []

    def judge():
        for ph in ('gas', 'surf', 'gas2'):
            if ph not in made:
                continue
            p = find_phase(ph, o, users)
            if p is None:
                continue
            got = can_add(p)
            lock = expect_lock(ph, list(o), made, edges, users)
            res.append(('n',))
            who = sorted(k for k in reach(list(o), made, edges) if ph in users.get(k, ()))
            if lock and got != ('refused', 0):
                # the users of this phase name the call site
                res.append(('v', f'lock:{ph}:{"+".join(who)}', f'a species was {got} to {ph} although {who} use it (graph {name}, released {hist})'))
                return False
            if not lock and got != ('added', 1):
                last = hist[-1] if hist else '-'
                res.append(('v', f'free:{ph}:{name}:{last}', f'adding a species to {ph} was {got} although no user is left (graph {name}, history {hist})'))
                return False
            if got[0] == 'added':
                return None           # the phase has changed: nothing further to compare
        return True

    def values(keys=None):
        for k in list(o):
            try:
                v = probe(k, o[k], None)
            except ct.CanteraError as e:
                res.append(('v', f'value:{k}:{name}', f'{k} failed after {hist}: {str(e)[-300:]}'))
                return False
            res.append(('n',))
            if len(v) != len(want[k]) or not np.allclose(v, want[k], rtol=1e-10, atol=1e-300, equal_nan=True):
                i = [j for j in range(min(len(v), len(want[k]))) if not np.isclose(v[j], want[k][j], rtol=1e-10, atol=1e-300)] or ['length']
                res.append(('v', f'value:{k}:{name}', f'value {i[0]} of {k} changed after {hist}: {v[:12]} instead of {want[k][:12]}'))
                return False
        return True

    for pos in range(len(order) + 1):
        if not values():
            return
        for op in ops.get(pos, ()):
            r = OPS[op](o, users, edges, made, want)
            if r is None:
                continue
            hist.append(op)
            res.append(('n',))
            if r is not True:
                res.append(('v', f'op:{op}:{name}', f'{op} after {hist}: {r}'))
                return
            gc.collect()
            if not values():
                return
        if pos and judge() is not True:
            return
        if pos == 0 and ops.get(0) and judge() is not True:
            return
        res.append(('s', (name, tuple(sorted(o)), hist[-1] if hist else '')))
        if pos < len(order):
            k = order[pos]
            hist.append('-' + k)
            if pos == len(order) - 1 and k not in ('gas', 'surf'):
                # the last use of what remains
                try:
                    advance(o)
                except ct.CanteraError as e:
                    res.append(('v', f'last:{name}', f'last use failed after {hist}: {str(e)[-300:]}'))
                    return
                for q in o:
                    if q == 'gas':
                        probe(q, o[q], None)
            if cyclic:
                box = [o.pop(k)]
                box.append(box)
                del box
            else:
                del o[k]
            gc.collect()
            if pos == len(order) - 1:
                break
    # only phases are kept by the caller of run_order: handled in `full`


def failing(f, kinds=(ct.CanteraError, TypeError, ValueError, IndexError, NotImplementedError, AttributeError, KeyError)):
    try:
        x = f()
    except kinds as e:
        return True
    return f'accepted, giving {type(x)}'


def water():
    return ct.Water()


def op_insert_same(o, users, edges, made, want):
    if 'R' not in o or 'gas' not in o:
        return None
    o['R'].insert(o['gas'])
    o['R'].volume = 0.5
    want['R'] = probe('R', o['R'], None)
    return True


def op_insert_other(o, users, edges, made, want):
    if 'R' not in o or 'gas2' in made:
        return None
    g = K['gas2'][0](o)
    g.TPX = 900, 2e5, 'H2:1,O2:1,AR:3'
    o['R'].insert(g)
    made.add('gas2')
    users['R'] = ['gas2']
    edges['R'] = [q for q in edges['R'] if q != 'gas'] + ['gas2']
    o['gas2'] = g
    users['gas2'], edges['gas2'] = [], []
    want['gas2'] = probe('gas2', g, None)
    g.TPX = 900, 2e5, 'H2:1,O2:1,AR:3'
    o['R'].syncState()
    want['R'] = probe('R', o['R'], None)
    if abs(want['R'][0] - 900) > 1e-9:
        return f"temperature {want['R'][0]} after inserting a phase at 900 K"
    return True


def needs(k, f):
    def op(o, users, edges, made, want):
        if any(q not in o for q in ([k] if isinstance(k, str) else k)):
            return None
        return f(o)
    return op


def swap_transport(o):
    g = o['gas']
    old = g.transport_model
    g.transport_model = 'multicomponent'
    a = K['gas'][0](o)
    a.transport_model = 'multicomponent'
    g.TPX = a.TPX = 800, 1e5, 'H2:1,O2:2,OH:0.1,AR:1'
    if not np.isclose(g.thermal_conductivity, a.thermal_conductivity, rtol=1e-10):
        return 'wrong conductivity after replacing the transport model'
    if 'FL' in o:
        if o['FL'].transport_model != 'multicomponent' and o['FL'].flame.transport_model != 'multicomponent':
            pass
    g.transport_model = old
    return True


def modify_reaction(o):
    """replaced and restored: the kinetics serves every user"""
    g = o['gas']
    r0 = g.reaction(0)
    r = ct.Reaction(equation=r0.equation, rate=ct.Arrhenius(3.4e10, 0, 2e8))
    g.TPX = 1000, 2e5, 'H2:1,O2:2,OH:0.1'
    a = g.net_production_rates.copy()
    g.modify_reaction(0, r)
    b = g.net_production_rates.copy()
    if 'R' in o:
        o['R'].thermo
        o['R'].kinetics.net_production_rates
    g.modify_reaction(0, r0)
    g.TPX = 1000, 2e5, 'H2:1,O2:2,OH:0.1'
    c = g.net_production_rates
    if np.allclose(a, b, rtol=1e-9) or not np.allclose(a, c, rtol=1e-12):
        return 'rates do not follow the replaced reaction'
    return True


OPS = {
    'insert-same': op_insert_same,
    'insert-other': op_insert_other,
    'transport': needs('gas', swap_transport),
    'modify-reaction': needs('gas', modify_reaction),
    'fail:slice-dup': needs('A', lambda o: failing(lambda: o['A'][[0, 0]])),
    'fail:slice-range': needs('A', lambda o: failing(lambda: o['A'][[0, 7]])),
    'fail:slice-slice-dup': needs('SL', lambda o: failing(lambda: o['SL'][[1, 1]])),
    'fail:array-extra': needs('gas', lambda o: failing(lambda: ct.SolutionArray(o['gas'], 3, extra={'q': [1, 2]}))),
    'fail:array-states': needs('gas', lambda o: failing(lambda: ct.SolutionArray(o['gas'], (2,), states=[[1, 2, 3]]))),
    'fail:array-append': needs('A', lambda o: failing(lambda: o['A'].append(T=3, Q=4))),
    'fail:array-meta': needs('gas', lambda o: failing(lambda: ct.SolutionArray(o['gas'], 3, meta={'a': object()}))),
    'fail:insert-water': needs('R', lambda o: failing(lambda: o['R'].insert(water()))),
    'fail:insert-none': needs('R', lambda o: failing(lambda: o['R'].insert(None))),
    'fail:reactor-args': needs('gas', lambda o: failing(lambda: ct.IdealGasReactor(o['gas'], volume='x'))),
    'fail:reactor-kw': needs('gas', lambda o: failing(lambda: ct.Reactor(o['gas'], nothing=3))),
    'fail:mixture': needs('gas', lambda o: failing(lambda: ct.Mixture([(o['gas'], 1), (water(), 1)]))),
    'fail:mixture-moles': needs('gas', lambda o: failing(lambda: ct.Mixture([(o['gas'], 'x')]))),
    'fail:mixture-kind': needs('gas', lambda o: failing(lambda: ct.Mixture([(o['gas'], 1), (3, 1)]))),
    'fail:quantity': needs('gas', lambda o: failing(lambda: ct.Quantity(o['gas'], mass=1, nothing=1))),
    'fail:surface-gas': needs(('gas', 'R'), lambda o: failing(lambda: ct.ReactorSurface(o['gas'], o['R']))),
    'fail:surface-kin': needs('R', lambda o: failing(lambda: ct.ReactorSurface(3, o['R']))),
    'fail:device': needs('R', lambda o: failing(lambda: ct.MassFlowController(o['R'], None))),
    'fail:net': needs('R', lambda o: failing(lambda: ct.ReactorNet([o['R'], 3]))),
    'fail:flame': needs('gas', lambda o: failing(lambda: ct.FreeFlame(o['gas'], grid=[0, 0.1, 0.05]))),
    'fail:flame-kin': needs('gas', lambda o: failing(lambda: ct.FreeFlame(3))),
    'fail:flame-model': needs('FL', lambda o: failing(lambda: setattr(o['FL'], 'transport_model', 'nothing'))),
    'fail:surf1d': needs('gas', lambda o: failing(lambda: ct.ReactingSurface1D(o['gas']))),
    'fail:transport': needs('gas', lambda o: failing(lambda: setattr(o['gas'], 'transport_model', 'nothing'))),
    'fail:add-bad': needs('gas', lambda o: failing(lambda: o['gas'].add_species(ct.Species('ZZ', {'H': 1})))),
    'fail:interface': needs('gas', lambda o: failing(lambda: ct.Interface(yaml=Y, name='surf', adjacent=[ct.Solution(yaml=Y, name='solid')]))),
    'fail:interface2': needs('gas', lambda o: failing(lambda: ct.Interface(yaml=Y.replace('H2 + 2 PT(S) <=>', 'H2 + 3 PT(S) <=>'), name='surf', adjacent=[o['gas']]))),
}


def orders(graph):
    """every order of dropping the handles; the phases are dropped somewhere or never (kept to the end)"""
    rest = [k for k in graph]
    for p in itertools.permutations(rest):
        yield p


def graphs(n):
    seen = set()
    for m in range(1, n + 1):
        for c in itertools.combinations(KINDS, m):
            g = tuple(close_graph(c))
            if g in seen:
                continue
            if len([k for k in g if k in KINDS]) > n:
                continue
            seen.add(g)
            yield g


def creations(graph):
    for p in itertools.permutations(graph):
        if all(p.index(q) < i for i, k in enumerate(p) for q in K[k][1]) and ('N' not in p or 'CP' not in p or p.index('CP') < p.index('N')):
            yield p


def tasks(tier):
    ts = []
    deep = tier == 'thorough'
    gs = list(graphs(4 if deep else 3))
    if not deep:
        # three objects: those that share something beyond the phase, and one representative beside them
        gs = [g for g in gs if len([k for k in g if k in KINDS]) <= 2 or linked(g)]
    for i in range(32 if deep else 16):
        ts.append({'name': f'graphs:{i}', 'what': 'graphs', 'graphs': [list(g) for g in gs[i::32 if deep else 16]]})
    og = [g for g in graphs(2 if deep else 1)] + [g for g in graphs(3) if 'M' in g or 'S2' in g or 'RS' in g]
    for i in range(16):
        ts.append({'name': f'ops:{i}', 'what': 'ops', 'graphs': [list(g) for g in og[i::16]]})
    if deep:
        for i in range(32):
            ts.append({'name': f'creation:{i}', 'what': 'creation', 'graphs': [list(g) for g in list(graphs(3))[i::32]]})
    return ts


def linked(g):
    return any(k in g for k in ('M', 'V', 'W', 'RS', 'N', 'SL', 'SU'))


def batch(runs):
    res = []
    for g, p, ops, cyc in runs:
        run_order(g, p, ops, res, cyclic=cyc)
        if len([x for x in res if x[0] == 'v']) > 20:
            break
    return res


def explore(ctx, label, runs):
    runs = list(runs)
    st, out = forked(lambda: batch(runs), 600)
    if st != 'ok':
        # find the history that ends the process
        out = []
        for r in runs:
            s2, o2 = forked(lambda: batch([r]), 60)
            if s2 != 'ok':
                g, p, ops, cyc = r
                opn = '+'.join(x for v in ops.values() for x in v)
                ctx.violation(f'crash:{"+".join(g)}:{opn}', f'the process ended ({s2} {str(o2)[:300]}) in graph {g}, released in the order {p}, operations {ops}')
                if len(ctx_v(ctx)) > 20:
                    break
            else:
                out += o2
    for x in out:
        if x[0] == 'n':
            ctx.ev()
            ctx.trans()
        elif x[0] == 's':
            ctx.state(x[1])
        else:
            ctx.violation(x[1], x[2])
    ctx.trace(len(runs))
    ctx.outcome((label, len(out)))


def ctx_v(ctx):
    return [x for x in ctx.calls if x[0] == 'violation']


class Recorder:
    def __init__(self):
        self.calls = []
        self.n = {'ev': 0, 'trans': 0, 'trace': 0}
        self.seen = set()

    def __getattr__(self, name):
        def f(*a):
            if name in self.n:
                self.n[name] += a[0] if a else 1
            elif (name, repr(a)) not in self.seen:
                self.seen.add((name, repr(a)))
                self.calls.append((name, a))
        return f


def work(task, ctx):
    gc.collect()
    gc.freeze()
    for g in task['graphs']:
        def rel(g):
            yield from orders(g)
        if task['what'] == 'graphs':
            explore(ctx, g, ([g, p, {}, False] for p in rel(g)))
            explore(ctx, g, ([g, p, {}, True] for p in ([*g], [*reversed(g)])))
        elif task['what'] == 'creation':
            for c in creations(g):
                if list(c) != list(g):
                    explore(ctx, g, ([list(c), p, {}, False] for p in (rel(g) if len(g) < 5 else [list(g), list(reversed(g)), *[list(g[i:] + g[:i]) for i in range(1, len(g))]])))
        else:
            rs = []
            ps = [list(g), list(reversed(g))]
            for op in OPS:
                for p in ps:
                    for pos in range(len(g)):
                        rs.append([g, p, {pos: [op]}, False])
                # twice, and one after another failing one
                rs.append([g, list(reversed(g)), {0: [op, op]}, False])
            explore(ctx, g, rs)
        ctx.sample('+'.join(g))


def run(task, ctx):
    # freed memory is overwritten so that a use of a destroyed object shows
    d = tempfile.mkdtemp(prefix='c36')
    try:
        env = dict(os.environ, MALLOC_PERTURB_='165', GLIBC_TUNABLES='glibc.malloc.tcache_count=0')
        r = subprocess.run([sys.executable, os.path.abspath(__file__), json.dumps(task), d], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
        try:
            calls = pickle.load(open(d + '/result', 'rb'))
        except Exception:
            ctx.violation(f'worker:{task["name"]}', f'worker ended with {r.returncode}: {r.stderr[-400:]}')
            return
        for n, a in calls:
            getattr(ctx, n)(*a)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    rec = Recorder()
    work(json.loads(sys.argv[1]), rec)
    with open(sys.argv[2] + '/result', 'wb') as f:
        pickle.dump(rec.calls + [(k, (v,)) for k, v in rec.n.items()], f)
    os._exit(0)
