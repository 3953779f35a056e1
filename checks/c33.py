"""C33: reaction path diagrams of enumerated mechanisms are compared with an independent account of every element flux; options and histories only select what is shown."""
import itertools, re, collections, warnings
import numpy as np
import cantera as ct

PROPERTY, LEVEL = 'C33', 'exploration'
BUILD = ['py']
TECHNIQUE = 'exhaustive enumeration of reactions over a pool of molecules in several species orders, of states, elements, display options and histories; every diagram (data and dot form) is compared with an independent account of the element fluxes'
LEVEL_NOTE = 'All balanced reactions of 1-2 reactants and 1-2 products (and selected larger ones) over the pool, in forward and backward species order; all products of the option values; all histories of builds, state changes and additions up to the depth.'
RULE = ('The reported one-way flux of every pair of species equals the sum over reactions of rate of progress times atoms of the element passed from one to the other; the net flux into each species equals the net production of the element by it. '
        'Reactions whose partitioning is not determined (more than one reactant species and more than one product species carry the element, and not expressible as A + BC = AB + C) are documented as ignored and contribute nothing.')
ASSUMPTIONS = ['species on both sides of a reaction do not exchange atoms (documented in the source: the diagram contains no loops)', 'where A + BC = AB + C can be read in two ways, the first product is compared with the first reactant in species order']
BOUNDS = {'quick': 'pool of 20 molecules of C, H, O: all 2+2 reactions, 1+2 and 2+1, selected 3+2 / 2+3 and fractional ones, 2 species orders; 5 shipped mechanisms x elements x 3 states; 2x4x5x3x2x2 options; histories of depth 3',
          'thorough': 'pool of 33 molecules, 4 species orders; histories of depth 4'}
warnings.simplefilter('ignore')
ct.suppress_thermo_warnings()
EL = ['C', 'H', 'O']


def pool(n):
    out = []
    for c, h, o in itertools.product(range(3), range(4), range(3)):
        if c + h + o and (c + h + o <= 4 or n > 25):
            out.append({e: v for e, v in zip(EL, (c, h, o)) if v})
    out = sorted(out, key=lambda d: (sum(d.values()), str(d)))[:n - 1]
    return out + [{'C': 1, 'H': 1}]       # an isomer of CH


def name(d, i):
    return ''.join(f'{e}{v}' for e, v in d.items()) + 'x' * (i > 0)


def molecules(n):
    seen, out = collections.Counter(), {}
    for d in pool(n):
        s = name(d, 0)
        out[name(d, seen[s])] = d
        seen[s] += 1
    return out


def total(ms, side):
    t = collections.Counter()
    for s in side:
        for e, v in ms[s].items():
            t[e] += v
    return tuple(t[e] for e in EL)


def enum_reactions(ms):
    by = collections.defaultdict(list)
    for n in (1, 2):
        for side in itertools.combinations_with_replacement(sorted(ms), n):
            by[total(ms, side)].append(side)
    out = []
    for sides in by.values():
        for a, b in itertools.combinations(sides, 2):
            if not set(a) & set(b):
                out.append((a, b))
    return out


def text(side):
    return ' + '.join(side)


def gas_of(ms, order, eqs, **kw):
    sp = []
    for i, s in enumerate(order):
        d = ms[s]
        x = ct.Species(s, d)
        a = [2.5, 1e-4 * (i % 5), 0, 0, 0, -100. * sum(d.values()), 1. + 0.1 * (i % 7)]
        x.thermo = ct.NasaPoly2(200, 5000, ct.one_atm, [1000.] + a + a)
        sp.append(x)
    g = ct.Solution(thermo='ideal-gas', kinetics='gas', species=sp)
    for i, e in enumerate(eqs):
        g.add_reaction(e if isinstance(e, ct.Reaction) else ct.Reaction(equation=e, rate=ct.ArrheniusRate(1e3 * (1 + 0.37 * (i % 11)), 0, 0), **kw))
    g.TPX = 1500., 1e5, {s: 1 + (i * 7) % 5 for i, s in enumerate(order)}
    return g


# ---------------------------------------------------------------- oracle
def account(kin, element, phases=None):
    """one-way fluxes {(k1, k2): flux}, and the reactions which are not accounted for"""
    phases = phases or [kin]
    names, atoms = kin.kinetics_species_names, {}
    for ph in phases:
        for k, n in enumerate(ph.species_names):
            atoms[kin.kinetics_species_index(n) if ph is kin and len(phases) == 1 else kin.kinetics_species_index(ph.species_name(k))] = {e: ph.n_atoms(k, e) for e in ph.element_names}
    ids = {n: k for k, n in enumerate(names)}
    els = sorted({e for a in atoms.values() for e in a})
    def A(k, e):
        return atoms[k].get(e, 0)
    qf, qr = kin.forward_rates_of_progress, kin.reverse_rates_of_progress
    flow, ignored = collections.Counter(), []
    nus_r, nus_p = kin.reactant_stoich_coeffs, kin.product_stoich_coeffs
    for i in range(kin.n_reactions):
        net = nus_p[:, i] - nus_r[:, i]
        R = [(k, -net[k]) for k in range(len(names)) if net[k] < 0]
        P = [(k, net[k]) for k in range(len(names)) if net[k] > 0]
        tot = sum(v * A(k, element) for k, v in R)
        if tot <= 0:
            continue
        nr = sum(A(k, element) > 0 for k, v in R)
        np_ = sum(A(k, element) > 0 for k, v in P)
        part = {}
        if nr == 1 or np_ == 1:
            for (k, v), (l, w) in itertools.product(R, P):
                part[k, l] = v * A(k, element) * w * A(l, element) / tot
        else:
            rl = [k for k, v in R for _ in range(int(v))] if all(v == int(v) for _, v in R) else []
            pl = [k for k, v in P for _ in range(int(v))] if all(v == int(v) for _, v in P) else []
            if len(rl) != 2 or len(pl) != 2:
                ignored.append(i)
                continue
            def contains(a, b):
                return all(A(a, e) >= A(b, e) for e in els)
            part = None
            for x, y in ((0, 1), (1, 0)):        # the product compared with the first reactant
                r0, r1, p0, p1 = rl[0], rl[1], pl[x], pl[y]
                if contains(p0, r0):             # r0 + (b p1) = (r0 b) + p1
                    part = [(r0, p0, A(r0, element)), (r1, p0, A(p0, element) - A(r0, element)), (r1, p1, A(p1, element))]
                elif contains(r0, p0):
                    part = [(r0, p0, A(p0, element)), (r0, p1, A(r0, element) - A(p0, element)), (r1, p1, A(r1, element))]
                if part is not None:
                    break
            if part is None:
                ignored.append(i)
                continue
            d = collections.Counter()
            for a, b, f in part:
                d[a, b] += f
            part = d
        for (k, l), f in part.items():
            if f:
                flow[k, l] += f * qf[i]
                flow[l, k] += f * qr[i]
    return flow, ignored, names, A


def data(d):
    """{(name1, name2): (forward, backward)}, nodes, title"""
    lines = d.get_data().splitlines()
    nodes = lines[1].split()
    f = {}
    for l in lines[2:]:
        a, b, x, y = l.split()
        f[a, b] = (float(x), -float(y))
    return f, nodes, lines[0]


def compare_data(ctx, key, kin, d, element, phases=None, flow=None, msg=''):
    if flow is None:
        flow, ignored, names, A = account(kin, element, phases)
    else:
        names = kin.kinetics_species_names
    f, nodes, _ = data(d)
    ctx.ev(1)
    ids = {n: k for k, n in enumerate(names)}
    want_nodes = {names[k] for p, v in flow.items() if v > 0 for k in p}
    ctx.eq(f'{key}:nodes', set(nodes) ^ want_nodes, set(), f'{msg} {element}: nodes')
    ctx.eq(f'{key}:nodes:twice', len(nodes), len(set(nodes)), f'{msg} {element}')
    ok = True
    for (a, b), (x, y) in f.items():
        for u, v, w in ((a, b, x), (b, a, y)):
            ok &= ctx.close(f'{key}:flux', w, flow.get((ids[u], ids[v]), 0.), 2e-5, 0., f'{msg} flux of {element} from {u} to {v}') is not False
    pairs = {frozenset(p) for p in f}
    ctx.eq(f'{key}:pairs', [names[k] + '-' + names[l] for (k, l), v in flow.items() if v > 0 and frozenset((names[k], names[l])) not in pairs], [], f'{msg} {element}: pairs with flux not reported')
    return ok


def conserve(ctx, key, kin, d, element, phases=None, msg=''):
    """net flux into each species is the net production of the element, whatever the partitioning"""
    flow, ignored, names, A = account(kin, element, phases)
    f, nodes, _ = data(d)
    q = kin.forward_rates_of_progress - kin.reverse_rates_of_progress
    qa = kin.forward_rates_of_progress + kin.reverse_rates_of_progress
    nu = kin.product_stoich_coeffs - kin.reactant_stoich_coeffs
    keep = np.ones(kin.n_reactions)
    keep[ignored] = 0
    for k, n in enumerate(names):
        a = A(k, element)
        got = sum((x - y) * (1 if b == n else -1) for (c, b), (x, y) in f.items() if n in (c, b))
        mag = sum(abs(x) + abs(y) for (c, b), (x, y) in f.items() if n in (c, b))
        want = a * np.dot(nu[k], q * keep)
        ctx.close(f'{key}:production', got, want, 0., 1e-5 * max(mag, a * np.dot(abs(nu[k]), qa * keep)), f'{msg} net flux of {element} into {n}')
    return len(ignored)


# ---------------------------------------------------------------- enumerated mechanisms
def orders(ms, tier):
    s = sorted(ms)
    by = sorted(s, key=lambda n: (sum(ms[n].values()), n))
    out = [s, by[::-1]]
    if tier == 'thorough':
        out += [s[::-1], by]
    return out


def toy(ctx, part, of):
    n = 20 if ctx.tier == 'quick' else 33
    ms = molecules(n)
    rx = enum_reactions(ms)[part::of]
    for order in orders(ms, ctx.tier):
        for i in range(0, len(rx), 40):
            eqs = [f'{text(a)} <=> {text(b)}' if (j + i) % 3 else f'{text(b)} <=> {text(a)}' for j, (a, b) in enumerate(rx[i:i + 40])]
            g = gas_of(ms, order, eqs)
            for el in EL:
                ctx.trans(1)
                ctx.trace(len(eqs))
                d = ct.ReactionPathDiagram(g, el)
                sub = _Count(ctx)
                compare_data(sub, 'toy', g, d, el)
                conserve(sub, 'toy', g, d, el)
                ctx.states_n(len(eqs))
                if sub.bad:          # one by one
                    for j, e in enumerate(eqs):
                        g1 = gas_of(ms, order, [e])
                        d = ct.ReactionPathDiagram(g1, el)
                        compare_data(ctx, 'toy', g1, d, el, msg=f'{e} [{" ".join(order[:4])}...]')
                        conserve(ctx, 'toy', g1, d, el, msg=e)


class _Count:
    """notes only whether something failed"""
    def __init__(self, ctx):
        self.ctx, self.bad = ctx, 0

    def close(self, key, got, want, rtol, atol=0., msg=''):
        if not abs(got - want) <= atol + rtol * abs(want):
            self.bad += 1

    def eq(self, key, got, want, msg=''):
        self.bad += got != want

    def ev(self, n):
        self.ctx.ev(n)


OTHER = ['C1H1O1 + H2 + O1 <=> C1O2 + H3', 'C1H2O1 + O2 => C1O1 + H2 + O2', 'C1H2O1 + O2 => C1O2 + H1 + H1O1', 'C2H2 + O2 => 2 C1H1O1', '2 H1O1 => H2 + O2', 'C2 + 2 H1 => C2H2', '3 O1 + O1 => 2 O2', '2 H2 + O2 => 2 H2O1',
         'C1H1 + 2 O1 + H1 => C1O2 + H2', 'C1H3 + O2 + H1 => C1H2O1 + H2O1', '0.5 O2 + H2 => H2O1', '1.5 H2 + C1 => C1H3', 'C1H1 + 0.5 O2 => C1O1 + H1', '0.5 C2H2 + 0.5 O2 => C1O1 + H1', '0.25 C2 + 0.25 O2 => 0.5 C1O1', 'H2 + 0.5 O2 + C1 => C1O1 + H2',
         '1.5 O2 + H2 => H2O1 + 2 O1', 'H2O1 + 0.5 C2 => C1O1 + H2', 'H1 + O2 + H2O1 => H1O2 + H2O1', '2 H1 + H2 => 2 H2', 'H1 + H2O1 + O1 => 2 H1O1 + H1', 'C1 => C1', 'C1H1 <=> C1H1x', 'H1 + C1H1 => H1 + C1H1x']


def larger(ctx):
    ms = molecules(33)
    for order in orders(ms, 'thorough'):
        for e in OTHER:
            try:
                g = gas_of(ms, order, [e])
            except ct.CanteraError as x:
                ctx.violation('larger:setup', f'{e}: {str(x)[-200:]}')
                continue
            for el in EL:
                ctx.trans(1)
                ctx.state((e, el))
                d = ct.ReactionPathDiagram(g, el)
                compare_data(ctx, 'larger', g, d, el, msg=e)
                conserve(ctx, 'larger', g, d, el, msg=e)
    # third bodies and falloff take no part in the exchange
    order = orders(ms, 'quick')[0]
    arr = ct.Arrhenius(1e3, 0, 0)
    for e, r in (('H1 + H1O1 + M <=> H2O1 + M', ct.ArrheniusRate(1e3, 0, 0)), ('H1 + H1O1 (+M) <=> H2O1 (+M)', ct.LindemannRate(arr, ct.Arrhenius(1e5, 0, 0))), ('H1 + H1O1 (+O2) <=> H2O1 (+O2)', ct.LindemannRate(arr, ct.Arrhenius(1e5, 0, 0))),
                 ('H1 + H1O1 + O2 <=> H2O1 + O2', ct.ArrheniusRate(1e3, 0, 0))):
        for el in EL:
            g = gas_of(ms, order, [ct.Reaction(equation=e, rate=r)])
            ctx.trans(1)
            d = ct.ReactionPathDiagram(g, el)
            compare_data(ctx, 'third', g, d, el, msg=e)
            conserve(ctx, 'third', g, d, el, msg=e)


SHIPPED = [('h2o2.yaml', '', 'HO'), ('gri30.yaml', '', 'CHON'), ('ptcombust.yaml', 'gas', 'CHO'), ('air.yaml', '', 'ON'), ('ohn.yaml', '', 'HON')]


def shipped(ctx, i):
    f, ph, els = SHIPPED[i]
    g = ct.Solution(f, ph) if ph else ct.Solution(f)
    n = g.n_species
    for T, P, X in ((900., 1e5, np.ones(n)), (1800., 2e6, np.arange(n) % 3 + 0.01), (3000., 1e3, np.where(np.arange(n) % 4 == 0, 1., 0.))):
        g.TPX = T, P, X
        for el in els:
            if el not in g.element_names:
                continue
            ctx.trans(1)
            ctx.state((f, el, T))
            d = ct.ReactionPathDiagram(g, el)
            compare_data(ctx, f'shipped:{f}', g, d, el)
            ctx.note('ignored reactions', conserve(ctx, f'shipped:{f}', g, d, el))
            dots(ctx, f'shipped:{f}', g, d, el, full=False)


def surface(ctx):
    for f, s in (('ptcombust.yaml', 'Pt_surf'), ('diamond.yaml', 'diamond_100'), ('sofc.yaml', 'metal_surface')):
        surf = ct.Interface(f, s)
        phases = [surf] + list(surf.adjacent.values())
        phases = sorted(phases, key=lambda p: surf.kinetics_species_index(p.species_name(0)))
        for T in (700., 1200.):
            for p in phases:
                p.TPX = T, 1e5, np.ones(p.n_species)
            surf.coverages = np.ones(surf.n_species)
            for el in sorted({e for p in phases for e in p.element_names} - {'E'}):
                if el.lower() in ('e', 'pt', 'ni'):
                    continue
                ctx.trans(1)
                d = ct.ReactionPathDiagram(surf, el)
                compare_data(ctx, f'surface:{f}', surf, d, el, phases)
                conserve(ctx, f'surface:{f}', surf, d, el, phases)


# ---------------------------------------------------------------- options
EDGE = re.compile(r'^s(\d+) -> s(\d+)\[fontname="([^"]*)", penwidth=([^,]*), arrowsize=([^,]*), color="0.7, ([^,]*), 0.9"\n(?:, label ?= ?"([^"]*)")?\];$', re.M)
NODE = re.compile(r'^s(\d+) \[ fontname="([^"]*)", label="([^"]*)"\];$', re.M)


def dots(ctx, key, g, d, el, full=True, flow=None, msg=''):
    if flow is None:
        flow = account(g, el)[0]
    flow = {p: v for p, v in flow.items() if v > 0}
    names = g.kinetics_species_names
    net = {}
    for (a, b) in flow:
        x = flow[a, b] - flow.get((b, a), 0.)
        if x > 0:
            net[a, b] = x
    deg = collections.Counter(k for p in flow for k in p)
    if not deg:
        return
    locals_ = [-1, max(deg, key=deg.get), min(deg, key=deg.get)]
    if full:
        opts = itertools.product(('NetFlow', 'OneWayFlow'), (-1., 0.02, 1., 5.), (0.005, 0.3, 0.02, 1e-9, 0.), locals_, (False, True), (-5., 2.))
    else:
        opts = [('NetFlow', -1., 0.005, -1, False, -5.), ('OneWayFlow', -1., 0.01, -1, True, -5.), ('NetFlow', -1., 0.05, locals_[1], True, 2.), ('OneWayFlow', -1., 0.001, locals_[1], False, -5.), ('NetFlow', -1., 0.2, -1, False, -5.), ('OneWayFlow', 1., 0.3, -1, False, -5.)]
    for ft, scale, thr, loc, det, width in opts:
        m = f'{msg} {el} {ft} scale {scale} threshold {thr} only {loc} details {det} width {width}'
        ctx.trans(1)
        d.flow_type, d.scale, d.threshold, d.show_details, d.arrow_width, d.title = ft, scale, thr, det, width, 'the title'
        d.display_only(loc)
        ctx.eq(f'{key}:readback', (d.flow_type, d.scale, d.threshold, d.show_details, d.arrow_width), (ft, scale, thr, det, width), m)
        s = d.get_dot()
        fl = net if ft == 'NetFlow' else flow
        mx = max(fl.values()) if scale < 0 else scale
        edges = EDGE.findall(s)
        if not ctx.eq(f'{key}:{ft}:syntax', s.count('->'), len(edges), f'{m}: {[l for l in s.splitlines() if "->" in l][:1]}'):
            continue
        got = {(int(e[0]), int(e[1])): e for e in edges}
        ctx.eq(f'{key}:{ft}:twice', len(got), len(edges), m)
        near = {p for p, v in fl.items() if abs(v / mx - thr) <= 1e-9 * thr}
        want = {p for p, v in fl.items() if v / mx >= thr and (loc == -1 or loc in p)}
        # fluxes which cancel within rounding
        tiny = {p for p, v in fl.items() if ft == 'NetFlow' and v <= 1e-12 * flow[p]} | {(b, a) for (a, b), v in flow.items() if ft == 'NetFlow' and abs(v - flow.get((b, a), 0.)) <= 1e-12 * v}
        diff = (set(got) ^ want) - near - tiny
        ctx.eq(f'{key}:{ft}:edges', sorted((names[a], names[b], fl.get((a, b), 0.) / mx) for a, b in diff), [], m)
        ctx.check(f'{key}:{ft}:finite', 'nan' not in s and 'inf' not in s, f'{m}: {[l for l in s.splitlines() if "nan" in l or "inf" in l][:1]}')
        for p, e in got.items():
            if p not in want or p in tiny:
                continue
            r = fl[p] / mx
            ctx.close(f'{key}:{ft}:color', float(e[5]), r + 0.5, 6e-3, 0., f'{m}: {names[p[0]]} -> {names[p[1]]}')
            if e[6]:
                ctx.close(f'{key}:{ft}:label', float(e[6].split('\\l')[0]), r, 6e-3, 0., f'{m}: {names[p[0]]} -> {names[p[1]]} {e[6]}')
                if det and ft == 'NetFlow':
                    x = dict(re.findall(r'(fwd|rev): ([^\\]*)', e[6]))
                    ctx.close(f'{key}:{ft}:fwd', float(x.get('fwd', 0)), flow[p] / mx, 6e-3, 0., m)
                    ctx.close(f'{key}:{ft}:rev', float(x.get('rev', 0)), flow.get(p[::-1], 0.) / mx, 6e-3, 0., m)
            else:
                ctx.violation(f'{key}:{ft}:label', f'{m}: no label for {names[p[0]]} -> {names[p[1]]}')
        nodes = {int(a): b for a, _, b in NODE.findall(s)}
        ends = {k for p in got for k in p}
        ctx.eq(f'{key}:{ft}:nodes', {names[k] for k in set(nodes) ^ ends}, set(), f'{m}: nodes shown without a path, or missing')
        ctx.eq(f'{key}:{ft}:names', {k: v for k, v in nodes.items() if names[k] != v}, {}, m)
        x = re.search(r'label = "Scale = ([^\\]*)\\l (.*)"', s)
        ctx.eq(f'{key}:{ft}:title', x and x.group(2), 'the title', m)
        ctx.close(f'{key}:{ft}:scale', float(x.group(1)), mx, 0.06, 0., m)


def options(ctx):
    ms = molecules(20)
    rx = enum_reactions(ms)
    eqs = [f'{text(a)} <=> {text(b)}' for a, b in rx[::len(rx) // 12]]
    g = gas_of(ms, sorted(ms), eqs)
    for el in EL:
        d = ct.ReactionPathDiagram(g, el)
        dots(ctx, 'options', g, d, el)
    g = ct.Solution('h2o2.yaml')
    g.TPX = 1300., 1e5, np.ones(g.n_species)
    for el in 'HO':
        d = ct.ReactionPathDiagram(g, el)
        dots(ctx, 'options:h2o2', g, d, el)
    # label threshold
    for v in (0., 0.3, 0.9999999):
        d = ct.ReactionPathDiagram(g, 'H')
        d.label_threshold = v
        s = d.get_dot()
        for e in EDGE.findall(s):
            r = float(e[5]) - 0.5
            if abs(r - v) > 6e-3:
                ctx.eq('options:label-threshold', bool(e[6]), r > v, f'{v}: {e}')
    # an element which is not there
    d = ct.ReactionPathDiagram(g, 'N')
    ctx.trans(1)
    f = d.get_dot()
    ctx.eq('options:no-element', f.count('->'), 0)
    for bad in ('netflow', '', 'X'):
        try:
            d.flow_type = bad
            ctx.violation('options:flow-type', f'{bad!r} accepted')
        except ct.CanteraError:
            ctx.outcome('refused')


# ---------------------------------------------------------------- histories
ST = [(900., 1e5, 'H2:2, O2:1, OH:0.5, H:0.1, AR:3'), (2200., 1e6, 'H2O:2, O:1, HO2:0.1, H2O2:0.2, N2:1'), (1500., 1e5, 'H2:1')]


def histories(ctx, first):
    """a diagram shows the fluxes at the time of its (last) build, whatever happened before"""
    depth = 3 if ctx.tier == 'quick' else 4
    ops = ['build', 'get', 'dot', 'state1', 'state2', 'mult', 'add-reaction', 'add-self-type', 'add-other', 'options']
    for seq in itertools.product(ops, repeat=depth - 1):
        seq = (first,) + seq
        g = ct.Solution('h2o2.yaml')
        g2 = ct.Solution('h2o2.yaml')
        g.TPX = ST[0]
        g2.TPX = 1200., 5e5, 'H2:1, O2:1, HO2:0.1, OH:0.01, H2O:0.3, H:0.02'
        d = ct.ReactionPathDiagram(g, 'H')
        want = None
        m = ' '.join(seq)
        ctx.trans(1)
        ctx.trace(1)
        ctx.state(seq)
        for o in seq:
            try:
                if o == 'build' or o in ('get', 'dot') and want is None:
                    want = dict(account(g, 'H')[0])
                    if o == 'build':
                        d.build()
                if o == 'get':
                    d.get_data()
                elif o == 'dot':
                    d.get_dot()
                elif o == 'state1':
                    g.TPX = ST[1]
                elif o == 'state2':
                    g.TPX = ST[2]
                elif o == 'mult':
                    g.set_multiplier(3., 5)
                    g.set_multiplier(0., 2)
                elif o == 'add-reaction':
                    x = ct.Reaction(equation='H2 + O <=> H2O', rate=ct.ArrheniusRate(1e8 * g.n_reactions, 0, 0))
                    x.duplicate = True
                    g.add_reaction(x)
                elif o.startswith('add-'):
                    other = ct.ReactionPathDiagram(g2 if o == 'add-other' else g, 'H')
                    w2 = account(g2 if o == 'add-other' else g, 'H')[0]
                    if want is None:
                        want = dict(account(g, 'H')[0])
                    if len(seq) % 2:
                        other.build()
                    d.add(other)
                    for p, v in w2.items():
                        want[p] = want.get(p, 0.) + v
                elif o == 'options':
                    d.flow_type, d.threshold, d.scale = 'OneWayFlow', 0.4, 1.
                    if want is None:
                        want = dict(account(g, 'H')[0])
                    d.get_dot()
                    d.flow_type, d.threshold, d.scale = 'NetFlow', 0.005, -1.
            except ct.CanteraError as e:
                ctx.violation(f'history:{o}:raises', f'{m}: {str(e)[-200:]}')
                break
        else:
            if want is None:
                want = dict(account(g, 'H')[0])
            kk = f'history:{"+".join(sorted(set(seq) & {"build", "add-reaction", "add-other", "add-self-type", "mult"}))}'
            compare_data(ctx, kk, g, d, 'H', flow=want, msg=m)
            dots(ctx, kk, g, d, 'H', full=False, flow=want, msg=m)


def tasks(tier):
    n = 6 if tier == 'quick' else 16
    out = [{'k': 'toy', 'part': i, 'of': n} for i in range(n)] + [{'k': 'larger'}, {'k': 'options'}, {'k': 'surface'}]
    out += [{'k': 'shipped', 'i': i} for i in range(len(SHIPPED))]
    out += [{'k': 'histories', 'first': o} for o in ('build', 'get', 'dot', 'state1', 'mult', 'add-reaction', 'add-self-type', 'add-other', 'options')]
    return out


def run(task, ctx):
    k = task['k']
    {'toy': lambda: toy(ctx, task['part'], task['of']), 'larger': lambda: larger(ctx), 'options': lambda: options(ctx), 'surface': lambda: surface(ctx), 'shipped': lambda: shipped(ctx, task['i']), 'histories': lambda: histories(ctx, task['first'])}[k]()
