"""C22: reactor state vectors: names, indices, read-back, meaning; sensitivity parameters and advance limits."""
import itertools, json, os, subprocess
import numpy as np
import models
import cantera as ct
import c20

PROPERTY, LEVEL = 'C22', 'model_checking'
BUILD = ['py', 'h:net']
TECHNIQUE = ('bounded-exhaustive enumeration of reactor networks and of sequences of parameter registrations / advance-limit settings '
             'on the real classes, against a reference layout of the state vector')
LEVEL_NOTE = 'Every component of every enumerated network is checked in both directions; every parameter is compared with a network whose rate is really changed.'
RULE = 'A case is a network (with a registration order or a sequence of limits). States are distinct (network, state vector) pairs; transitions are calls on it.'
ASSUMPTIONS = ['a name that occurs twice in a reactor (two surfaces with the same species) resolves to the first component of that name',
               'state vectors are physically admissible (no negative mass, temperatures within the range of the thermo data)']
BOUNDS = {'quick': '9x9 node pairs x connections x modes, 1-3 surfaces, 3-node networks; registration orders of up to 3 parameters; limit sequences of depth 2',
          'thorough': 'all modes and mechanisms of C20; registration orders of up to 4; limit sequences of depth 3'}
V = c20.V
R0 = ct.gas_constant


def tasks(tier):
    out = []
    for t in c20.ALL:
        out.append(dict(kind='pair', type=t, g1='h2', g2='pt'))
        if t != 'Reservoir':
            out += [dict(kind='surf', type=t, gas=g) for g in ('pt', 'ms')]
            out.append(dict(kind='sens', type=t))
            out.append(dict(kind='limits', type=t))
        if t in c20.REAL:
            out.append(dict(kind='pair', type=t, g1='pr', g2='rk'))
    n = 4
    out += [dict(kind='three', part=i, of=n) for i in range(n)]
    out.append(dict(kind='flow'))
    out += [dict(kind='integrate', type=t) for t in (c20.CV + c20.CP if tier == 'thorough' else ['IdealGasReactor', 'ConstPressureMoleReactor'])]
    return out


def harness(specs):
    inp = ''.join(json.dumps(s) + '\n' for s in specs)
    p = subprocess.run([f'{V}/build/o/net', models.R + '/data', models.R + '/test/data'], input=inp, capture_output=True, text=True, timeout=800)
    return [c20.fix(json.loads(x)) for x in p.stdout.splitlines()], p


def head(typ):
    cv = typ in c20.CV
    ideal = 'IdealGas' in typ
    e = 'temperature' if ideal else ('int_energy' if cv else 'enthalpy')
    if 'Mole' in typ:
        return [e, 'volume'] if cv else [e]
    return ['mass', 'volume', e] if cv else ['mass', e]


def layout(ctx, key, spec, res):
    orc = c20.Oracle()
    want_names, allnames = [], []
    for i, n in enumerate(spec['nodes']):
        typ = n['type']
        if typ == 'Reservoir':
            continue
        g = orc.gas(n['file'], n['phase'])
        names = head(typ) + list(g.species_names)
        for q in spec.get('surf', []):
            if q['node'] == i:
                names += orc.surf(q['file'], q['phase'], g).species_names
        got = [c[0] for c in res['comp'][i]]
        ctx.eq(f'names:{key}:{i}', got, names, f'component names of {typ}')
        for k, (nm, ix) in enumerate(res['comp'][i]):
            ctx.trans()
            ctx.eq(f'index:{key}:{i}', ix, names.index(nm), f'{typ}: component_index({nm!r}) of component {k}')
        ctx.eq(f'start:{key}:{i}', res['start'][i], len(allnames), f'start of reactor {i} in the global vector')
        allnames += [f'r{i}: {x}' for x in names]
    ctx.eq(f'global:{key}', res['names'], allnames, 'global component names')
    for tag in ('first', 'second'):
        rep = res[tag]
        ctx.state((key, tag))
        y, back = np.array(rep['y']), np.array(rep['back'])
        ctx.eq(f'len:{key}', len(y), len(allnames), 'length of the state vector')
        # massfractions are read back normalised; the vectors written are normalised to rounding
        ctx.close(f'back:{key}', back, y, rtol=1e-8, atol=1e-14, scale=1e-9, msg=f'{tag}: state read back after writing ({allnames})')
        for i, n in enumerate(spec['nodes']):
            st = res['start'][i]
            if st < 0:
                continue
            r = rep['nodes'][i]
            g = orc.gas(n['file'], n['phase'])
            g.TDY = r['T'], r['rho'], r['Y']
            typ = n['type']
            val = dict(mass=r['m'], volume=r['V'], temperature=r['T'], int_energy=r['m'] * g.int_energy_mass, enthalpy=r['m'] * g.enthalpy_mass)
            h = head(typ)
            want = [val[x] for x in h]
            want += list(np.array(r['Y']) * r['m'] / g.molecular_weights if 'Mole' in typ else r['Y'])
            for q, cov in zip(spec.get('surf', []), rep['surf']):
                if q['node'] == i:
                    s = orc.surf(q['file'], q['phase'], g)
                    sz = np.array([sp.size for sp in s.species()])
                    want += list(np.array(cov) * q['area'] * s.site_density / sz if 'Mole' in typ else cov)
            ctx.trans(len(want))
            gy = y[st:st + len(want)]
            sc = np.full(len(want), 1e-13)
            for j, x in enumerate(h):
                if x in ('int_energy', 'enthalpy'):
                    sc[j] = 1e5 * r['m']
            if ctx.close(f'meaning:{key}:{i}', gy, want, rtol=1e-8, scale=sc, msg=f'{tag}: {typ} components {allnames[st:st + len(want)][:6]}...'):
                ctx.trace()


def run_layout(ctx, specs):
    specs = [(k, s) for k, s in specs]
    res, p = harness([s for _, s in specs])
    if len(res) != len(specs):
        ctx.violation('crash', f'program ended with {p.returncode}: {p.stderr[-300:]}')
    for (key, s), r in zip(specs, res):
        ctx.ev()
        if 'error' in r:
            ctx.violation(f'error:{key}', r['error'][:500])
            continue
        layout(ctx, key, s, r)
        ctx.sample(key)


def run(task, ctx):
    k = task['kind']
    if k == 'pair':
        sp = c20.specs_pairs(task['type'], task['g1'], task['g2'], ctx.tier, c20.ALL if task['g1'] == 'h2' else c20.REAL)
        run_layout(ctx, sp if ctx.tier == 'thorough' else sp[::3])
    elif k == 'surf':
        sp = c20.specs_surf(task['type'], task['gas'], ctx.tier)
        # also three surfaces, with the areas and coverages in every order
        t = task['type']
        for perm in itertools.permutations(range(3)):
            ss = [c20.surf(0, task['gas'], j % 2, 0.1 * (j + 1)) for j in perm]
            sp.append((f'surf3-{t}-{perm}', dict(nodes=[c20.node(t, task['gas'], 0), c20.node('IdealGasReactor', task['gas'], 1)],
                                                 surf=ss[:2] + [dict(c20.surf(1, task['gas'], 0, 0.5))] + ss[2:], conns=[], t=0.0)))
        run_layout(ctx, sp)
    elif k == 'three':
        run_layout(ctx, c20.specs_three(ctx.tier)[task['part']::task['of']])
    else:
        globals()[k](ctx, task)


# --- sensitivity parameters ---
def sens(ctx, task):
    typ = task['type']
    ideal = 'IdealGas' in typ
    ev = [dict(node=0, rxn=2), dict(node=1, rxn=2), dict(surf=0, rxn=3)]
    if ideal:
        ev.append(dict(node=0, species=1))
    if ctx.tier == 'thorough':
        ev += [dict(node=0, rxn=0), dict(surf=1, rxn=3)]
    depth = 3 if ctx.tier == 'quick' else 4

    def base():
        return dict(nodes=[c20.node(typ, 'pt', 0, 1.5, name='left'), c20.node('IdealGasReactor', 'h2', 1, 0.7, name='right')],
                    surf=[c20.surf(0, 'pt', 0, 0.3), c20.surf(0, 'pt', 1, 0.2)], conns=[], t=0.0, fresh=1)
    # ptcombust gas has no reactions: use h2 for the rates of node 0 when needed
    b0 = base()
    g0 = ct.Solution(b0['nodes'][0]['file'], b0['nodes'][0]['phase'], transport_model=None)
    if True:  # a gas with this composition and a few fast reactions
        b0['nodes'][0].update(file=os.path.join(c20.HERE, 'data', 'ptgas.yaml'), phase='gas', X='CH4:0.095,O2:0.21,AR:0.6,H:1e-4,CO:0.01,OH:0.01,H2:0.1')
        g0 = ct.Solution(b0['nodes'][0]['file'], 'gas', transport_model=None)
    s0 = ct.Interface('ptcombust.yaml', 'Pt_surf')
    g1 = ct.Solution('h2o2.yaml', 'ohmech', transport_model=None)
    # reference derivatives for each parameter alone, by really changing the rate in a separate network
    specs = [json.loads(json.dumps(b0))]
    for e in ev:
        s = json.loads(json.dumps(b0))
        if 'surf' in e:
            s['surf'][e['surf']]['mult'] = {str(e['rxn']): 1.3}
        elif 'rxn' in e:
            s['nodes'][e['node']]['mult'] = {str(e['rxn']): 1.3}
        else:
            s['nodes'][e['node']]['dh'] = {str(e['species']): 2e6}
        specs.append(s)
    seqs = [q for d in range(1, depth + 1) for q in itertools.permutations(range(len(ev)), d)]
    seqs.append((0, 0))
    for q in seqs:
        s = json.loads(json.dumps(b0))
        s['sens'] = [ev[i] for i in q]
        specs.append(s)
    res, p = harness(specs)
    if len(res) != len(specs):
        ctx.violation(f'sens-crash:{typ}', p.stderr[-400:])
        return
    for r in res:
        if 'error' in r:
            ctx.violation(f'sens-error:{typ}', r['error'][:500])
            return
    ref = [np.array(r['first']['yd']) for r in res[1:1 + len(ev)]]
    y0 = np.array(res[0]['first']['yd'])
    sc = np.abs(y0).max()
    for e, r in zip(ev, ref):
        ctx.check(f'sens-vacuous:{typ}:{e}', (np.abs(r - y0) > 1e-9 * np.abs(y0)).any(), 'the changed parameter has no effect on the derivative')

    def name(e):
        if 'surf' in e:
            return None, s0.reaction(e['rxn']).equation
        n = ['left', 'right'][e['node']]
        g = [g0, g1][e['node']]
        return n, g.reaction(e['rxn']).equation if 'rxn' in e else f'{g.species_name(e["species"])} enthalpy'
    for q, r in zip(seqs, res[1 + len(ev):]):
        ctx.ev()
        ctx.state(('sens', typ, q))
        ok = ctx.eq(f'sens-n:{typ}:{q}', len(r['params']), len(q), 'number of sensitivity parameters')
        # with all parameters at their nominal values nothing changes
        ok &= ctx.close(f'sens-nominal:{typ}:{q}', r['first']['yd'], y0, rtol=1e-9, scale=1e-12 * sc, msg='derivative with parameters at nominal values')
        for i, pr in zip(q, r['params']):
            ctx.trans()
            if q != (0, 0):
                scale = np.maximum(1e-6 * np.abs(ref[i] - y0), 1e-15 * sc)
                ok &= ctx.close(f'sens:{typ}:{q}:{i}', np.array(pr['yd']), ref[i], rtol=1e-8, scale=np.abs(y0).max() * 1e-13,
                                msg=f'derivative with parameter {ev[i]} ({pr["name"]}) changed vs network with that rate changed')
            n, w = name(ev[i])
            if n:
                ok &= ctx.eq(f'sens-name:{typ}:{q}:{i}', pr['name'], f'{n}: {w}', 'parameter name')
            else:
                ok &= ctx.check(f'sens-name:{typ}:{q}:{i}', pr['name'].endswith(w), f'parameter name {pr["name"]!r} is not that of {w!r}')
        # nothing of the parameters stays in the phases
        want = [np.r_[np.ones(g.n_reactions), [h for h in hf(g)]] for g in (g0, g1)] + [np.ones(s0.n_reactions)] * 2
        for a, b in zip(r['after'], want):
            ok &= ctx.close(f'sens-reset:{typ}:{q}', a, b, rtol=1e-10, msg='rate multipliers / heats of formation after evaluation')
        if ok:
            ctx.trace()


def hf(g):
    g.TP = 298.15, ct.one_atm
    return g.standard_enthalpies_RT * R0 * 298.15


# --- advance limits ---
def limits(ctx, task):
    typ = task['type']
    depth = 2 if ctx.tier == 'quick' else 3

    def make(order):
        g = ct.Solution('ptcombust.yaml', 'gas', transport_model=None)
        g.TPX = 900, ct.one_atm, 'CH4:0.1,O2:0.2,AR:0.7'
        h = ct.Solution('h2o2.yaml', 'ohmech', transport_model=None)
        h.TPX = 900, ct.one_atm, 'H2:2,O2:1,AR:3'
        r1, r2 = getattr(ct, typ)(g, name='r1'), ct.IdealGasReactor(h, name='r2')
        s = ct.Interface('ptcombust.yaml', 'Pt_surf', adjacent=[g])
        s.TP = g.TP
        S = ct.ReactorSurface(s, r1, A=0.1)
        rs = [r1, r2][::order]
        return ct.ReactorNet(rs), rs, (r1, r2, S, s, g, h)
    for order in (1, -1):
        net, rs, keep = make(order)
        net.initialize()
        idx = {}
        n = 0
        for r in rs:
            for k in range(r.n_vars):
                idx.setdefault((r.name, r.component_name(k)), n + k)
                ctx.eq(f'py-name:{typ}', net.component_name(n + k), f'{r.name}: {r.component_name(k)}', 'network component name')
                nm = r.component_name(k)
                ctx.eq(f'py-global:{typ}', net.global_component_index(nm, rs.index(r)), n + r.component_index(nm), f'global_component_index({nm})')
            n += r.n_vars
        ctx.eq(f'py-n:{typ}', net.n_vars, n, 'n_vars')
        for j, r in enumerate(rs):
            try:
                got = net.global_component_index('no-such-component', j)
                ctx.violation(f'py-unknown:{typ}', f'global_component_index of an unknown component in reactor {j} gave {got}')
            except (IndexError, ct.CanteraError, ValueError):
                pass
            try:
                r.set_advance_limit('no-such-component', 1.0)
                ctx.violation(f'limit-unknown:{typ}', 'advance limit for an unknown component accepted')
            except (IndexError, ct.CanteraError, ValueError):
                pass
        comps = [(rs[0].name, c) for c in (rs[0].component_name(0), rs[0].component_name(rs[0].n_vars - 1), 'H2')] + \
                [(rs[1].name, c) for c in (rs[1].component_name(0), 'O2', rs[1].component_name(rs[1].n_vars - 1))]
        ops = [(c, v) for c in comps for v in (0.25, 3.0, None)]
        for d in range(1, depth + 1):
            for seq in itertools.product(range(len(ops)), repeat=d):
                ref = np.full(n, -1.0)
                for q in seq:
                    (rn, c), v = ops[q]
                    [r for r in rs if r.name == rn][0].set_advance_limit(c, v)
                    ref[idx[rn, c]] = -1.0 if v is None else v
                    ctx.trans()
                    ok = ctx.eq(f'limits:{typ}:{order}', net.advance_limits.tolist(), ref.tolist(), f'advance limits after {[ops[i] for i in seq]}')
                ctx.ev()
                ctx.state((typ, order, tuple(ref)))
                if ok:
                    ctx.trace()
                net.advance_limits = None
                if not ctx.eq(f'limits-clear:{typ}', net.advance_limits.tolist(), [-1.0] * n, 'limits after clearing'):
                    return
        # whole-vector assignment addresses the same components
        for k in range(n):
            v = np.full(n, -1.0)
            v[k] = 0.5
            net.advance_limits = v
            ctx.trans()
            ctx.eq(f'limits-vec:{typ}', net.advance_limits.tolist(), v.tolist(), f'advance_limits with component {k} set')
        net.advance_limits = None
        # a limit stops the integration early, for its own component
        gT = [r for r in rs if r.name == 'r2'][0]
        net.advance(1e-9)
        for name, lim in (('temperature', 20.0), ('H2', 1e-3)):
            gT.set_advance_limit(name, lim)
            t = net.time
            for _ in range(3):
                y0 = net.get_state()
                t1 = net.advance(t + 0.01)
                ctx.trans()
                ctx.eq(f'limit-time:{typ}', t1, net.time, 'returned time of a limited advance')
                k = idx['r2', name]
                dy = abs(net.get_state()[k] - y0[k])
                ctx.check(f'limit-held:{typ}:{name}', dy <= 2 * lim, f'{name} changed by {dy} with advance limit {lim}')
                if t1 >= t + 0.01:
                    break
                t = t1
            gT.set_advance_limit(name, None)
        y0 = net.advance(net.time + 1e-3)


# --- FlowReactor ---
def flow(ctx, task):
    for nsurf in (0, 1, 2):
        for en in ('on', 'off'):
            g = ct.Solution('ptcombust.yaml', 'gas', transport_model=None)
            g.TPX = 900, ct.one_atm, 'CH4:0.1,O2:0.2,AR:0.7'
            r = ct.FlowReactor(g, energy=en)
            r.area = 0.02
            r.mass_flow_rate = 0.003
            S, P = [], []
            for j in range(nsurf):
                s = ct.Interface('ptcombust.yaml', 'Pt_surf', adjacent=[g])
                s.TP = g.TP
                s.coverages = c20.SURF['pt'][2][j]
                S.append(ct.ReactorSurface(s, r))
                P.append(s)
            net = ct.ReactorNet([r])
            key = f'flow:{nsurf}:{en}'
            try:
                net.initialize()
            except ct.CanteraError as e:
                ctx.skip('flow-init')
                ctx.violation(key, f'FlowReactor not initialised: {str(e)[:300]}')
                continue
            names = ['density', 'speed', 'pressure', 'temperature'] + g.species_names + sum([s.species_names for s in P], [])
            ctx.ev()
            ctx.eq(key + ':names', [r.component_name(k) for k in range(r.n_vars)], names, 'component names')
            for k, nm in enumerate(names):
                ctx.eq(key + ':index', r.component_index(nm), names.index(nm), f'component_index({nm})')
            ctx.state(key)
            ctx.trace()


# --- sensitivities of an integrated network vs finite differences ---
def integrate(ctx, task):
    typ = task['type']

    def make(par=None, f=1.0):
        g = [ct.Solution('h2o2.yaml', 'ohmech', transport_model=None) for _ in (0, 1)]
        r = []
        for j, q in enumerate(g):
            q.TPX = 1000 + 60 * j, ct.one_atm, 'H2:2,O2:1,AR:10'
            if par and par[0] == j:
                q.set_multiplier(f, par[1])
            r.append((getattr(ct, typ) if j else ct.IdealGasConstPressureReactor)(q, name=f'r{j}'))
        net = ct.ReactorNet(r)
        net.rtol, net.atol = 1e-10, 1e-19
        return net, r, g
    pars = [(0, 0), (1, 0), (1, 2), (0, 10)]
    times = [2e-5, 6e-5]
    for perm in itertools.permutations(range(len(pars)), 2) if ctx.tier == 'quick' else itertools.permutations(range(len(pars)), 3):
        net, r, g = make()
        for i in perm:
            r[pars[i][0]].add_sensitivity_reaction(pars[i][1])
        net.rtol_sensitivity, net.atol_sensitivity = 1e-6, 1e-8
        sens = []
        for t in times:
            net.advance(t)
            sens.append(net.sensitivities().copy())
            ctx.trans()
            for j in (0, 1):
                for c in ('temperature' if j == 0 else r[1].component_name(0), 'H2', 'OH'):
                    for p in range(len(perm)):
                        ctx.close(f'sens-named:{typ}', net.sensitivity(c, p, j), net.sensitivities()[net.global_component_index(c, j), p], rtol=1e-12,
                                  msg=f'sensitivity({c!r}, {p}, {j}) vs matrix')
            for j in (0, 1):
                try:
                    v = net.sensitivity('no-such-component', 0, j)
                    ctx.violation(f'sens-unknown:{typ}', f'sensitivity of an unknown component in reactor {j} gave {v}')
                except (IndexError, ct.CanteraError, ValueError):
                    pass
        for q, i in enumerate(perm):
            key = (typ, i)
            if key not in FD:
                h = 2e-3
                FD[key] = []
                lo, hi = make(pars[i], 1 - h)[0], make(pars[i], 1 + h)[0]
                for t in times:
                    lo.advance(t)
                    hi.advance(t)
                    a, b = lo.get_state(), hi.get_state()
                    FD[key].append((b - a) / (2 * h) / np.maximum(0.5 * (a + b), 1e-300))
            for m, t in enumerate(times):
                ctx.ev()
                ctx.state((typ, perm, q, m))
                sc = np.abs(FD[key][m])
                sel = net.get_state() > 1e-12
                if ctx.close(f'sens-fd:{typ}:{perm}', sens[m][sel, q], FD[key][m][sel], rtol=2e-3, atol=2e-5,
                             msg=f'sensitivity to parameter {pars[i]} at t={t} vs finite differences'):
                    ctx.trace()


FD = {}
