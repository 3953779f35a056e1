"""C20: mass, element and energy balances of reactor networks, over an enumerated grammar of networks."""
import itertools, json, os, subprocess
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C20', 'model_checking'
BUILD = ['py', 'h:net']
TECHNIQUE = ('bounded-exhaustive enumeration of reactor networks (formulations x topologies x devices x surfaces x chemistry/energy '
             'modes); the right-hand side of the real code is compared with the balance equations evaluated independently, and '
             'closed networks are integrated step by step with the conserved quantities checked after every step')
LEVEL_NOTE = ('Every network of the grammar is built from the real classes; the derivative of every component and the conserved totals '
              'are checked at every enumerated state, and after every internal step of the integrated closed networks.')
RULE = ('A case is a network specification; it is non-trivial when a balance with a nonzero right-hand side was compared. States are '
        'distinct (network, state vector) pairs, transitions are component derivatives compared and integrator steps taken.')
ASSUMPTIONS = ['kinetic rates and thermodynamic properties of single phases at a given state are those of C04/C05/C09/C10',
               'surface reactions carry no energy of adsorbed species (documented reactor equations)',
               'flow devices clamp negative flow to zero (documented)']
BOUNDS = {'quick': 'all ordered pairs of 9 node types x 9 connection sets x modes; chains/rings of 3; surfaces 0-2; 2 states each; '
                   'integration of closed networks, <= 60 steps', 'thorough': 'two mechanisms per node pair, all modes, 3-node products, 400 steps'}
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
NETPHASES = ('net.yaml',)

CV = ['Reactor', 'IdealGasReactor', 'MoleReactor', 'IdealGasMoleReactor']
CP = ['ConstPressureReactor', 'IdealGasConstPressureReactor', 'ConstPressureMoleReactor', 'IdealGasConstPressureMoleReactor']
ALL = CV + CP + ['Reservoir']
REAL = ['Reactor', 'MoleReactor', 'ConstPressureReactor', 'ConstPressureMoleReactor', 'Reservoir']

GAS = dict(
    h2=dict(file='h2o2.yaml', phase='ohmech', X=['H2:2,O2:1,AR:3,OH:0.01,H:0.02', 'H2O:1,H2:0.5,O:0.02,N2:1'], T=[1250., 900.], P=[101325., 3e5]),
    pt=dict(file='ptcombust.yaml', phase='gas', X=['CH4:0.095,O2:0.21,AR:0.6,H:1e-4', 'H2:0.3,O2:0.2,CO:0.1,OH:0.01,AR:0.3'], T=[900., 1100.], P=[101325., 2e5]),
    ms=dict(file='surface-phases.yaml', phase='gas', X=['H2:0.4,Ar:0.6,H:0.01', 'H2:0.8,Ar:0.1,H:0.1'], T=[900., 700.], P=[101325., 2e5]),
    pr=dict(file='co2_PR_example.yaml', phase='CO2-PR', X=['CO2:0.6,H2:0.4,CO:0.2,O2:0.1', 'H2O:0.6,H2:0.2,CO:0.3,N2:0.1'], T=[600., 450.], P=[5e6, 1e6]),
    rk=dict(file=HERE + '/data/rkgas.yaml', phase='rkgas', X=['CO2:0.6,H2:0.4,CO:0.2,O2:0.1', 'H2O:0.6,H2:0.2,CO:0.3,N2:0.1'], T=[900., 700.], P=[5e6, 1e6]),
)
SURF = dict(pt=('ptcombust.yaml', 'Pt_surf', ['PT(S):0.4,H(S):0.3,O(S):0.2,CO(S):0.1', 'PT(S):0.7,OH(S):0.1,C(S):0.2']),
            ms=('surface-phases.yaml', 'Pt-multi-sites', ['Pt(s):0.35,H(s):0.4,O(s):0.1,O2(s):0.15', 'Pt(s):0.2,H(s):0.1,O(s):0.6,O2(s):0.1']))


def node(typ, gas, j=0, V_=1.0, chem=True, energy=True, **kw):
    g = GAS[gas]
    chem = chem and gas != 'ms'     # that gas phase has no kinetics
    return dict(type=typ, file=g['file'], phase=g['phase'], T=g['T'][j], P=g['P'][j], X=g['X'][j], V=V_, chem=chem, energy=energy, gas=gas, **kw)


def surf(i, gas, j=0, area=0.3):
    f, p, c = SURF[gas]
    return dict(node=i, file=f, phase=p, area=area, cov=c[j], gas=gas)


def consets(a, b):
    """Connection sets between nodes a and b."""
    m = lambda x, y, K, **kw: dict(kind='MassFlowController', a=x, b=y, K=K, **kw)
    return {
        'mfc': [m(a, b, 0.02)],
        'mfc-both': [m(a, b, 0.02), m(b, a, 0.05, tf=[1.0, 0.5])],
        'mfc-twice': [m(a, b, 0.02), m(a, b, 0.03, tf=[0.2, 1.0]), m(b, a, -0.1), m(b, a, 0.1, tf=[-1.0, 0.1])],
        'valve': [dict(kind='Valve', a=a, b=b, K=2e-6), dict(kind='Valve', a=b, b=a, K=1e-6)],
        'valve-f': [dict(kind='Valve', a=a, b=b, K=2e-6, pf=[10., 0.5], tf=[1., 2.]), dict(kind='Valve', a=b, b=a, K=1e-6, pf=[3e5, 1.0])],
        'pc': [m(a, b, 0.02), dict(kind='PressureController', a=b, b=a, K=1e-7, primary=0)],
        'pc-f': [m(b, a, 0.2, tf=[0.1, 0.7]), dict(kind='PressureController', a=a, b=b, K=1e-7, pf=[5.0, 1.5], primary=0)],
        'wall': [dict(kind='Wall', a=a, b=b, A=0.5, K=1e-6, U=200., eps=0.3)],
        'wall-f': [dict(kind='Wall', a=a, b=b, A=0.5, v=[0.1, -0.3], q=[3000., 500.]), dict(kind='Wall', a=b, b=a, A=2.0, U=50., K=1e-7)],
        'all': [m(a, b, 0.02), dict(kind='PressureController', a=b, b=a, K=1e-7, primary=0), dict(kind='Valve', a=a, b=b, K=2e-6),
                dict(kind='Wall', a=b, b=a, A=0.5, K=1e-6, U=200., eps=0.3, v=[0.1, 0.2], q=[100., 10.])],
    }


def specs_pairs(t1, gas1, gas2, tier, types2):
    """All networks (t1, t2, connection set, mode)."""
    modes = [(True, True, 0), (False, True, 1), (True, False, 0), (False, False, 0)] if tier == 'thorough' else [(True, True, 0), (False, True, 1), (True, False, 0)]
    out = []
    for t2 in types2:
        if t1 == 'Reservoir' and t2 == 'Reservoir':
            continue
        for cname, cs in consets(0, 1).items():
            for chem, energy, j in modes:
                s = dict(nodes=[node(t1, gas1, j, 1.5, chem, energy), node(t2, gas2, 1 - j, 0.7, chem, energy)],
                         conns=cs, t=[0.0, 0.7][j if tier == 'quick' else (len(out) % 2)])
                out.append((f'{t1}-{gas1}/{t2}-{gas2}/{cname}/{int(chem)}{int(energy)}', s))
    return out


def specs_surf(t1, gas, tier):
    out = []
    for ns in (1, 2):
        for chem, energy in ((True, True), (False, True), (True, False)):
            for cname in ('none', 'mfc-both', 'all'):
                for other in ('Reservoir', 'IdealGasReactor', 'ConstPressureMoleReactor'):
                    for flip in (0, 1):
                        nodes = [node(t1, gas, 0, 1.5, chem, energy), node(other, gas, 1, 0.7, True, True)]
                        ss = [surf(0, gas, 0, 0.3)]
                        if ns == 2:
                            ss.append(surf(0, gas, 1, 0.8))
                        if other != 'Reservoir':
                            ss.append(surf(1, gas, 1, 0.2))
                        if flip:
                            nodes = nodes[::-1]
                            for q in ss:
                                q['node'] = 1 - q['node']
                        cs = consets(0, 1)[cname] if cname != 'none' else []
                        out.append((f'surf{ns}-{t1}-{gas}/{other}/{cname}/{int(chem)}{int(energy)}/{flip}',
                                    dict(nodes=nodes, surf=ss, conns=cs, t=0.3)))
    return out


def specs_three(tier):
    out = []
    types = ['Reactor', 'IdealGasMoleReactor', 'IdealGasConstPressureReactor', 'ConstPressureMoleReactor', 'MoleReactor', 'Reservoir']
    if tier == 'thorough':
        types = ALL
    m = lambda x, y, K, **kw: dict(kind='MassFlowController', a=x, b=y, K=K, **kw)
    tops = {
        'chain': [m(0, 1, 0.02), dict(kind='PressureController', a=1, b=2, K=1e-6, primary=0)],
        'ring': [m(0, 1, 0.02), m(1, 2, 0.03), m(2, 0, 0.01, tf=[1, 1]), dict(kind='Wall', a=0, b=2, A=1.0, K=1e-7, U=10.)],
        'star': [dict(kind='Valve', a=0, b=1, K=1e-6), dict(kind='Valve', a=0, b=2, K=1e-6), dict(kind='Wall', a=1, b=0, A=1.0, U=30., eps=0.1),
                 dict(kind='Wall', a=0, b=2, A=1.0, v=[0.2, 0.1]), dict(kind='Wall', a=2, b=1, A=0.4, q=[50., 3.], K=1e-7)],
    }
    for tri in itertools.product(types, repeat=3):
        if all(t == 'Reservoir' for t in tri):
            continue
        for n, cs in tops.items():
            nodes = [node(t, g, j, v) for t, g, j, v in zip(tri, ('h2', 'pt', 'h2'), (0, 1, 1), (1.0, 0.5, 2.0))]
            out.append((f'three/{"-".join(tri)}/{n}', dict(nodes=nodes, conns=cs, t=0.4)))
            # nodes 0 and 2 share one Solution object
            if n == 'ring':
                nodes = [dict(x) for x in nodes]
                nodes[2]['share'] = 0
                for q in ('T', 'P', 'X'):
                    nodes[2][q] = nodes[0][q]
                out.append((f'three-shared/{"-".join(tri)}/{n}', dict(nodes=nodes, conns=cs, t=0.4)))
    return out


def tasks(tier):
    out = []
    for t in ALL:
        out.append(dict(kind='pair', type=t, g1='h2', g2='h2'))
        out.append(dict(kind='pair', type=t, g1='h2', g2='pt'))
        if tier == 'thorough':
            out.append(dict(kind='pair', type=t, g1='pt', g2='h2'))
        if t != 'Reservoir':
            out.append(dict(kind='surf', type=t, gas='pt'))
            out.append(dict(kind='surf', type=t, gas='ms'))
            out.append(dict(kind='closed', type=t))
        if t == 'Reservoir':
            out.append(dict(kind='flow'))
        if t in REAL:
            out.append(dict(kind='pair', type=t, g1='pr', g2='rk'))
            if tier == 'thorough':
                out.append(dict(kind='pair', type=t, g1='rk', g2='pr'))
    n = 8 if tier == 'thorough' else 4
    for i in range(n):
        out.append(dict(kind='three', part=i, of=n))
    return out


class Oracle:
    def __init__(self):
        self.g, self.s = {}, {}

    def gas(self, f, p):
        if (f, p) not in self.g:
            self.g[f, p] = ct.Solution(f, p, transport_model=None)
        return self.g[f, p]

    def surf(self, f, p, gas):
        if (f, p) not in self.s:
            self.s[f, p] = ct.Interface(f, p, adjacent=[gas])
        return self.s[f, p]


def fun(c, t):
    return c[0] + c[1] * t


def balance(orc, spec, rep, t):
    """Right-hand side per node from the documented balance equations."""
    P = []
    for n, r in zip(spec['nodes'], rep['nodes']):
        g = orc.gas(n['file'], n['phase'])
        g.TDY = r['T'], r['rho'], r['Y']
        P.append(dict(P=g.P, h=g.enthalpy_mass, u=g.int_energy_mass, cv=g.cv_mass, cp=g.cp_mass, names=g.species_names, W=g.molecular_weights.copy(),
                      uk=g.partial_molar_int_energies.copy(), hk=g.partial_molar_enthalpies.copy(), gas=g, Y=np.array(r['Y']),
                      wdot=g.net_production_rates.copy() if n['chem'] and g.n_reactions else np.zeros(g.n_species)))
    out = []
    for n, r, p in zip(spec['nodes'], rep['nodes'], P):
        out.append(dict(dm=p['wdot'] * p['W'] * r['V'], dV=0.0, Q=0.0, flowh=0.0, size=[]))
    want = []
    devs = []
    for c in spec.get('conns', []):
        a, b = c['a'], c['b']
        dP = P[a]['P'] - P[b]['P']
        if c['kind'] == 'Wall':
            A = c.get('A', 1.0)
            v = A * (c.get('K', 0) * dP + (fun(c['v'], t) if 'v' in c else 0))
            Ta, Tb = rep['nodes'][a]['T'], rep['nodes'][b]['T']
            q = A * (c.get('U', 0) * (Ta - Tb) + c.get('eps', 0) * ct.stefan_boltzmann * (Ta**4 - Tb**4) + (fun(c['q'], t) if 'q' in c else 0))
            out[a]['dV'] += v
            out[b]['dV'] -= v
            out[a]['Q'] -= q
            out[b]['Q'] += q
            want.append([v, q])
            continue
        K = c['K']
        tf = fun(c['tf'], t) if 'tf' in c else 1.0
        pf = fun(c['pf'], dP) if 'pf' in c else dP
        if c['kind'] == 'MassFlowController':
            md = max(K * tf, 0)
        elif c['kind'] == 'Valve':
            md = max(K * tf * pf, 0)
        else:
            md = max(devs[c['primary']] + K * pf, 0)
        devs.append(md)
        want.append([md])
        # upstream composition, species matched by name
        out[a]['dm'] = out[a]['dm'] - md * P[a]['Y']
        out[a]['flowh'] -= md * P[a]['h']
        idx = {s: i for i, s in enumerate(P[b]['names'])}
        for s, y in zip(P[a]['names'], P[a]['Y']):
            if s in idx:
                out[b]['dm'][idx[s]] += md * y
        out[b]['flowh'] += md * P[a]['h']
        lost = md * sum(y for s, y in zip(P[a]['names'], P[a]['Y']) if s not in idx)
        out[b]['lost'] = out[b].get('lost', 0.0) + lost
    sd = []
    for q, cov in zip(spec.get('surf', []), rep['surf']):
        n, r, p = spec['nodes'][q['node']], rep['nodes'][q['node']], P[q['node']]
        g = p['gas']
        g.TDY = r['T'], r['rho'], r['Y']
        s = orc.surf(q['file'], q['phase'], g)
        s.TP = r['T'], g.P
        s.coverages = cov
        dot = s.net_production_rates
        w = dict(zip(s.kinetics_species_names, dot))
        sd.append((np.array([w[k] for k in s.species_names]), s))
        # surface chemistry is independent of the gas-phase chemistry switch
        out[q['node']]['dm'] = out[q['node']]['dm'] + q['area'] * np.array([w.get(k, 0.0) for k in p['names']]) * p['W']
    return P, out, want, sd


def split(spec, res, vec):
    """Per node: dict component -> (value) using the order documented for each type."""
    out, loc = [], 0
    starts = [x for x in res['start']]
    for i, n in enumerate(spec['nodes']):
        if starts[i] < 0:
            out.append(None)
            continue
        ncomp = len(res['comp'][i])
        out.append(np.array(vec[starts[i]:starts[i] + ncomp]))
    return out


def analyse(ctx, key, spec, res, tag, orc):
    rep = res[tag]
    t = spec['t']
    P, rhs, want, sd = balance(orc, spec, rep, t)
    y, yd = split(spec, res, rep['y']), split(spec, res, rep['yd'])
    ok = True
    ctx.state((key, tag))
    for (c, w, g) in zip(spec.get('conns', []), want, rep['conns']):
        sc = 1e-9
        if spec['nodes'][c['a']]['type'] == spec['nodes'][c['b']]['type'] == 'Reservoir':
            continue
        if c['kind'] == 'Wall':
            sc = np.array([c.get('A', 1) * c.get('K', 0) * 1e5 + 1e-9, 1.0]) * 1e-3
        ok &= ctx.close(f'conn:{c["kind"]}:{key}', g, w, rtol=1e-8, scale=sc, msg=f'{tag}: rate of connection {c}')
    tot = {}
    for i, (n, r, p, b) in enumerate(zip(spec['nodes'], rep['nodes'], P, rhs)):
        typ = n['type']
        if typ != 'Reservoir':
            ok &= ctx.close(f'P:{key}:{i}', p['P'], r['P'], rtol=1e-6, msg=f'{tag}: pressure of the contents at its T, rho, Y')
            ok &= ctx.close(f'm:{key}:{i}', r['m'], r['rho'] * r['V'], rtol=1e-9, msg='mass is density times volume')
            ok &= ctx.close(f'h:{key}:{i}', r['h'], p['h'], rtol=1e-8, scale=1e5, msg='stored enthalpy')
        if yd[i] is None:
            continue
        d = yd[i]
        mole = 'Mole' in typ
        ns = len(p['Y'])
        cv = typ in CV
        ideal = 'IdealGas' in typ
        names = [q[0] for q in res['comp'][i]]
        nhead = {True: {(True,): 2, (False,): 1}, False: {(True,): 3, (False,): 2}}[mole][(cv,)]
        head = d[:nhead]
        sp = d[nhead:nhead + ns]
        dm = b['dm']
        lost = b.get('lost', 0.0)
        scm = np.abs(dm).max() + 1e-30
        sc = 1e-6 * scm
        # species
        if mole:
            got = sp * p['W']
            ctx.trans(ns)
            # n_k W_k: no lost-species closure: the mass is exactly what the species carry
            ok &= ctx.close(f'species:{key}:{i}', got, dm, rtol=1e-7, scale=sc, msg=f'{tag}: {typ} dn_k/dt W_k vs balance')
            dmdt = got.sum()
        else:
            dmdt = d[0]
            # species unknown downstream still count as mass in the mass formulation
            ctx.trans(ns + 1)
            ok &= ctx.close(f'mass:{key}:{i}', dmdt, dm.sum() + lost, rtol=1e-7, scale=sc, msg=f'{tag}: {typ} dm/dt')
            got = r['m'] * sp + p['Y'] * dmdt
            want_dm = dm.copy()
            ok &= ctx.close(f'species:{key}:{i}', got, want_dm, rtol=1e-7, scale=sc, msg=f'{tag}: {typ} d(m Y_k)/dt vs balance')
        # volume
        dV = b['dV']
        if cv:
            got_dV = head[1] if not mole else head[1]
            ok &= ctx.close(f'volume:{key}:{i}', got_dV, dV, rtol=1e-8, scale=1e-9, msg=f'{tag}: {typ} dV/dt')
        # energy
        E = b['Q'] + b['flowh']
        if typ in ('Reactor', 'MoleReactor'):
            gE = head[2] if not mole else head[0]
            wE = (E - p['P'] * dV)
        elif typ == 'ConstPressureReactor':
            gE, wE = head[1], E
        elif typ == 'ConstPressureMoleReactor':
            gE, wE = head[0], E
        elif cv:
            dT = head[2] if not mole else head[0]
            gE = r['m'] * p['cv'] * dT + (p['uk'] / p['W'] * dm).sum()
            wE = E - p['P'] * dV
        else:
            dT = head[1] if not mole else head[0]
            gE = r['m'] * p['cp'] * dT + (p['hk'] / p['W'] * dm).sum()
            wE = E
        if n['energy']:
            ctx.trans()
            esc = max(abs(p['h']), 1e5) * scm + abs(b['Q']) + abs(p['P'] * dV)
            # the energy carried by species the downstream mechanism lacks is in the enthalpy of the stream
            if not (lost and ideal):
                ok &= ctx.close(f'energy:{key}:{i}', gE, wE, rtol=1e-7, scale=esc, msg=f'{tag}: {typ} dE/dt')
        else:
            g0 = gE if not ideal else dT
            ok &= ctx.close(f'energy-off:{key}:{i}', g0, 0.0, atol=0.0, msg=f'{tag}: {typ} energy held fixed')
    # surface species
    off = {}
    for j, (q, (dot, s)) in enumerate(zip(spec.get('surf', []), sd)):
        i = q['node']
        d = yd[i]
        if d is None:
            continue
        typ = spec['nodes'][i]['type']
        mole = 'Mole' in typ
        ns = len(P[i]['Y'])
        nk = s.n_species
        n0 = {True: {True: 2, False: 1}, False: {True: 3, False: 2}}[mole][typ in CV]
        o = off.get(i, n0 + ns)
        off[i] = o + nk
        size = np.array([sp.size for sp in s.species()])
        dn = d[o:o + nk] if mole else d[o:o + nk] * q['area'] * s.site_density / size
        ctx.trans(nk)
        ok &= ctx.close(f'surface:{key}:{j}', dn, q['area'] * dot, rtol=1e-7, scale=1e-7 * (np.abs(q['area'] * dot).max() + 1e-30),
                        msg=f'{tag}: {typ} surface species change (kmol/s)')
    if ok:
        ctx.trace()
    return ok


def run_specs(ctx, specs):
    orc = Oracle()
    inp = ''.join(json.dumps(s) + '\n' for _, s in specs)
    p = subprocess.run([f'{V}/build/o/net', models.R + '/data', models.R + '/test/data'], input=inp, capture_output=True, text=True, timeout=800)
    lines = p.stdout.splitlines()
    if len(lines) != len(specs):
        k = len(lines)
        ctx.violation(f'crash:{specs[k][0] if k < len(specs) else "end"}', f'reactor network program ended with {p.returncode}: {p.stderr[-400:]}')
    for (key, s), line in zip(specs, lines):
        ctx.ev()
        res = json.loads(line)
        if 'error' in res:
            ctx.violation(f'error:{key}', f'network refused: {res["error"][:600]}')
            continue
        res = fix(res)
        if 'P0' not in s:
            analyse(ctx, key, s, res, 'first', orc)
            analyse(ctx, key, s, res, 'second', orc)
        a, b = np.array(res['first']['yd']), np.array(res['again'])
        ctx.close(f'again:{key}', b, a, rtol=1e-9, atol=1e-9, scale=1e-9 * (np.abs(a).max() + 1e-30), msg='derivative differs when evaluated again at the first state after visiting another state')
        ctx.outcome(np.round(np.log10(np.abs(a) + 1e-30), 1).tolist())
        ctx.sample(key)


def fix(o):
    if isinstance(o, dict):
        return {k: fix(v) for k, v in o.items()}
    if isinstance(o, list):
        return [fix(v) for v in o]
    if o in ('nan', 'inf', '-inf') and isinstance(o, str):
        return float(o)
    return o


def run(task, ctx):
    k = task['kind']
    if k == 'pair':
        types2 = ALL if task['g1'] not in ('pr', 'rk') else REAL
        run_specs(ctx, specs_pairs(task['type'], task['g1'], task['g2'], ctx.tier, types2))
    elif k == 'surf':
        run_specs(ctx, specs_surf(task['type'], task['gas'], ctx.tier))
    elif k == 'three':
        run_specs(ctx, specs_three(ctx.tier)[task['part']::task['of']])
    elif k == 'flow':
        flow(ctx)
    else:
        closed(ctx, task['type'])


def flow(ctx):
    """FlowReactor: mass, element, momentum and energy fluxes are the same at every distance."""
    n = 60 if ctx.tier == 'quick' else 300
    for nsurf, en, mech in itertools.product((0, 1, 2), ('on', 'off'), ('pt', 'h2', 'pr')):
        if nsurf and mech != 'pt' or mech == 'pr' and en == 'off':
            continue
        G = GAS[mech]
        for T, P in zip(G['T'], G['P']):
            g = ct.Solution(G['file'], G['phase'], transport_model=None)
            g.TPX = T, P, G['X'][0]
            r = ct.FlowReactor(g, energy=en)
            r.area = 0.02
            r.mass_flow_rate = 0.3
            S = []
            for j in range(nsurf):
                s = ct.Interface('ptcombust.yaml', 'Pt_surf', adjacent=[g])
                s.TP = g.TP
                s.coverages = SURF['pt'][2][j]
                S.append(ct.ReactorSurface(s, r))
            net = ct.ReactorNet([r])
            key = f'flow:{nsurf}:{en}:{mech}:{T}'
            try:
                net.initialize()
            except ct.CanteraError as e:
                ctx.skip('no steady initial surface state found')
                continue

            def fluxes():
                th = r.thermo
                u = r.speed
                return (th.density * u * 0.02, [th.elemental_mass_fraction(e) for e in th.element_names], th.P + th.density * u**2, th.enthalpy_mass + 0.5 * u**2, th.T)
            f0 = fluxes()
            ctx.ev()
            ctx.close(key + ':mdot', f0[0], 0.3, rtol=1e-6, msg='mass flow rate')
            for i in range(n):
                try:
                    net.step()
                except ct.CanteraError:
                    ctx.skip('integrator gave up')
                    break
                f = fluxes()
                ctx.trans()
                ctx.state((key, i))
                ok = ctx.close(key + ':mass', f[0], f0[0], rtol=1e-5, msg=f'mass flux at x={net.distance:.3e}')
                ok &= ctx.close(key + ':elements', f[1], f0[1], rtol=1e-5, atol=1e-8, msg='element fractions')
                ok &= ctx.close(key + ':momentum', f[2], f0[2], rtol=1e-6, msg='momentum flux')
                if en == 'on':
                    ok &= ctx.close(key + ':energy', f[3], f0[3], rtol=1e-5, atol=30, msg='total enthalpy')
                else:
                    ok &= ctx.close(key + ':T', f[4], f0[4], rtol=1e-12, msg='temperature held')
                if not ok:
                    break
            else:
                ctx.trace()


# --- integrated closed networks ---
def closed(ctx, typ):
    others = ['IdealGasReactor', 'IdealGasConstPressureReactor'] if ctx.tier == 'quick' else CV + CP
    nsteps = 60 if ctx.tier == 'quick' else 400
    for other in others:
        for con in ('none', 'flow', 'wall', 'both'):
            for withsurf in (False, True):
                if withsurf and other != others[0]:
                    continue
                f = 'ptcombust.yaml' if withsurf else 'h2o2.yaml'
                ph = 'gas' if withsurf else 'ohmech'
                g1, g2 = ct.Solution(f, ph, transport_model=None), ct.Solution(f, ph, transport_model=None)
                G = GAS['pt' if withsurf else 'h2']
                g1.TPX = G['T'][0] + 150, G['P'][0], G['X'][0]
                g2.TPX = G['T'][1], G['P'][1], G['X'][1]
                r1, r2 = getattr(ct, typ)(g1, clone=False) if 'clone' in (getattr(ct, typ).__init__.__doc__ or '') else getattr(ct, typ)(g1), getattr(ct, other)(g2)
                r1.volume, r2.volume = 0.8, 1.3
                S = []
                if withsurf:
                    for r, g in ((r1, g1), (r2, g2)):
                        s = ct.Interface('ptcombust.yaml', 'Pt_surf', adjacent=[g])
                        s.TP = g.TP
                        s.coverages = 'PT(S):0.5,H(S):0.2,O(S):0.2,CO(S):0.1'
                        S.append(ct.ReactorSurface(s, r, A=0.4))
                keep = []
                if con in ('flow', 'both'):
                    m = ct.MassFlowController(r1, r2, mdot=0.5)
                    keep += [m, ct.PressureController(r2, r1, primary=m, K=1e-5), ct.Valve(r1, r2, K=1e-5)]
                if con in ('wall', 'both'):
                    cvs = typ in CV and other in CV
                    keep += [ct.Wall(r1, r2, A=0.7, K=1e-6 if cvs else 0, U=2e5, Q=lambda t: 1e3 * t, velocity=(lambda t: 0.3 * t) if cvs else None)]
                net = ct.ReactorNet([r1, r2])
                net.rtol, net.atol = (1e-8, 1e-14) if withsurf else (1e-9, 1e-18)
                cv = typ in CV and other in CV
                cp = typ in CP and other in CP

                def totals():
                    el = {}
                    E = Em = 0.0
                    for r in (r1, r2):
                        th = r.thermo
                        for e in th.element_names:
                            el[e] = el.get(e, 0) + r.mass * th.elemental_mass_fraction(e) / th.atomic_weight(e)
                        Em += r.mass
                        E += r.mass * (th.int_energy_mass if type(r).__name__ in CV else th.enthalpy_mass)
                    for s in S:
                        k = s.kinetics
                        for sp, c in zip(k.species(), s.coverages):
                            for e, v in sp.composition.items():
                                el[e] = el.get(e, 0) + v * c / sp.size * k.site_density * s.area
                    return Em, el, E
                m0, e0, E0 = totals()
                sc = {e: max(v, 1e-3 * max(e0.values())) for e, v in e0.items()}
                key = f'closed:{typ}:{other}:{con}:{"surf" if withsurf else "gas"}'
                ctx.ev()
                marks = [1e-4, 3e-3, 0.1] if con in ('flow', 'both') else [1e-4, 1e-2, 1.0]
                m_prev, T0, V0 = None, (r1.T, r2.T), r1.volume + r2.volume
                for i in range(nsteps + len(marks)):
                    if i < nsteps:
                        net.step()
                    elif net.time < marks[i - nsteps]:
                        net.advance(marks[i - nsteps])
                    ctx.trans()
                    ctx.state((key, i))
                    m1, e1, E1 = totals()
                    if not withsurf:
                        if not ctx.close(key + ':mass', m1, m0, rtol=2e-7, msg=f'total mass after {i + 1} steps (t={net.time:.3e})'):
                            break
                    if not ctx.close(key + ':elements', [e1[e] / sc[e] for e in e0], [e0[e] / sc[e] for e in e0], rtol=3e-7, scale=1.0,
                                     msg=f'total elements {list(e0)} after {i + 1} steps'):
                        break
                    if cv and not ctx.close(key + ':volume', r1.volume + r2.volume, V0, rtol=1e-7, msg=f'total volume after {i + 1} steps'):
                        break
                    # internal energy of a closed constant-volume set, enthalpy of a constant-pressure set
                    if (cv and con in ('none', 'flow')) or cp:
                        esc = max(abs(E0), m0 * 1e6)
                        if not ctx.close(key + ':energy', E1 / esc, E0 / esc, rtol=0, atol=1e-5 if withsurf else 1e-6,
                                         msg=f'total energy after {i + 1} steps'):
                            break
                else:
                    ctx.trace()
                    ctx.check(key + ':vacuous', max(abs(r1.T - T0[0]), abs(r2.T - T0[1])) > 1, 'the integration did not change the reactors')

