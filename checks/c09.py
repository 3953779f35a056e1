"""C09: conservation, mass action and detailed balance over a lattice of states of every mechanism and over every small stoichiometry."""
import itertools
import numpy as np
import kinpool, models, refkin
import cantera as ct

PROPERTY, LEVEL = 'C09', 'exploration'
BUILD = ['py']
TECHNIQUE = 'exhaustive enumeration of mechanism states and of all small reaction stoichiometries on the real code against a reference mass-action model'
LEVEL_NOTE = 'Every state of the lattice and every stoichiometry of the bounded grammar is executed; continuous state space is covered on the lattice only.'
RULE = ('every mechanism of the pool x every (T, P, composition) of its lattice including vertices with absent species; every reaction of the grammar '
        '(reactant/product multisets with integer and fractional coefficients, orders, non-reactant orders) in one generated mechanism; non-trivial = a reaction with non-zero rate')
ASSUMPTIONS = ['Reaction objects returned by the mechanism describe its reactions', 'floating-point tolerance 1e-8 relative to the summed magnitude']
BOUNDS = {'quick': '31 mechanisms; grammar: totals <= 4 over 4 isomers', 'thorough': 'denser state lattice; grammar with all order combinations'}
SKIP_DB = set()


def states(k, kin, ph, thorough):
    C = kinpool.comps(k, k.make())
    n = ph[0].n_species
    X = list(C) + [kinpool.lattice_comp(ph[0], i) for i in range(4 if thorough else 2)]
    v = np.zeros(n)
    v[0] = 1
    X.append(v)
    v = np.zeros(n)
    v[-1] = 0.5
    v[n // 2] += 0.5
    X.append(v)
    T = list(k.T) + ([sum(k.T) / 2, k.T[0] + 7.3] if thorough else [sum(k.T) / 2])
    for t in T:
        for p in k.P:
            for x in X:
                yield t, p, x


def c_act(p):
    """activity concentrations: ideal gas: concentration; surfaces/edges: concentration; others: activity * c0."""
    if p.thermo_model in ('ideal-gas', 'ideal-surface', 'edge', 'coverage-dependent-surface', 'plasma'):
        return p.concentrations
    return None


def run_mech(task, ctx):
    k = kinpool.BY[task['mech']]
    kin = k.make()
    ph = k.phases(kin)
    ref = refkin.Ref(kin, ph)
    nm = k.name
    thorough = True
    nr = kin.n_reactions
    ctx.close(f'{nm}:stoich', kin.reactant_stoich_coeffs, ref.nu_r.T, rtol=1e-12, msg='reactant table')
    ctx.close(f'{nm}:stoich', kin.product_stoich_coeffs, ref.nu_p.T, rtol=1e-12, msg='product table')
    bal = ref.nu @ ref.A.T
    ctx.check(f'{nm}:unbalanced', np.abs(bal).max() < 1e-4, f'accepted reaction does not balance elements: {np.abs(bal).max()}')
    phis = [0.0] if not k.kw.get('phi') else [0.0, 0.25]
    Ts = list(states(k, kin, ph, thorough))
    mults = [None, 'm']
    for (T, P, X), phi, mult, sec in itertools.product(Ts, phis, mults, range(3 if len(ph) > 1 else 1)):
        for p in ph[1:]:
            p.electric_potential = 0.0
            p.TPX = T, P, kinpool.lattice_comp(p, sec) if p.n_species > 1 else [1.0]
        ph[0].electric_potential = 0.0
        try:
            ph[0].TPX = T, P, X
        except ct.CanteraError:
            ctx.skip(f'{nm}: state refused')
            continue
        if phi:
            for p in ph:
                if p.name in k.kw['phi'][-1:]:
                    p.electric_potential = phi
        kin.set_multiplier(1.0)
        if mult:
            for i in range(nr):
                kin.set_multiplier(0.5 + 0.25 * (i % 5), i)
        try:
            rf, rr, rn = kin.forward_rates_of_progress, kin.reverse_rates_of_progress, kin.net_rates_of_progress
            w, cr, de = kin.net_production_rates, kin.creation_rates, kin.destruction_rates
        except ct.CanteraError as e:
            ctx.skip(f'{nm}: rates refused')
            continue
        ctx.ev()
        ctx.trans(9)
        data = dict(T=T, P=P, X=list(X), phi=phi, sec=sec)
        if not (np.isfinite(rf).all() and np.isfinite(rr).all()):
            ctx.skip(f'{nm}: non-finite rates at a vertex')
            continue
        ctx.outcome((nm, T, P, tuple(X), phi, sec))
        mag = np.abs(ref.nu).T @ (np.abs(rf) + np.abs(rr))
        sc = max(1e-300, mag.max())
        net = ref.nu.T @ (rf - rr)
        ctx.close(f'{nm}:net_rop', rn, rf - rr, rtol=1e-9, scale=np.abs(rf) + np.abs(rr), msg='net rate of progress is not forward minus reverse', data=data)
        ctx.close(f'{nm}:wdot', w, net, rtol=1e-9, scale=mag, msg='production rate is not the stoichiometric sum of rates of progress', data=data)
        ctx.close(f'{nm}:creation', cr, ref.nu_p.T @ rf + ref.nu_r.T @ rr, rtol=1e-9, scale=mag, msg='creation rates', data=data)
        ctx.close(f'{nm}:destruction', de, ref.nu_r.T @ rf + ref.nu_p.T @ rr, rtol=1e-9, scale=mag, msg='destruction rates', data=data)
        el = ref.A @ w
        tot = np.abs(ref.A) @ mag
        ctx.close(f'{nm}:elements', el, np.zeros(len(el)), rtol=1e-8, scale=np.maximum(tot, 1e-300) * (1 + 1e4 * np.abs(bal).max()), msg='elements are not conserved', data=data)
        ctx.close(f'{nm}:charge', ref.charge @ w, 0.0, rtol=1e-8, scale=max(1e-300, np.abs(ref.charge) @ mag), msg='charge is not conserved', data=data)
        ctx.check(f'{nm}:irreversible', (rr[~ref.rev] == 0).all(), 'irreversible reaction with non-zero reverse rate', data)
        kf, kr = kin.forward_rate_constants, kin.reverse_rate_constants
        Kc = kin.equilibrium_constants
        # equilibrium constant from chemical potentials and activity concentrations
        RT = R * kin.T
        mu0 = ref.cat(lambda p: p.standard_gibbs_RT if p.thermo_model != 'electron-cloud' else p.chemical_potentials / RT) * RT
        z = ref.cat(lambda p: np.array([s.charge for s in p.species()]))
        ph_of = ref.cat(lambda p: np.full(p.n_species, p.electric_potential))
        if nm == 'plasma':
            continue
        same_T = True
        # c0 from activity concentration / activity where the activity is not tiny
        c0 = ref.cat(c0_of)
        if not np.isnan(c0).any():
            with np.errstate(all='ignore'):
                lnK = -(ref.nu @ ((mu0 + refkin.F * z * ph_of) / RT)) + ref.nu @ np.log(c0)
                okk = np.abs(lnK) < 600
                ctx.close(f'{nm}:Kc', np.log(Kc[okk]), lnK[okk], rtol=1e-8, scale=np.maximum(np.abs(ref.nu) @ np.abs(mu0 / RT), 1.)[okk], msg='log of the equilibrium constant differs from species thermodynamics', data=data)
                ok = ref.rev & okk & (kr > 1e-290) & (kr < 1e290)
                ctx.close(f'{nm}:kr', kf[ok], (kr * Kc)[ok], rtol=1e-8, msg='forward / reverse rate constant is not the equilibrium constant', data=data)
            ctx.check(f'{nm}:kr-irrev', (kr[~ref.rev] == 0).all(), 'irreversible reaction with reverse rate constant', data)
            # mass action
            act = ref.cat(lambda p: p.activities)
            cc = act * c0
            for p in ph:
                if p.thermo_model in ('ideal-gas', 'ideal-surface', 'edge'):
                    ctx.close(f'{nm}:activity-conc', p.activities * np.array(c0_of(p)), p.concentrations, rtol=1e-8, scale=1e-12, msg=f'{p.name}: activity concentrations', data=data)
            m3 = np.ones(nr)
            m3max = np.ones(nr)
            if not k.surf:
                tb = kin.third_body_concentrations
                for i, r in enumerate(ref.rx):
                    if r.third_body is not None and r.reaction_type.startswith('three-body') and 'linear' not in r.reaction_type:
                        e = np.array([r.third_body.efficiencies.get(s, r.third_body.default_efficiency) for s in ref.names])
                        m3[i] = e @ kin.concentrations
                        m3max[i] = kin.density_mole * max(1, e.max())
                        ctx.close(f'{nm}:third-body', tb[i], m3[i], rtol=1e-9, scale=kin.density_mole, msg='third-body concentration', data=data)
            with np.errstate(all='ignore'):
                want_f = kf * m3 * refkin.prodpow(cc, ref.order_f)
                want_r = kr * m3 * refkin.prodpow(cc, ref.nu_p)
            good = np.isfinite(want_f) & (np.abs(want_f) < 1e250)
            ctx.close(f'{nm}:mass-action-f', rf[good], want_f[good], rtol=1e-8, atol=1e-250, scale=(np.abs(want_f / m3) * m3max)[good] if (m3 != 0).all() else (kf * m3max * refkin.prodpow(cc, ref.order_f))[good], msg='forward rate of progress is not mass action', data=data)
            good = np.isfinite(want_r) & (np.abs(want_r) < 1e250) & ((cc[None, :] > 1e-30) | (ref.nu_p == 0)).all(axis=1)
            ctx.close(f'{nm}:mass-action-r', rr[good], want_r[good], rtol=1e-8, atol=1e-250, scale=(kr * m3max * refkin.prodpow(cc, ref.nu_p))[good], msg='reverse rate of progress is not mass action', data=data)
            if not mult and not phi and nm not in ('rkgas', 'prgas'):
                pass
        # detailed balance straight from electrochemical potentials
        with np.errstate(all='ignore'):
            mu = ref.cat(lambda p: p.electrochemical_potentials)
            dmu = ref.nu @ mu / RT
            pos = ref.rev & ref.elementary & (rf > 1e-200) & (rr > 1e-200) & (rf < 1e200) & (rr < 1e200)
            present = ((act_all(ref) > 1e-20)[None, :] | (np.abs(ref.nu) < 1e-12)).all(axis=1)
            pos &= present & np.isfinite(dmu)
            if not np.isfinite(dmu).all():
                ctx.skip(f'{nm}: adjacent phase without molar volume data: no chemical potentials')
            if pos.any():
                ctx.close(f'{nm}:detailed-balance', np.log(rf[pos] / rr[pos]), -dmu[pos], rtol=1e-8, scale=np.maximum(np.abs(ref.nu) @ np.abs(mu / RT), 1)[pos], msg='forward/reverse rate is not exp(-dG/RT)', data=data)
    if not k.surf and k.name not in ('plasma', 'ET', 'rkgas', 'prgas'):
        for T, P, c in itertools.product(k.T, k.P, (0, 1)):
            kin.set_multiplier(1.0)
            kin.TPX = T, P, kinpool.lattice_comp(kin, c)
            try:
                kin.equilibrate('TP')
            except ct.CanteraError:
                ctx.skip(f'{nm}: no equilibrium found')
                continue
            rf, rn = kin.forward_rates_of_progress, kin.net_rates_of_progress
            sel = ref.rev & ref.elementary & (refkin.prodpow(kin.X, np.minimum(ref.nu_r + ref.nu_p, 1)) > 1e-60)
            ctx.ev()
            ctx.close(f'{nm}:equilibrium', rn[sel], np.zeros(sel.sum()), rtol=3e-4, scale=np.maximum(rf[sel], 1e-300), msg='net rate at chemical equilibrium', data=dict(T=T, P=P, c=c))
    ctx.sample(dict(mechanism=nm, reactions=nr, states=len(Ts)))


def act_all(ref):
    return ref.cat(lambda p: p.X)


def c0_of(p):
    """standard concentrations of a phase, from its documentation."""
    m = p.thermo_model
    n = p.n_species
    if m in ('ideal-gas', 'plasma'):
        return np.full(n, p.P / (R * p.T))
    if m in ('Redlich-Kwong', 'Peng-Robinson'):
        return np.full(n, p.P / (R * p.T))
    if m in ('ideal-surface', 'edge', 'coverage-dependent-surface'):
        return np.array([p.site_density / s.size for s in p.species()])
    if m in ('fixed-stoichiometry', 'electron-cloud'):
        return np.ones(n)
    return np.full(n, np.nan)


R = ct.gas_constant


def gen_reactions(thorough):
    S = 'ABCD'
    coefs = [0.5, 1, 1.5, 2, 3]
    sides = {}
    for k in (1, 2, 3, 4):
        for sp in itertools.combinations(S, k):
            for co in itertools.product(coefs, repeat=k):
                t = sum(co)
                if t <= (4 if k < 4 else 5):
                    sides.setdefault(t, []).append(dict(zip(sp, co)))
    out = []
    n = 0
    for t, ss in sides.items():
        if t != int(t) or t > (4 if not thorough else 5):
            continue
        for a, b in itertools.product(ss, ss):
            if a == b:
                continue
            n += 1
            big = len(ss) > 40
            if not thorough and big and n % 11:
                continue
            out.append((a, b))
    return out


def run_gen(task, ctx):
    thorough = ctx.tier == 'thorough'
    base = {s.name: s for s in ct.Species.list_from_file('gri30.yaml')}
    sp = []
    for i, n in enumerate('ABCD'):
        d = base['H2'].input_data
        s = ct.Species(n, {'H': 2})
        co = base['H2'].thermo.coeffs.copy()
        co[6] += 300 * i
        co[13] += 300 * i
        co[7] += 0.3 * i
        co[14] += 0.3 * i
        s.thermo = ct.NasaPoly2(200, 3500, ct.one_atm, co)
        sp.append(s)
    rx = []
    part, nparts = task['part'], task['nparts']
    kinds = []
    for j, (a, b) in enumerate(gen_reactions(thorough)):
        if j % nparts != part:
            continue
        tb = [None, None, 'M', 'D'][j % 4]
        rate = ct.ArrheniusRate(1e3 + j, 0.1, 1e6)
        kw = {}
        rev = j % 3 != 0
        r = None
        kind = 'plain'
        if tb == 'M':
            t3 = ct.ThirdBody(efficiencies={'A': 2.0, 'C': 0.0}, default_efficiency=1.0)
            r = ct.Reaction(dict(a), dict(b), rate, third_body=t3)
            kind = 'M'
        else:
            r = ct.Reaction(dict(a), dict(b), rate)
        if kind == 'plain' and j % 5 == 0:
            r.reversible = False
            r.allow_nonreactant_orders = True
            r.allow_negative_orders = True
            o = {}
            ks = list(a)
            o[ks[0]] = [0.0, 0.7, 2.0, -0.5][(j // 5) % 4]
            if j % 10 == 0:
                other = [s for s in 'ABCD' if s not in a]
                if other:
                    o[other[0]] = [0.5, 1.0, -1.0][(j // 10) % 3]
            r.orders = o
            kind = 'orders'
        else:
            r.reversible = rev
        r.duplicate = True
        rx.append(r)
    g = ct.Solution(thermo='ideal-gas', kinetics='gas', species=sp, reactions=rx)
    ref = refkin.Ref(g, [g])
    comps = [v for v in itertools.product([0, 1e-3, 0.4, 1.0], repeat=4) if sum(v) > 0]
    if not thorough:
        comps = comps[::3]
    for T in (400., 1200.):
        for P in (1e4, 1e6):
            for x in comps:
                g.TPX = T, P, x
                c = g.concentrations
                rf, rr, w = g.forward_rates_of_progress, g.reverse_rates_of_progress, g.net_production_rates
                kf, kr = g.forward_rate_constants, g.reverse_rate_constants
                A, Ea = np.array([(r.rate.pre_exponential_factor, r.rate.activation_energy) for r in ref.rx]).T
                ctx.ev()
                ctx.outcome((task['part'], T, P, x))
                data = dict(T=T, P=P, x=x)
                ctx.close('gen:kf', kf, A * T ** 0.1 * np.exp(-Ea / R / T), rtol=1e-9, msg='forward rate constant', data=data)
                G = g.standard_gibbs_RT
                with np.errstate(all='ignore'):
                    K = np.exp(-(ref.nu @ G)) * (P / R / T) ** ref.nu.sum(axis=1)
                ctx.close('gen:kr', kr, np.where(ref.rev, kf / K, 0), rtol=1e-8, msg='reverse rate constant', data=data)
                m3 = np.array([1.0 if r.third_body is None else sum(r.third_body.efficiencies.get(s, r.third_body.default_efficiency) * cc for s, cc in zip(ref.names, c)) for r in ref.rx])
                mm = np.array([1.0 if r.third_body is None else 2 * g.density_mole for r in ref.rx])
                wf = kf * m3 * refkin.prodpow(c, ref.order_f)
                fin = np.isfinite(wf)
                ctx.close('gen:ropf', rf[fin], wf[fin], rtol=1e-8, atol=1e-280, scale=np.nan_to_num(kf * mm * np.abs(refkin.prodpow(c, ref.order_f)))[fin], msg='forward rate of progress', data=data)
                wr = kr * m3 * refkin.prodpow(c, ref.nu_p)
                ctx.close('gen:ropr', rr, wr, rtol=1e-8, atol=1e-280, scale=kr * mm * refkin.prodpow(c, ref.nu_p), msg='reverse rate of progress', data=data)
                if fin.all() and np.isfinite(rf).all():
                    mag = np.abs(ref.nu).T @ (np.abs(rf) + rr)
                    ctx.close('gen:wdot', w, ref.nu.T @ (rf - rr), rtol=1e-9, scale=mag, msg='production rates', data=data)
                    ctx.close('gen:creation', g.creation_rates, ref.nu_p.T @ rf + ref.nu_r.T @ rr, rtol=1e-9, scale=mag, msg='creation rates', data=data)
                    ctx.close('gen:destruction', g.destruction_rates, ref.nu_r.T @ rf + ref.nu_p.T @ rr, rtol=1e-9, scale=mag, msg='destruction rates', data=data)
                    ctx.close('gen:mass', g.molecular_weights @ w, 0.0, rtol=1e-9, scale=max(g.molecular_weights @ mag, 1e-20), msg='mass is not conserved', data=data)
                    for nmq, want in (('delta_gibbs', ref.nu @ g.chemical_potentials), ('delta_enthalpy', ref.nu @ g.partial_molar_enthalpies), ('delta_entropy', ref.nu @ g.partial_molar_entropies),
                                      ('delta_standard_gibbs', ref.nu @ g.standard_gibbs_RT * R * T), ('delta_standard_enthalpy', ref.nu @ g.standard_enthalpies_RT * R * T), ('delta_standard_entropy', ref.nu @ g.standard_entropies_R * R)):
                        ctx.close(f'gen:{nmq}', getattr(g, nmq), want, rtol=1e-9, scale=R * T * 100 if 'entropy' not in nmq else R * 100, msg=nmq, data=data)
    ctx.sample(dict(generated=len(rx), compositions=len(comps), example=[r.equation for r in rx[:5]]))


def tasks(tier):
    return [dict(mech=k.name) for k in kinpool.POOL if k.name != 'covdep'] + [dict(gen=1, part=i, nparts=8) for i in range(8)]


def run(task, ctx):
    if task.get('gen'):
        run_gen(task, ctx)
    else:
        run_mech(task, ctx)
