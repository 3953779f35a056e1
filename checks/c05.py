"""C05: thermodynamic identities of every phase model over a lattice of states (exhaustive over models x states x identities),
plus species reference-state polynomials against an independent evaluation, in every range of every species of every data file."""
import glob, itertools, math, os, sys
import numpy as np
import cantera as ct
import models
PROPERTY, LEVEL = "C05", "exploration"
BUILD = ['py']
TECHNIQUE = 'bounded-exhaustive exploration of the state lattice of every phase model, identities monitored in every state; exhaustive enumeration of species thermo ranges against an independent evaluator'
LEVEL_NOTE = 'explored on the real library; every model of the pool x every lattice state x every identity'
RULE = ('an evaluation is one identity (definition, mixing rule, Legendre/Maxwell relation, temperature/pressure derivative, activity relation, Gibbs-Duhem) in one lattice state '
        'of one phase model, or one property of one species at one temperature of one parameterization range; an outcome is non-trivial when the state (model, T, P, composition) '
        'or species/temperature is new')
ASSUMPTIONS = ['derivatives are compared with central differences (relative tolerance 1e-4)', 'identities a model reports as not implemented are skipped',
               'Gibbs-Duhem is not demanded of models that are not derived from one Gibbs function by design (coverage-dependent surface, binary-solution-tabulated); the electron cloud has no volume']
BOUNDS = {'quick': 'pool of phase models x 2-3 T x 2 P x 2-4 compositions incl. pure/trace; all species of the main data files at range limits, boundaries and interior points',
          'thorough': 'denser T/P lattice, all species of all data files'}
R_ = ct.gas_constant
F_ = ct.faraday


def get(f):
    try:
        return f()
    except (NotImplementedError, ct.CanteraError) as e:
        if 'ot implemented' in str(e) or isinstance(e, NotImplementedError):
            return None
        raise


def make(m):
    return ct.PureFluid(m.file, m.phase) if m.kw.get('pure') else m.make()


SKIP_E = ('plasma', 'plasma-disc')


def lattice(m, ph, th):
    C = models.comps(m, ph)
    T = list(m.T)
    P = list(m.P)
    if th:
        T = sorted(set(T + [T[0] + f * (T[-1] - T[0]) for f in (0.13, 0.37, 0.62, 0.91)]))
        P = sorted(set(P + [P[0] * (P[-1] / P[0]) ** 0.5]))
    n = ph.n_species
    extra = []
    if n > 1 and not m.heavy:
        # near-pure composition (trace amounts elsewhere)
        e = np.full(n, 1e-4)
        e[0] = 1 - 1e-4 * (n - 1) if n < 50 else 0.9
        extra = [e]
        if m.name in ('binary-tabulated', 'compound-lattice', 'lattice', 'edge') or 'plasma' in m.name or m.kw.get('surf') or 'hmw' in m.name or 'debye' in m.name or 'molal' in m.name:
            extra = []
    for c in C + extra:
        for t, p in itertools.product(T, P):
            yield t, p, c


# identities whose violation at a lattice point would be an artefact: phase boundary between the difference points
def setTP(ph, T, P, m):
    ph.TP = T, P


def run_model(task, ctx):
    m = models.BY[task['model']]
    th = ctx.tier == 'thorough'
    ph = make(m)
    nm = m.name
    n = ph.n_species
    wantpl = 'plasma' in nm
    ke = -1
    if wantpl:
        ke = ph.species_index('E')
    notk = np.array([k != ke for k in range(n)])
    comp_ = ph.is_compressible or m.kw.get('pure')
    nst = 0
    for T, P, X in lattice(m, ph, th):
        nst += 1
        ph.basis = 'molar'

        def back():
            ph.TPX = T, P, X
        try:
            back()
        except ct.CanteraError as e:
            if m.kw.get('pure'):
                ctx.skip(f'{nm}: {str(e)[80:200]}')
                continue
            raise
        ctx.outcome((nm, T, P, X.tobytes()))
        ctx.trace()
        X = ph.X.copy()
        st = f'T={T} P={P} X={np.array2string(X, precision=4, threshold=8)}'
        g_, h_, s_, u_, v_ = (get(lambda a=a: getattr(ph, a)) for a in 'ghsuv')
        cp_, cv_ = get(lambda: ph.cp), get(lambda: ph.cv)
        hk, gk, sk, uk, vk, cpk = (get(lambda a=a: getattr(ph, a).copy()) for a in
                                   ('partial_molar_enthalpies', 'chemical_potentials', 'partial_molar_entropies', 'partial_molar_int_energies', 'partial_molar_volumes', 'partial_molar_cp'))
        E = R_ * T
        for x in (h_, g_):
            if x is not None:
                E = max(E, abs(x))
        if hk is not None:
            E = max(E, np.abs(hk * X).max())
        Ek = E
        if hk is not None and gk is not None:
            Ek = max(E, np.abs(hk).max(), np.abs(gk[X > 0]).max())
        rt = max(1e-9, m.rtol)

        def ident(name, a, b, tol, why=''):
            ctx.ev()
            ctx.trans()
            a, b = np.asarray(a, float), np.asarray(b, float)
            ok = np.all((np.abs(a - b) <= tol) | (a == b))
            if not ok:
                i = int(np.argmax(np.abs(np.atleast_1d(a) - np.atleast_1d(b)))) if a.shape else ''
                ctx.violation(f'{nm}:{name}', f'{st}: {name}: {a[i] if a.shape else a} != {b[i] if b.shape else b} (tolerance {np.max(tol):.3g}) {i} {why}')

        def have(*a):
            return all(x is not None and np.all(np.isfinite(x)) for x in a)
        # ---- definitions
        if m.kw.get('surf'):
            ident('h=u', h_, u_, rt * E)     # surface phases have no volume
        elif have(h_, u_, v_):
            ident('h=u+Pv', h_, u_ + P * v_, rt * E)
        if have(g_, h_, s_):
            ident('g=h-Ts', g_, h_ - T * s_, rt * max(E, abs(T * s_)))
        W = ph.mean_molecular_weight
        d_ = ph.density_mass
        ident('W=sum XW', W, float(X @ ph.molecular_weights), 1e-12 * W)
        if not m.kw.get('surf') and have(v_):
            ident('v=W/rho', v_, W / d_, 1e-9 * v_)
        ident('density_mole', ph.density_mole * W, d_, 1e-10 * d_)
        if get(lambda: ph.concentrations) is not None:
            ident('concentrations', ph.concentrations, X * ph.density_mole, 1e-10 * ph.density_mole)
        if n > 1:
            ident('Y', ph.Y, X * ph.molecular_weights / W, 1e-12)
        for e in range(ph.n_elements):
            na = np.array([[ph.n_atoms(k, j) for j in range(ph.n_elements)] for k in range(n)])
            aw = np.array([ct.Element(x).weight if x != 'E' else ct.electron_mass * ct.avogadro for x in ph.element_names]) if nst == 1 and False else None
            tot = float((X[:, None] * na).sum())
            if abs(tot) > 1e-6:
                ident('elemental_mole_fraction', ph.elemental_mole_fraction(e), float(X @ na[:, e]) / tot, 1e-10)
            ident('elemental_mass_fraction', ph.elemental_mass_fraction(e), float(X @ na[:, e]) * ph.atomic_weight(e) / W, 1e-10)
        # ---- mass basis
        mol = {a: get(lambda a=a: getattr(ph, a)) for a in ('g', 'h', 's', 'u', 'v', 'cp', 'cv')}
        ph.basis = 'mass'
        for a, x in mol.items():
            y = get(lambda a=a: getattr(ph, a))
            if have(x, y):
                ident(f'{a}: mass*W=molar', y * W, x, 1e-9 * max(abs(x), abs(y * W), 1e-300))
        for a, b in (('g', 'gibbs'), ('h', 'enthalpy'), ('s', 'entropy'), ('u', 'int_energy'), ('cp', 'cp'), ('cv', 'cv'), ('v', 'volume'), ):
            for bas, f in (('mass', 1 / W), ('mole', 1.0)):
                if a == 'v' and m.kw.get('surf'):
                    continue
                y = get(lambda: getattr(ph, f'{b}_{bas}'))
                if have(y, mol[a]):
                    ident(f'{b}_{bas}', y, mol[a] * f, 1e-9 * abs(mol[a] * f) + 1e-300)
        ph.basis = 'molar'
        # ---- partial molar properties
        pos = X > 0
        if have(hk, uk, vk):
            ident('hk=uk+Pvk', hk[notk], (uk + P * vk)[notk], rt * Ek)
        if have(hk, sk, gk):
            w = pos & notk
            ident('gk=hk-Tsk', gk[w], (hk - T * sk)[w], rt * np.maximum(Ek, np.abs(T * sk[w])))
        for name, mix, part, tol in (('h=sum hk', h_, hk, rt * Ek), ('u=sum uk', u_, uk, rt * Ek), ('g=sum gk', g_, gk, rt * Ek), ('s=sum sk', s_, sk, rt * Ek / T),
                                     ('v=sum vk', v_, vk, None), ('cp=sum cpk', cp_, cpk, None)):
            if have(mix) and part is not None and np.all(np.isfinite(part[pos])):
                if m.kw.get('surf') and name[0] == 'v':
                    continue
                sm = float((X[pos] * part[pos]).sum())
                if tol is None:
                    tol = rt * max(abs(mix), np.abs(X[pos] * part[pos]).max(), R_ * 1e-2 if 'cp' in name else 0)
                ident(name, mix, sm, tol)
        # ---- activities
        mu0 = get(lambda: ph.standard_gibbs_RT.copy())
        act = get(lambda: ph.activities.copy())
        gam = get(lambda: ph.activity_coefficients.copy())
        if have(mu0, act, gk):
            w = pos & (act > 1e-290)
            if wantpl:
                w = w & notk
            with np.errstate(all='ignore'):
                ident('mu=mu0+RTln(a)', gk[w] / (R_ * T), (mu0 + np.log(act))[w], rt * 10 * np.maximum(1, np.abs(mu0[w])))
        if have(gam, act) and not any(x in nm for x in ('debye', 'hmw', 'molal', 'vpss-hkft')) and nm != 'binary-tabulated':
            ident('a=gamma*X', act, gam * X, 1e-9 * np.maximum(1, act))
        ec = get(lambda: ph.electrochemical_potentials.copy())
        if have(ec, gk):
            ident('electrochemical', ec[pos], (gk + F_ * ph.charges * ph.electric_potential)[pos], rt * Ek)
        # ---- standard state
        h0, s0, cp0, u0 = (get(lambda a=a: getattr(ph, a).copy()) for a in ('standard_enthalpies_RT', 'standard_entropies_R', 'standard_cp_R', 'standard_int_energies_RT'))
        if have(h0, s0, mu0):
            sc = np.maximum(1.0, np.maximum(np.abs(h0), np.abs(s0)))
            ident('g0=h0-Ts0', mu0[notk], (h0 - s0)[notk], rt * sc[notk])
        # ---- derivatives
        dense = ph.density_mass > 200
        dT, dP = 2e-4 * T, (5e-2 if dense and P < 3e5 else 1e-2) * P

        def fd(attrs, setter, x0, dx):
            """central differences of attrs; None when a neighbour state is in another branch."""
            r = []
            for sgn in (-1, 1):
                back()
                setter(x0 + sgn * dx)
                row = []
                for a in attrs:
                    x = get(lambda: np.array(getattr(ph, a)))
                    row.append(x)
                r.append(row)
            back()
            return [None if a is None or b is None else (b - a) / (2 * dx) for a, b in zip(*r)]
        full = ['h', 's', 'v', 'g', 'chemical_potentials', 'partial_molar_enthalpies', 'standard_enthalpies_RT', 'standard_gibbs_RT', 'standard_entropies_R', 'u']
        P0 = ph.P

        def st_T(t):
            ph.TP = t, P0

        def st_P(p):
            ph.TP = T, p
        try:
            dh, ds, dv, dg, dgk, dhk, dh0, dg0, ds0, du = fd(full, st_T, T, dT)
            Ph, Ps, Pv, Pg, Pgk, Phk, Ph0, Pg0, Ps0, Pu = fd(full, st_P, P, dP)
        except ct.CanteraError as e:
            ctx.skip(f'{nm}: finite difference points not available ({str(e).split("thrown by")[-1][:60]})')
            back()
            continue
        FD = 1e-4
        V3 = 6e-3 if m.kw.get('pure') else 1e-3
        nz = 3e-10 * Ek / dT * (100 if m.rtol > 1e-8 else 1)     # rounding noise of an energy difference quotient in T
        if have(dh, cp_):
            ident('cp=dh/dT', cp_, dh, FD * max(abs(cp_), abs(dh)) + nz)
        if have(ds, cp_):
            ident('cp=T ds/dT', cp_, T * ds, FD * max(abs(cp_), abs(dh or 0)) + nz)
        if have(dg, s_):
            ident('s=-dg/dT', s_, -dg, FD * max(abs(s_), R_) + nz)
        nv = 3e-10 * Ek / dP * (100 if m.rtol > 1e-8 else 1)
        if not m.kw.get('surf'):
            if have(Pg, v_) and nm != 'electron-cloud':
                ident('v=dg/dP', v_, Pg, 1e-3 * abs(v_) + nv)
            if have(Ps, dv):
                ident('ds/dP=-dv/dT', Ps, -dv, V3 * max(abs(Ps), abs(dv)) + 1e-5 * abs(v_) / T + nv / T)
            b_, a_ = get(lambda: ph.isothermal_compressibility), get(lambda: ph.thermal_expansion_coeff)
            if have(b_, Pv):
                ident('betaT', b_, -Pv / v_, V3 * max(abs(b_), abs(Pv / v_)) + 3e-9 / dP)
            if have(a_, dv):
                ident('alphaV', a_, dv / v_, V3 * max(abs(a_), abs(dv / v_)) + 3e-9 / dT)
            if have(cp_, cv_, b_, a_) and b_ > 0:
                ident('cp-cv', cp_ - cv_, T * v_ * a_ * a_ / b_, 1e-6 * (cp_ + T * v_ * a_ * a_ / b_) + (1e-3 * abs(cp_) if m.kw.get('pure') else 0))
        elif have(Ph, h_) and False:
            pass
        if comp_ and dense and P < 3e6:
            ctx.skip('compressed liquid at low pressure: constant-volume neighbours are two-phase')
        elif comp_ and have(cv_, u_):
            D0 = ph.density

            def st_D(t):
                ph.TD = t, D0
            try:
                dud, dsd, dPd = fd(['u', 's', 'P'], st_T if False else st_D, T, dT)

                def st_D2(d):
                    ph.TD = T, d
                dPr, dsr, dur = fd(['P', 's', 'u'], st_D2, D0, (1e-6 if dense else 1e-4) * D0)
            except ct.CanteraError:
                dud = None
                ctx.skip(f'{nm}: constant-volume points not available')
            if dud is not None:
                if have(dud):
                    ident('cv=du/dT', cv_, dud, FD * max(abs(cv_), abs(dud)) + nz)
                if have(dsd):
                    ident('cv=T ds/dT', cv_, T * dsd, FD * max(abs(cv_), abs(T * dsd)) + nz)
                if have(dsr, dPd):
                    # ds/dv|T = dP/dT|v ; all molar (basis of D0 is molar)
                    dsv = -dsr * D0 * D0
                    ident('ds/dv=dP/dT', dsv, dPd, 1e-3 * max(abs(dsv), abs(dPd)))
                c_ = get(lambda: ph.sound_speed)
                if have(c_, cp_, dPr) and dPr > 0 and cv_ > 0:
                    want = math.sqrt(dPr / W * cp_ / cv_)
                    ident('sound_speed', c_, want, 2e-3 * want)
        # partial molar derivatives
        big = pos & (X > 1e-12) & notk
        if have(gk) and dgk is not None and sk is not None:
            ident('sk=-dmu/dT', sk[big], -dgk[big], 1e-3 * np.maximum(np.abs(sk[big]), R_) + nz)
        if have(gk) and dhk is not None and cpk is not None:
            ident('cpk=dhk/dT', cpk[big], dhk[big], 1e-3 * np.maximum(np.abs(cpk[big]), R_) + nz)
        if not m.kw.get('surf') and have(gk) and Pgk is not None and vk is not None:
            ident('vk=dmu/dP', vk[big], Pgk[big], 2e-3 * max(np.abs(vk[big]).max(), abs(v_)) + nv)
        if have(h0, mu0) and dg0 is not None:
            sc = np.maximum(1.0, np.abs(h0[notk]))
            ident('h0=-T d(g0/RT)/dT', h0[notk], (-T * dg0)[notk], 1e-4 * sc + 3e-10 * np.abs(mu0).max() * T / dT)
        if have(h0, cp0) and dh0 is not None:
            ident('cp0=d(h0)/dT', cp0[notk], (dh0 * T + h0)[notk], 1e-3 * np.maximum(1.0, np.abs(cp0[notk])) + 3e-10 * np.abs(h0).max() * T / dT)
        if have(s0, cp0) and ds0 is not None:
            ident('cp0=T ds0/dT', cp0[notk], (T * ds0)[notk], 1e-3 * np.maximum(1.0, np.abs(cp0[notk])) + 3e-10 * np.abs(s0).max() * T / dT)
        # Gibbs-Duhem in every independent composition direction
        if n > 1 and have(gk) and not wantpl and nm not in ('compound-lattice', 'covdep-surface', 'binary-tabulated') and 'nasa' not in nm:
            k0 = int(np.argmax(X))
            dirs = [k for k in range(n) if k != k0 and X[k] > 1e-12]
            if len(dirs) > 12 and not th:
                dirs = dirs[:12]
            z = ph.charges
            for k in dirs:
                e = np.zeros(n)
                if z[k] != 0:
                    kk = [j for j in range(n) if z[j] * z[k] < 0 and X[j] > 1e-12]
                    if not kk:
                        continue
                    j = kk[0]
                    e[k], e[j] = 1.0, -z[k] / z[j]
                    e[k0] -= e.sum()
                    mx = min(X[k], X[j], X[k0])
                else:
                    e[k], e[k0] = 1.0, -1.0
                    mx = min(X[k], X[k0])
                d = 1e-3 * mx
                mm = []
                for sgn in (-1, 1):
                    ph.TPX = T, P, X + sgn * d * e
                    mm.append(ph.chemical_potentials.copy())
                back()
                dmu = (mm[1] - mm[0]) / (2 * d)
                w = X > 0
                sc = np.abs(X[w] * dmu[w]).max()
                ident('Gibbs-Duhem', float((X[w] * dmu[w]).sum()), 0.0, 2e-4 * max(sc, R_ * T) + 1e-9 * Ek * X.max() / d * (1e-3 if m.rtol <= 1e-8 else 1e-1))
                # (1 mol) Gibbs energy is consistent with the chemical potentials along this direction
        ctx.state((nm, T, P, X.tobytes()))
    ctx.sample(dict(model=nm, states=nst))
    ctx.check(f'{nm}:nonvacuous', nst > 0 and ctx.c['evals'] > 20, f'only {ctx.c["evals"]} evaluations')


# ---------------------------------------------------------------- species polynomials
def ref_eval(d, T, pref):
    """(cp/R, h/RT, s/R) from the input definition, independent evaluation. None when unknown."""
    md = d['model']
    if md == 'NASA7':
        rng, data = d['temperature-ranges'], d['data']
        if len(data) == 1:
            a = data[0]
        else:
            a = data[0] if T <= rng[1] else data[1]
        cp = a[0] + a[1] * T + a[2] * T**2 + a[3] * T**3 + a[4] * T**4
        h = a[0] + a[1] * T / 2 + a[2] * T**2 / 3 + a[3] * T**3 / 4 + a[4] * T**4 / 5 + a[5] / T
        s = a[0] * math.log(T) + a[1] * T + a[2] * T**2 / 2 + a[3] * T**3 / 3 + a[4] * T**4 / 4 + a[6]
        return cp, h, s
    if md == 'NASA9':
        rng, data = d['temperature-ranges'], d['data']
        i = 0
        while i < len(data) - 1 and T > rng[i + 1]:
            i += 1
        a = data[i]
        cp = a[0] / T**2 + a[1] / T + a[2] + a[3] * T + a[4] * T**2 + a[5] * T**3 + a[6] * T**4
        h = -a[0] / T**2 + a[1] * math.log(T) / T + a[2] + a[3] * T / 2 + a[4] * T**2 / 3 + a[5] * T**3 / 4 + a[6] * T**4 / 5 + a[7] / T
        s = -a[0] / (2 * T**2) - a[1] / T + a[2] * math.log(T) + a[3] * T + a[4] * T**2 / 2 + a[5] * T**3 / 3 + a[6] * T**4 / 4 + a[8]
        return cp, h, s
    if md == 'Shomate':
        rng, data = d['temperature-ranges'], d['data']
        if len(data) == 1:
            a = data[0]
        else:
            a = data[0] if T <= rng[1] else data[1]
        A, B, C, D, E, F, G = a
        t = T / 1000
        cp = A + B * t + C * t**2 + D * t**3 + E / t**2
        h = A * t + B * t**2 / 2 + C * t**3 / 3 + D * t**4 / 4 - E / t + F
        s = A * math.log(t) + B * t + C * t**2 / 2 + D * t**3 / 3 - E / (2 * t**2) + G
        return cp * 1000 / R_, h * 1e6 / (R_ * T), s * 1000 / R_
    return None


def species_files(tier):
    q = ['h2o2.yaml', 'gri30.yaml', 'gasNASA9.yaml', 'airNASA9.yaml', 'nasa_gas.yaml', 'nasa_condensed.yaml', 'graphite.yaml', 'silane.yaml', 'silicon.yaml', 'ptcombust.yaml', 'diamond.yaml', 'sofc.yaml', 'thermo-models.yaml']
    if tier == 'quick':
        return q
    out = []
    for dd in ('/data', '/test/data'):
        for f in sorted(glob.glob(models.R + dd + '/*.yaml')):
            out.append(f)
    return out


def has_thermo(s):
    try:
        return s.thermo is not None
    except TypeError:
        return False


def run_species(task, ctx):
    try:
        S = ct.Species.list_from_file(task['species'])
    except (ct.CanteraError, ValueError, KeyError) as e:
        ctx.skip(f'{os.path.basename(task["species"])}: no species list')
        return
    for sp in S:
        try:
            th = sp.thermo
        except TypeError:
            continue
        d = th.input_data
        fn = os.path.basename(task['species'])
        lo, hi, p0 = th.min_temp, th.max_temp, th.reference_pressure
        cut = [float(x) for x in d.get('temperature-ranges', [lo, hi])]
        Ts = []
        for c in cut:
            Ts += [c, np.nextafter(c, 0), np.nextafter(c, 1e9), c - 1, c + 1]
        for a, b in zip(cut, cut[1:]):
            Ts += [a + 0.31 * (b - a), a + 0.77 * (b - a)]
        Ts = [float(t) for t in Ts if t > 1.0 and t < 1e6 and np.isfinite(t)]
        ranges_ = d.get('model')
        for T in Ts:
            try:
                got = (th.cp(T) / R_, th.h(T) / (R_ * T), th.s(T) / R_)
            except NotImplementedError:
                ctx.skip('not implemented')
                break
            ctx.ev()
            ctx.trans()
            ctx.outcome((fn, sp.name, T))
            want = ref_eval(d, T, p0)
            if want is None:
                # constant-cp, piecewise-Gibbs: derivative consistency within a range
                if ranges_ == 'constant-cp':
                    T0, h0, s0, c0 = float(_q(d.get('T0', 298.15))), _q(d.get('h0', 0), True), _q(d.get('s0', 0), True), _q(d.get('cp0', 0), True)
                    if None not in (h0, s0, c0):
                        want = (c0 / R_, (h0 + c0 * (T - T0)) / (R_ * T), (s0 + c0 * math.log(T / T0)) / R_)
                if want is None:
                    dT = 1e-4 * T
                    if min(abs(T - c) for c in cut) > 2 * dT and lo + dT < T < hi - dT:
                        cpn = (th.h(T + dT) - th.h(T - dT)) / (2 * dT) / R_
                        sn = (th.s(T + dT) - th.s(T - dT)) / (2 * dT) * T / R_
                        if ranges_ != 'piecewise-Gibbs':
                            ctx.close(f'{fn}:{sp.name}:dhdT', got[0], cpn, rtol=1e-5, atol=1e-4 * max(1, abs(got[1]) * 1e-3), msg=f'{ranges_} T={T}')
                            ctx.close(f'{fn}:{sp.name}:dsdT', got[0], sn, rtol=1e-5, atol=1e-4, msg=f'{ranges_} T={T}')
                    continue
            alt = want
            if T in cut:     # at the boundary itself both ranges are right
                alt = ref_eval(d, float(np.nextafter(T, 1e9)), p0) or want
            for nme, a, b, b2 in zip(('cp', 'h', 's'), got, want, alt):
                if abs(a - b2) < abs(a - b):
                    b = b2
                sc = max(1.0, abs(b))
                if abs(T - 1) and nme in 'hs':
                    sc = max(sc, abs(want[0]))
                ctx.check(f'{fn}:{sp.name}:{nme}', abs(a - b) <= 3e-9 * sc, f'{ranges_} at T={T!r} (ranges {cut}): got {a!r} want {b!r}')
        # continuity: consecutive ranges meet within the data accuracy, when the data do
        ctx.trace()
    # a phase built from the species: manager routes every temperature to the same value as the species object
    n = 0
    S = [s for s in S if has_thermo(s)]
    per = [s for s in S if s.thermo.input_data.get('model') in ('NASA7', 'NASA9', 'Shomate', 'constant-cp') and abs(s.charge) < 100]
    per = per[:400]
    names = set()
    per = [s for s in per if not (s.name in names or names.add(s.name))]
    p0s = {}
    for s in per:
        p0s.setdefault(s.thermo.reference_pressure, []).append(s)
    for p0, grp in p0s.items():
        try:
            ph = ct.Solution(thermo='ideal-gas', species=grp)
        except ct.CanteraError:
            ctx.skip(f'{os.path.basename(task["species"])}: cannot be made a gas')
            continue
        cuts = sorted({float(c) for s in grp for c in s.thermo.input_data.get('temperature-ranges', [])})
        Ts = sorted({t for c in cuts for t in (c - 1e-6, c + 1e-6, c - 1, c + 1) if 10 < t < 1e5} | {333.3, 1234.5})
        Ts = Ts[:40] + Ts[40::5]
        order = Ts + Ts[::-1]
        for T in order:
            ph.TP = T, p0
            a = (ph.standard_cp_R, ph.standard_enthalpies_RT, ph.standard_entropies_R)
            b = np.array([(s.thermo.cp(T) / R_, s.thermo.h(T) / (R_ * T), s.thermo.s(T) / R_) for s in grp]).T
            for nme, x, y in zip(('cp', 'h', 's'), a, b):
                ctx.ev()
                ctx.trans()
                ctx.close(f'{os.path.basename(task["species"])}:manager:{nme}', x, y, rtol=1e-10, atol=1e-10 * max(1, np.abs(y).max()), msg=f'T={T}, p0={p0}')


def _q(x, dim=False):
    """plain SI number, or None when it carries units (not re-parsed here)."""
    if isinstance(x, (int, float)):
        return float(x)
    return None


def tasks(tier):
    out = [dict(model=m.name) for m in models.POOL]
    out += [dict(species=f) for f in species_files(tier)]
    return out


def run(task, ctx):
    if 'model' in task:
        run_model(task, ctx)
    else:
        run_species(task, ctx)
