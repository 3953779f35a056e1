"""C06: composition forms, conversions, equivalence ratio / mixture fraction over exhaustive small grammars."""
import itertools, os
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C06', 'exploration'
BUILD = ['py']
TECHNIQUE = 'bounded-exhaustive enumeration of compositions, input forms, start states and fuel/oxidizer/basis/diluent/fraction combinations on the real phase objects against an independent reference'
LEVEL_NOTE = 'Every composition of the bounded grammar is set through every form from several prior states; every fuel x oxidizer x basis x phi x dilution combination is executed. Values between the enumerated ones are not visited.'
RULE = ('composition part: all supports of at most 3 species x weights x scale x form x prior state, for every thermo model; mixture part: all fuels x oxidizers x bases x phi x (no dilution | diluent x kind of fraction x value) '
        'for several gas models; non-trivial = accepted by the phase')
ASSUMPTIONS = ['tolerance 1e-9 relative', 'equivalence ratio is defined by complete oxidation of C, H, S']
BOUNDS = {'quick': '50 thermo models; supports <= 3 species; 9 fuels x 6 oxidizers x 2 bases x 6 phi x up to 22 dilutions', 'thorough': 'all supports of size 3 for every model up to 20 species, prior states x3, more phi values'}
DATA = os.path.join(models.R, 'data')

SP = ['CH4', 'C2H5OH', 'H2', 'CO', 'H2S', 'NH3', 'O2', 'N2', 'Ar', 'CO2', 'H2O', 'H2O2', 'SO2', 'N2O', 'He', 'C2H2,acetylene', 'CH3OH', 'O3']


def chos(reorder=False):
    S = {s.name: s for s in ct.Species.list_from_file('nasa_gas.yaml')}
    names = [n for n in SP if n in S]
    if reorder:
        names = names[::-1]
    return ct.Solution(thermo='ideal-gas', species=[S[n] for n in names], name='chos')


def forms(ph, w):
    """every accepted form of the composition w (array over species)."""
    nm = ph.species_names
    nz = [k for k in range(len(w)) if w[k] != 0]
    out = [('array', np.array(w)), ('list', list(w)), ('tuple', tuple(w)), ('dict', {nm[k]: w[k] for k in nz}),
           ('dict-rev0', {nm[k]: float(w[k]) for k in reversed(range(len(w)))}),
           ('strided', np.repeat(np.array(w), 2)[::2])]
    if all(',' not in nm[k] and ' ' not in nm[k] for k in nz):
        out += [('str', ', '.join(f'{nm[k]}:{float(w[k])!r}' for k in nz)),
                ('str-rev', ','.join(f'{nm[k]} : {w[k]:.17e}' for k in reversed(nz))),
                ('str-ws', '  ' + ' \n '.join(f'{nm[k]}:\t{float(w[k])!r}' for k in nz) + '\n')]
        if len(nz) == 1 and w[nz[0]] == 1:
            pass
    if all(float(x).is_integer() for x in w):
        out.append(('intarray', np.array(w, dtype=int)))
        out.append(('intdict', {nm[k]: int(w[k]) for k in nz}))
    return out


def run_forms(task, ctx):
    m = models.BY[task['model']]
    th = ctx.tier == 'thorough'
    ph = m.make()
    nm = m.name
    n = ph.n_species
    M = ph.molecular_weights
    A = np.array([[ph.n_atoms(k, e) for e in range(ph.n_elements)] for k in range(n)])
    base = models.comps(m, ph)
    sup = [(k,) for k in range(n)] + list(itertools.combinations(range(n), 2)) + list(itertools.combinations(range(n), 3))
    cap = 600 if th else (40 if m.heavy else 90)
    if len(sup) > cap:
        st = len(sup) / cap
        sup = sorted(set(sup[:n][: cap // 2] + [sup[int(i * st)] for i in range(cap)]))
    W = []
    for s in sup:
        for ws in ([(1.,)] if len(s) == 1 else [(1., 2.), (3e-7, 0.25)] if len(s) == 2 else [(1., 2., 4.), (0.7, 1e-12, 5.)]):
            w = np.zeros(n)
            w[list(s)] = ws
            W.append(w)
    W += [np.arange(1., n + 1), np.ones(n), (np.arange(n) % 3 + 1e-3) * 1e6, base[0]]
    T, P = m.T[0], m.P[0]
    wneg = np.arange(n) % 3 - 1.0
    lat = nm in ('lattice', 'compound-lattice')
    comp = ph.is_compressible and not m.kw.get('pure') and not m.kw.get('surf') and 'redlich' not in nm and 'peng' not in nm
    starts = [base[0], base[-1]]
    for iw, w in enumerate(W):
        wantX = {'X': w / w.sum(), 'Y': (w / M) / (w / M).sum()}
        for basis in 'XY':
            if basis == 'Y' and lat:
                continue
            want = wantX[basis]
            F = forms(ph, w)
            for i, (fn, f) in enumerate(F):
                for si, s0 in enumerate(starts):
                    if si and (i + iw) % len(F):
                        continue
                    meth = ('attr', 'TP', 'TD')[(i + iw + si) % 3]
                    if meth == 'TD' and not ph.is_compressible:
                        meth = 'TP'
                    ph.TPX = T, P, s0
                    rho = ph.density
                    try:
                        if meth == 'attr':
                            setattr(ph, basis, f)
                        elif meth == 'TP':
                            setattr(ph, 'TP' + basis, (T, P, f))
                        else:
                            setattr(ph, 'TD' + basis, (T, rho, f))
                    except (ct.CanteraError, NotImplementedError, AttributeError) as e:
                        if m.heavy or m.kw.get('pure') or 'redlich' in nm or 'peng' in nm or 'debye' in nm or 'hmw' in nm or 'vpss' in nm or 'tabulated' in nm or 'lattice' in nm:
                            ctx.skip(f'{nm}: composition refused')
                            continue
                        ctx.violation(f'{nm}:{basis}:{fn}:raise', f'{w} via {meth}: {e}')
                        continue
                    X, Y = ph.X, ph.Y
                    d = dict(w=list(map(float, w)), form=fn, meth=meth)
                    key = f'{nm}:{basis}:{fn}'
                    ctx.close(key, X, want, rtol=1e-9, atol=1e-15, msg=f'mole fractions set from {fn} through {basis} {meth}', data=d)
                    ctx.check(key, X.min() >= 0 and Y.min() >= 0 and abs(X.sum() - 1) < 1e-12 and abs(Y.sum() - 1) < 1e-12, f'not normalized after {fn}: {X.sum()!r} {Y.sum()!r}', d)
                    ctx.close(key + ':conv', Y, X * M / (X @ M), rtol=1e-11, atol=1e-300, msg='mass vs mole fractions', data=d)
                    ctx.close(key + ':mmw', ph.mean_molecular_weight, X @ M, rtol=1e-11, msg='mean molecular weight', data=d)
                    if meth == 'TD' or (meth == 'attr' and ph.is_compressible and comp):
                        ctx.close(key + ':rho', ph.density, rho, rtol=1e-12, msg='density changed by composition setter', data=d)
                    if meth == 'TP':
                        ctx.close(key + ':P', ph.P, P, rtol=1e-8, msg='pressure', data=d)
                    ctx.close(key + ':T', ph.T, T, rtol=1e-14, msg='temperature', data=d)
                    ctx.ev()
                    ctx.trans()
            # derived composition quantities
            if not m.kw.get('surf') and nm != 'compound-lattice' and comp:
                C = ph.concentrations
                ctx.close(f'{nm}:conc', C, ph.X * ph.density_mole, rtol=1e-10, msg='concentrations')
            md = ph.mole_fraction_dict()
            ctx.check(f'{nm}:mfd', all(abs(md.get(s, 0) - x) < 1e-15 for s, x in zip(ph.species_names, ph.X)) and all(v > 0 for v in md.values()), 'mole_fraction_dict')
            th_ = 0.3
            yd = ph.mass_fraction_dict(th_)
            ctx.check(f'{nm}:mfd', set(yd) == {s for s, y in zip(ph.species_names, ph.Y) if y > th_}, 'mass_fraction_dict threshold')
            aw = ph.atomic_weights
            el = ph.X @ A
            if el.sum() > 0 and 'E' not in ph.element_names:
                for e in range(ph.n_elements):
                    ctx.close(f'{nm}:elem', ph.elemental_mole_fraction(e), el[e] / el.sum(), rtol=1e-9, atol=1e-14, msg='elemental mole fraction')
                    ctx.close(f'{nm}:elem', ph.elemental_mass_fraction(ph.element_name(e)), el[e] * aw[e] / (ph.X @ M), rtol=1e-9, atol=1e-14, msg='elemental mass fraction')
            if comp:
                # concentrations set back: density, composition
                ph.TPX = T, P, base[0]
                try:
                    c = w / w.sum() * 0.04
                    ph.concentrations = c
                    ctx.close(f'{nm}:setconc', ph.X, w / w.sum(), rtol=1e-10, atol=1e-15, msg='X after concentrations')
                    ctx.close(f'{nm}:setconc', ph.density, c @ M, rtol=1e-10, msg='density after concentrations')
                    ctx.close(f'{nm}:setconc', ph.concentrations, c, rtol=1e-10, atol=1e-18, msg='concentrations read back')
                    ctx.close(f'{nm}:setconc', ph.T, T, rtol=1e-14, msg='T after concentrations')
                except AttributeError:
                    ctx.skip('no concentration setter')
            ctx.state((nm, basis, w.tobytes()))
    # negative entries are ignored, unnormalized setters keep sums
    if not lat and n > 1:
        for basis in 'XY':
            ph.TPX = T, P, base[0]
            w = base[-1] + 0
            j = int(np.argmin(w))
            w2 = w + 0
            w2[j] = -0.4
            ref = w + 0
            ref[j] = 0
            try:
                setattr(ph, 'TP' + basis, (T, P, w2))
                a = ph.X
                setattr(ph, 'TP' + basis, (T, P, ref))
                ctx.close(f'{nm}:neg', a, ph.X, rtol=1e-12, atol=1e-16, msg=f'negative {basis} entries')
            except ct.CanteraError:
                ctx.skip('refused negative')
            Z = np.maximum(base[0], 1e-3) * 1.02
            try:
                getattr(ph, 'set_unnormalized_mole_fractions' if basis == 'X' else 'set_unnormalized_mass_fractions')(Z)
                ctx.close(f'{nm}:unnorm', getattr(ph, basis), Z, rtol=1e-11, msg=f'unnormalized {basis}')
            except ct.CanteraError:
                ctx.skip('refused unnormalized')
        # invalid forms: refused, nothing changes
        ph.TPX = T, P, base[0]
        before = (ph.state.copy())
        a = ph.species_names[0]
        bad = [{'no-such-species': 1.0}, {a: 1.0, 'no-such-species': 0.0}, f'{a}:1, no-such-species:2', [1.0] * (n + 1), np.ones(n - 1), np.ones((n, 2))[:, :1][:0], f'{a}:1, {a}:1', f'{a}:1:2', f'{a}:x', f'{a}:',
               {a: 'x'}, 'nonsense']
        for b in bad:
            for meth in ('X', 'Y', 'TPX', 'TDY' if ph.is_compressible and not m.kw.get('pure') and hasattr(type(ph), 'TDY') else 'TPY'):
                if lat and 'Y' in meth:
                    continue
                ph.state = before
                try:
                    setattr(ph, meth, b if len(meth) == 1 else (None, None, b))
                    ctx.violation(f'{nm}:bad:{b!r:.60}', f'{meth} = {b!r} accepted, X = {ph.X}')
                except (ct.CanteraError, ValueError, TypeError, IndexError, KeyError):
                    pass
                ctx.check(f'{nm}:bad-state:{b!r:.60}', np.array_equal(before, ph.state), f'refused {meth} = {b!r} changed the state')
                ctx.trans()


FUELS = [{'CH4': 1}, {'C2H5OH': 1}, {'H2': 0.7, 'CO': 0.3}, {'H2S': 1}, {'NH3': 2, 'H2': 1, 'N2': 1}, {'CH4': 0.5, 'N2': 0.3, 'H2O': 0.2}, {'CO': 1, 'CO2': 3}, {'CH4': 0.95, 'O2': 0.05}, {'C2H2,acetylene': 2, 'Ar': 1}]
OXS = [{'O2': 1}, {'O2': 0.21, 'N2': 0.79}, {'O2': 1, 'CO2': 2, 'H2O': 0.3}, {'H2O2': 1}, {'O3': 0.1, 'O2': 1, 'Ar': 3}, {'O2': 1, 'N2': 3.76, 'H2': 0.05}]
DILS = [{'Ar': 1}, {'CO2': 0.6, 'N2': 0.4}, {'H2O': 1}, {'O2': 0.1, 'He': 1}]


def vec(ph, d):
    v = np.zeros(ph.n_species)
    for k, x in d.items():
        v[ph.species_index(k)] = x
    return v


def asform(i, ph, d):
    """one of the accepted argument forms"""
    i = i % 4
    if i == 0:
        return dict(d)
    if i == 1:
        return vec(ph, d)
    if i == 2 and len(d) == 1:
        return next(iter(d))
    if any(',' in k for k in d):
        return dict(d)
    return ', '.join(f'{k}:{v}' for k, v in d.items())


def run_mix(task, ctx):
    th = ctx.tier == 'thorough'
    ph = mkgas(task['gas'])
    names = set(ph.species_names)
    M = ph.molecular_weights
    N = {e: np.array([ph.n_atoms(k, e) if e in ph.element_names else 0 for k in range(ph.n_species)]) for e in 'CHOSN'}
    need = N['C'] + N['S'] + N['H'] / 4 - N['O'] / 2      # mol O2 per mol of species
    req = N['C'] + N['S'] + N['H'] / 4
    fuels = [f for f in FUELS if set(f) <= names]
    oxs = [o for o in OXS if set(o) <= names]
    dils = [d for d in DILS if set(d) <= names]
    phis = [0.0, 0.3, 1.0, 1.7, 40.] + ([1e-6, 0.999999, 3.3] if th else [])
    T, P = task.get('T', 400.), task.get('P', 2e5)
    rt = 1e-8
    ctr = task['f']
    for (io, oxd), basis in itertools.product(enumerate(oxs), ('mole', 'mass')):
        fd = fuels[task['f']]
        fv, ov = vec(ph, fd), vec(ph, oxd)
        # mass fractions of fuel and oxidizer
        if basis == 'mole':
            yf, yo = fv * M / (fv @ M), ov * M / (ov @ M)
        else:
            yf, yo = fv / fv.sum(), ov / ov.sum()
        nf, no = (yf / M) @ need, (yo / M) @ need
        key = f'{task["gas"]}:{fd}:{oxd}:{basis}'
        ctr += 1
        f, o = asform(ctr, ph, fd), asform(ctr // 2 + io, ph, oxd)
        ph.TPX = T, P, 'N2:1' if 'N2' in names else 'AR:1'
        st0 = ph.state.copy()
        if nf < 0 or no > 0:
            for fn in (lambda: ph.set_equivalence_ratio(1.0, f, o, basis), lambda: ph.stoich_air_fuel_ratio(f, o, basis), lambda: ph.equivalence_ratio(f, o, basis), lambda: ph.mixture_fraction(f, o, basis)):
                try:
                    fn()
                    ctx.violation(key + ':swapped', f'fuel/oxidizer mixed up accepted: {fd} {oxd}')
                except ct.CanteraError:
                    pass
                ctx.check(key + ':state', np.array_equal(st0, ph.state), 'refused call changed the state')
            continue
        afr = nf / -no
        ctx.close(key + ':afr', ph.stoich_air_fuel_ratio(f, o, basis), afr, rtol=rt, msg='stoichiometric air-fuel ratio')
        ctx.check(key + ':state', np.array_equal(st0, ph.state), 'query changed the state')
        Zst = 1 / (1 + afr)
        for Z in (0.0, 0.01, Zst, 0.5, 1.0):
            ctx.trans()
            ph.TPX = T, P, 'N2:1' if 'N2' in names else 'AR:1'
            ph.set_mixture_fraction(Z, f, o, basis)
            y = Z * yf + (1 - Z) * yo
            ctx.close(key + ':setZ', ph.Y, y, rtol=rt, atol=1e-14, msg=f'composition after mixture fraction {Z}')
            ctx.close(key + ':TP', [ph.T, ph.P], [T, P], rtol=1e-9, msg='T,P after set_mixture_fraction')
            s0 = ph.state.copy()
            ctx.close(key + ':getZ', ph.mixture_fraction(f, o, basis), Z, rtol=rt, atol=1e-12, msg=f'mixture fraction read back')
            for e in ph.element_names:
                k = ph.element_index(e)
                ef, eo = (yf / M) @ [ph.n_atoms(j, k) for j in range(ph.n_species)], (yo / M) @ [ph.n_atoms(j, k) for j in range(ph.n_species)]
                if abs(ef - eo) > 1e-6 * max(ef, eo) and max(ef, eo) > 0:
                    ctx.close(key + ':getZe', ph.mixture_fraction(f, o, basis, element=e if k % 2 else k), Z, rtol=1e-7, atol=1e-11, msg=f'mixture fraction from element {e}')
                elif ef == eo:
                    try:
                        ph.mixture_fraction(f, o, basis, element=e)
                        ctx.violation(key + ':Ze-undef', f'mixture fraction from element {e} with equal fractions accepted')
                    except ct.CanteraError:
                        pass
            wphi = Z / (1 - Z) * afr if Z < 1 else np.inf
            ctx.close(key + ':phiZ', ph.equivalence_ratio(f, o, basis), wphi, rtol=1e-6 if Z in (0.01, Zst, 0.5) else 1e-8, atol=1e-10, msg=f'equivalence ratio at Z={Z}')
            ctx.check(key + ':state', np.array_equal(s0, ph.state), 'query changed the state')
        for phi in phis:
            ph.TPX = T, P, 'N2:1' if 'N2' in names else 'AR:1'
            ph.set_equivalence_ratio(phi, f, o, basis)
            y0 = (phi * yf + afr * yo) / (phi + afr)
            ctx.close(key + ':setphi', ph.Y, y0, rtol=rt, atol=1e-14, msg=f'composition after equivalence ratio {phi}')
            ctx.close(key + ':TP', [ph.T, ph.P], [T, P], rtol=1e-9, msg='T,P after set_equivalence_ratio')
            ctx.close(key + ':getphi', ph.equivalence_ratio(f, o, basis), phi, rtol=1e-7, atol=1e-10, msg='equivalence ratio read back')
            pres = (y0 / M) @ N['O'] / 2
            ctx.close(key + ':getphi0', ph.equivalence_ratio(), ((y0 / M) @ req) / pres if pres > 0 else np.inf, rtol=1e-7, atol=1e-12, msg='equivalence ratio from elements')
            inc = [s for s in ph.species_names if s in ('CH4', 'O2', 'H2', 'CO', 'H2S', 'N2')]
            ii = [ph.species_index(s) for s in inc]
            s0 = (ph.T, ph.P, ph.Y.copy())
            p2 = (y0[ii] / M[ii]) @ N['O'][ii] / 2
            if y0[ii].sum() > 0:
                ctx.close(key + ':incl', ph.equivalence_ratio(include_species=inc), ((y0[ii] / M[ii]) @ req[ii]) / p2 if p2 > 0 else np.inf, rtol=1e-7, atol=1e-12, msg='equivalence ratio with include_species')
            ctx.close(key + ':incl-state', np.r_[ph.T, ph.P, ph.Y], np.r_[s0[0], s0[1], s0[2]], rtol=1e-12, atol=1e-16, msg='include_species query changed the state')
            ctx.trans()
            ctx.state((key, phi))
            if task.get('burn') and 0 < phi < 40:
                ph.equilibrate('TP')
                ctx.close(key + ':burn', ph.equivalence_ratio(f, o, basis), phi, rtol=1e-5, msg='equivalence ratio after equilibration')
            # dilution: amounts a fuel, b oxidizer, d diluent in the basis
            if basis == 'mole':
                mf, mo = fv @ M / fv.sum(), ov @ M / ov.sum()
                a, b = phi / mf, afr / mo
                cf, co = fv / fv.sum(), ov / ov.sum()
            else:
                a, b = phi, afr
                cf, co = yf, yo
            a, b = a / (a + b), b / (a + b)
            for idl, dd in enumerate(dils):
                if not th and (idl + ctr + int(phi * 10)) % 2:
                    continue
                cd = vec(ph, dd)
                cd = cd / cd.sum()
                for kind, vals in (('diluent', [0.0, 0.35, 1.0]), ('fuel', [a, 0.4 * a]), ('oxidizer', [b, 0.25 * b])):
                    for v in vals:
                        if kind != 'diluent' and (v == 0 or v > 1):
                            continue
                        if v and v in (a, b):
                            v *= 1 - 1e-9
                        w = a if kind == 'fuel' else b
                        d = v if kind == 'diluent' else 1 - v / w
                        want = (1 - d) * (a * cf + b * co) + d * cd
                        ph.TPX = T, P, 'N2:1' if 'N2' in names else 'AR:1'
                        try:
                            ph.set_equivalence_ratio(phi, f, o, basis, diluent=asform(ctr + idl, ph, dd), fraction=f'{kind}:{float(v)!r}' if (ctr + idl) % 2 else {kind: v})
                        except Exception as e:
                            ctx.violation(f'{key}:dil:{kind}', f'phi={phi} diluent {dd} {kind}={v}: {e}')
                            continue
                        got = ph.X if basis == 'mole' else ph.Y
                        ctx.close(f'{key}:dil:{kind}', got, want, rtol=1e-7, atol=1e-12, msg=f'phi={phi} diluent {dd} {kind}={v}')
                        ctx.close(key + ':TP', [ph.T, ph.P], [T, P], rtol=1e-9, msg=f'T,P after diluted set_equivalence_ratio {kind}')
                        ctx.trans()
                        ctx.ev()
                # impossible fractions
                if 0 < a < 0.99:
                    ph.TPX = T, P, 'N2:1' if 'N2' in names else 'AR:1'
                    for fr in ({'fuel': a * 1.01}, {'diluent': 1.2}, {'diluent': -0.1}, {'nothing': 0.5}, {'fuel': 0.1 * a, 'oxidizer': 0.1 * b}, 0.5):
                        try:
                            ph.set_equivalence_ratio(phi, f, o, basis, diluent=dd, fraction=fr)
                            ctx.violation(f'{key}:badfrac', f'fraction {fr} accepted')
                        except ValueError:
                            pass
        for bad in (lambda: ph.set_equivalence_ratio(-0.1, f, o, basis), lambda: ph.set_mixture_fraction(-0.1, f, o, basis), lambda: ph.set_mixture_fraction(1.1, f, o, basis),
                    lambda: ph.set_equivalence_ratio(1.0, f, o, 'molar'), lambda: ph.set_mixture_fraction(0.5, f, 'no-such', basis), lambda: ph.equivalence_ratio(f, 'no-such:1', basis),
                    lambda: ph.equivalence_ratio(f, 'no-such:1', basis, include_species=['O2']), lambda: ph.equivalence_ratio(include_species=['no-such']), lambda: ph.mixture_fraction(f, f, basis, element='C'),
                    lambda: ph.mixture_fraction(f, o, basis, element='Xx')):
            ph.TPX = T, P, {next(iter(fd)): 1, 'O2': 0.5}
            s0 = ph.state.copy()
            try:
                bad()
                ctx.violation(key + ':bad', 'invalid argument accepted')
            except (ct.CanteraError, ValueError):
                pass
            ctx.close(key + ':bad-state', ph.state, s0, rtol=1e-12, msg='refused call changed the state')


def mkgas(g):
    if g == 'chos':
        return chos()
    if g == 'chos-rev':
        return chos(True)
    if g == 'gri':
        return ct.Solution('gri30.yaml', transport_model=None)
    if g == 'h2o2':
        return ct.Solution('h2o2.yaml', transport_model=None)
    if g == 'prgas':
        return ct.Solution('co2_PR_example.yaml', transport_model=None)
    return ct.Solution('co2_RK_example.yaml', transport_model=None)


def tasks(tier):
    out = [dict(kind='forms', model=m.name) for m in models.POOL]
    for g in ('chos', 'chos-rev', 'gri', 'h2o2', 'prgas'):
        ph = mkgas(g)
        nf = sum(set(f) <= set(ph.species_names) for f in FUELS)
        for f in range(nf):
            t = dict(kind='mix', gas=g, f=f, burn=g == 'h2o2')
            if g == 'prgas':
                t.update(T=600., P=1e5)
            out.append(t)
    return out


def run(task, ctx):
    (run_forms if task['kind'] == 'forms' else run_mix)(task, ctx)
