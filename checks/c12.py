"""C12: writing phases, species and reactions to YAML or pickle and reading them back."""
import copy
import glob
import os
import pickle
import re
import numpy as np
import ruamel.yaml
import models
import kinpool
from ruamel.yaml import YAML
import cantera as ct

PROPERTY, LEVEL = 'C12', 'exploration'
BUILD = ['py']
TECHNIQUE = ('exhaustive enumeration of all shipped and test phase definitions (and a mechanism with every rate type) x output unit systems x states x '
             'kinds of output, comparing the re-read object with the original at every property, and the second output with the first')
LEVEL_NOTE = 'Every phase in data/ and test/data which loads is written in each unit system, re-read, compared and written again; every species and reaction is also rebuilt from its own input data.'
RULE = 'A case is a (phase, kind of output) pair; it is non-trivial when the output was re-read and compared. Outcomes are distinct (phase, kind) pairs.'
ASSUMPTIONS = ['properties which the original refuses to evaluate are only required to be refused by the re-read object too',
               'phases with several thousand reactions are left to the thorough tier']
BOUNDS = {'quick': 'all phases with at most 60 species and 350 reactions, 6 kinds of output, 2 states', 'thorough': 'all phases, 9 kinds of output, 3 states'}

R = models.R
UNITS = {
    'cgs': {'length': 'cm', 'quantity': 'mol', 'mass': 'g', 'energy': 'cal', 'activation-energy': 'cal/mol', 'pressure': 'atm', 'time': 's'},
    'molec': {'length': 'cm', 'quantity': 'molec', 'activation-energy': 'K', 'energy': 'erg', 'pressure': 'bar', 'time': 'ms'},
    'odd': {'length': 'mm', 'quantity': 'mmol', 'mass': 'mg', 'activation-energy': 'eV', 'energy': 'kJ', 'pressure': 'bar', 'time': 'min'},
    'si-j': {'activation-energy': 'J/kmol', 'length': 'm', 'quantity': 'kmol'},
    'kcal': {'length': 'um', 'quantity': 'kmol', 'activation-energy': 'kcal/mol', 'pressure': 'kPa'},
}
SKIPFILES = {'synthetic-mineral.yaml'}


def phases():
    out = []
    for d in (R + '/data', R + '/test/data', os.path.join(os.path.dirname(__file__), 'data')):
        for f in sorted(glob.glob(d + '/*.yaml')):
            try:
                doc = YAML(typ='safe').load(open(f, encoding='utf-8'))
            except Exception:
                continue
            if not isinstance(doc, dict) or not isinstance(doc.get('phases'), list):
                continue
            size = os.path.getsize(f)
            for p in doc['phases']:
                if isinstance(p, dict) and 'name' in p:
                    out.append((f, p['name'], size, p.get('thermo', '')))
    return out


def load(f, name):
    s = ct.Solution(f, name)
    if s.n_phases > 1 if hasattr(s, 'n_phases') else False:
        return None
    return s


def open_phase(f, name, thermo):
    """The object, and whether it is an interface."""
    if thermo in ('ideal-surface', 'coverage-dependent-surface', 'edge', 'surface'):
        return ct.Interface(f, name), True
    s = ct.Solution(f, name)
    return s, False


THERMO = ['T', 'P', 'density_mass', 'X', 'Y', 'molecular_weights', 'charges', 'enthalpy_mole', 'entropy_mole', 'cp_mole', 'cv_mole', 'int_energy_mole',
          'gibbs_mole', 'mean_molecular_weight', 'partial_molar_enthalpies', 'partial_molar_entropies', 'partial_molar_volumes', 'partial_molar_cp',
          'chemical_potentials', 'standard_enthalpies_RT', 'standard_cp_R', 'standard_entropies_R', 'activities', 'activity_coefficients', 'concentrations',
          'min_temp', 'max_temp', 'reference_pressure', 'critical_temperature', 'critical_pressure', 'thermal_expansion_coeff', 'isothermal_compressibility',
          'site_density', 'coverages', 'Te', 'species_names', 'element_names', 'atomic_weights', 'phase_of_matter', 'thermo_model', 'name', 'case_sensitive_species_names']
KIN = ['kinetics_model', 'n_reactions', 'forward_rate_constants', 'reverse_rate_constants', 'forward_rates_of_progress', 'reverse_rates_of_progress',
       'net_production_rates', 'equilibrium_constants', 'reactant_stoich_coeffs', 'product_stoich_coeffs', 'delta_gibbs']
TRANS = ['transport_model', 'viscosity', 'thermal_conductivity', 'mix_diff_coeffs', 'thermal_diff_coeffs', 'species_viscosities', 'electrical_conductivity']


def val(s, p):
    try:
        v = getattr(s, p)
    except Exception as x:
        return 'raises'
    return v


def compare(ctx, key, a, b, msg, rtol):
    ok = True
    for p in THERMO + KIN + (TRANS if getattr(a, 'transport_model', 'none') != 'none' else ['transport_model']):
        if not hasattr(type(a), p):
            continue
        x, y = val(a, p), val(b, p)
        if isinstance(x, str) or isinstance(y, str) or isinstance(x, (list, bool, tuple)) and x and isinstance(x[0], str):
            if x == 'raises' and y != 'raises':
                ctx.violation(f'{key}:{p}', f'{p} of {msg}: original raises, the re-read object gives {str(y)[:100]}')
                continue
            ok &= ctx.eq(f'{key}:{p}', y, x, f'{p} of {msg}')
        else:
            x, y = np.array(x, float), np.array(y, float)
            if x.shape != y.shape:
                ctx.violation(f'{key}:{p}', f'{p} of {msg}: shape {y.shape} instead of {x.shape}')
                ok = False
                continue
            sc = None
            r = rtol
            if p in ('net_production_rates',) or 'partial' in p or 'enthalp' in p or 'gibbs' in p or 'entrop' in p or 'int_energy' in p or 'cp' in p or 'chem' in p or 'diff' in p:
                sc = np.nanmax(np.abs(x)) if x.size else 1
                floor = 1 if p.endswith(('_R', '_RT')) else 0 if 'rates' in p or 'diff' in p else 8.3e3 if 'cp' in p or 'entrop' in p or 'cv' in p else 8.3e3 * a.T if 'volumes' not in p else 0
                sc = max(sc, floor) if np.isfinite(sc) else 1
                sc = sc if np.isfinite(sc) else 1
            ok &= ctx.close(f'{key}:{p}', y, x, rtol=r, atol=1e-300, scale=sc if sc else None, msg=f'{p} of {msg}')
    return ok


def structure(ctx, key, a, b, msg):
    for k in range(a.n_species):
        x, y = a.species(k), b.species(k)
        ctx.eq(f'{key}:species', (y.name, y.composition, y.charge, y.size), (x.name, x.composition, x.charge, x.size), f'species {x.name} of {msg}')
        if x.thermo is not None and y.thermo is not None:
            ctx.eq(f'{key}:thermo', type(y.thermo).__name__, type(x.thermo).__name__, f'thermo of {x.name} of {msg}')
            ctx.close(f'{key}:thermo', [y.thermo.min_temp, y.thermo.max_temp, y.thermo.reference_pressure], [x.thermo.min_temp, x.thermo.max_temp, x.thermo.reference_pressure], rtol=1e-10, msg=f'limits of {x.name} of {msg}')
    for i in range(a.n_reactions):
        x, y = a.reaction(i), b.reaction(i)
        ctx.eq(f'{key}:reaction', (y.equation, y.reactants, y.products, y.orders, y.reversible, y.duplicate, y.allow_negative_orders, y.allow_nonreactant_orders, type(y.rate).__name__, y.ID),
               (x.equation, x.reactants, x.products, x.orders, x.reversible, x.duplicate, x.allow_negative_orders, x.allow_nonreactant_orders, type(x.rate).__name__, x.ID), f'reaction {i} of {msg}')
        tx, ty = x.third_body, y.third_body
        ctx.eq(f'{key}:thirdbody', None if ty is None else (ty.name, ty.efficiencies, ty.default_efficiency, ty.mass_action), None if tx is None else (tx.name, tx.efficiencies, tx.default_efficiency, tx.mass_action), f'third body of reaction {i} of {msg}')


def strip(y):
    return re.sub(r'(?m)^(generator|date|cantera-version|git-commit|input-files|description).*\n(?:[ -].*\n)*', '', y)


def states(s, tier):
    """(label, state) pairs that the phase accepts."""
    s0 = s.state
    out = [('initial', s0.copy())]
    T, P, X = s.T, s.P, s.X
    for lab, (t, p, f) in {'hot': (T + 150., P * 1.7, 1), 'mixed': (T + 20., P, 0.5)}.items():
        if lab == 'mixed' and tier == 'quick' and s.n_species > 30:
            pass
        try:
            x = X if f == 1 else np.ones(s.n_species) / s.n_species * 0.02 + X
            if hasattr(s, 'TPX') and s.thermo_model != 'pure-fluid':
                s.TPX = t, p, x
            else:
                s.TP = t, p
            v = s.state.copy()
            if np.isfinite(v).all():
                out.append((lab, v))
        except Exception:
            continue
    s.state = s0
    return out


def reread(kind, s, isint, f):
    """Written text and the object read from it."""
    kw = {}
    if kind in UNITS:
        kw['units'] = UNITS[kind]
    if kind == 'skip':
        kw['skip_user_defined'] = True
    if kind == 'nohead':
        kw['header'] = False
    if kind == 'pickle':
        return None, pickle.loads(pickle.dumps(s))
    if isint:
        others = [s.adjacent[n] for n in s.adjacent]
        y = s.write_yaml(phases=others, **kw)
        return y, ct.Interface(yaml=y, name=s.name)
    if s.thermo_model == 'compound-lattice':
        kw['phases'] = [ct.Solution(f, n) for n in s.input_data['composition']]
    y = s.write_yaml(**kw)
    return y, ct.Solution(yaml=y, name=s.name)


def mk_species(variant):
    """Species made by constructors only: every parameterisation, attribute and transport data."""
    g = ct.Solution('gri30.yaml', transport_model=None)
    sp = {k: g.species(k) for k in ('H2', 'H', 'O2', 'O', 'OH', 'H2O', 'N2', 'AR')}
    out = []
    for i, (k, x) in enumerate(sp.items()):
        y = ct.Species(k, x.composition)
        t = x.thermo
        kind = ('nasa7', 'nasa9', 'const', 'mu0', 'shomate')[(i + variant) % 5]
        lim = (200. + 10 * i, 3500. - 50 * i, 1e5 if variant > 2 else ct.one_atm)
        if kind == 'nasa7':
            c = ct.NasaPoly2(*lim, t.coeffs)
        elif kind == 'nasa9':
            a = [0., 0.] + list(t.coeffs[8:15])
            b = [0., 0.] + list(t.coeffs[1:8])
            z = lambda q: q[:7] + [q[7], q[8]]
            c = ct.Nasa9PolyMultiTempRegion(lim[0], lim[1], lim[2], [2, lim[0], 1000.] + z(a) + [1000., lim[1]] + z(b))
        elif kind == 'const':
            c = ct.ConstantCp(*lim, [298.15 + i, t.h(298.15), t.s(298.15), t.cp(298.15)])
        elif kind == 'mu0':
            c = ct.Mu0Poly(*lim, [3, t.h(298.15), 298.15, -1e7 * (i + 1), 1000., -3e7, 2000., -6e7])
        else:
            c = ct.ShomatePoly2(*lim, [1000., 30.092 + i, 6.832, 6.793, -2.534, 0.0821, -250.8, 223.3, 33.0, 6.8, 6.7, -2.5, 0.08, -250., 223.])
        y.thermo = c
        if variant % 2 == 0:
            tr = ct.GasTransportData()
            r = x.transport
            tr.set_customary_units(r.geometry, r.diameter * 1e10 + 0.01 * i, r.well_depth / ct.boltzmann, 0.1 * i, 0.2 * i, 1. + i, 0.01 * i, 0.3 * i, 0.4 * i)
            y.transport = tr
        out.append(y)
    return out


def mk_reactions(variant):
    A = ct.Arrhenius
    lo, hi = A(7.1e6, 0.7, 1e7), A(3.1e8, -0.4, 4e6)
    R = ct.Reaction
    out = [
        R(equation='O + H2 => H + OH', rate=ct.ArrheniusRate(38.7, 2.7, 2.6e7)),
        R(equation='H + O2 <=> O + OH', rate=ct.ArrheniusRate(2.65e13, -0.6707, 7.1e7), third_body=None),
        R(equation='H + OH <=> O + H2', rate=ct.BlowersMaselRate(38.7, 2.7, 2.6e7, 1e9)),
        R(equation='OH + OH (+M) <=> H2O + O (+M)', rate=ct.LindemannRate(lo, hi, [])),
        R(equation='OH (+M) <=> O + H (+M)', rate=ct.TroeRate(lo, hi, [0.7, 94., 1756.]), third_body=ct.ThirdBody('M', efficiencies={'H2': 2., 'H2O': 6.5})),
        R(equation='H2O (+M) <=> OH + H (+M)', rate=ct.TroeRate(lo, hi, [0.7, 94., 1756., 5182.]), third_body=ct.ThirdBody('M', efficiencies={'AR': 0.5}, default_efficiency=0.3)),
        R(equation='H + H (+M) <=> H2 (+M)', rate=ct.SriRate(lo, hi, [1.1, 700., 1234.])),
        R(equation='O + O (+M) <=> O2 (+M)', rate=ct.SriRate(lo, hi, [1.1, 700., 1234., 56., 0.7])),
        R(equation='O + OH (+M) <=> O2 + H (+M)', rate=ct.TsangRate(lo, hi, [0.2, -1e-4])),
        R(equation='H2 + O2 <=> OH + OH', rate=ct.PlogRate([(101325., A(1.2e8, 0.1, 3e7)), (1013250., A(4.9e9, 0.2, 4e7)), (1013250., A(1e7, .1, 0.))])),
        R(equation='H2 + O (+M) <=> H2O (+M)', rate=ct.ChebyshevRate((300., 2000.), (1000., 1e7), [[8.2, -1.1, -.12], [1.9, 1.1, .11], [.3, .2, -.01]])),
        R(equation='H + O + M <=> OH + M', rate=ct.ArrheniusRate(5e11, -1., 0.), third_body=ct.ThirdBody('M', efficiencies={'H2': 2.}, default_efficiency=0.7)),
        R(equation='H + H + AR <=> H2 + AR', rate=ct.ArrheniusRate(5e11, -1., 0.)),
    ]
    neg = ct.ArrheniusRate(-38.7, 2.7, 2.6e7)
    neg.allow_negative_pre_exponential_factor = True
    x = R(equation='H2 + OH => H2O + H', rate=neg)
    x.duplicate = True
    x.ID = 'my-id'
    y = R(equation='H2 + OH => H2O + H', rate=ct.ArrheniusRate(1e9, 0., 0.))
    y.duplicate = True
    z = R(equation='H2O + O => OH + OH', rate=ct.ArrheniusRate(1e7, 0., 1e7))
    z.allow_nonreactant_orders = True
    z.allow_negative_orders = True
    z.orders = {'H2O': 0.7, 'O': -0.25, 'AR': 0.4}
    w = R(equation='O2 + H2O (+M) <=> OH + O + OH (+M)', rate=ct.LindemannRate(lo, hi, []))
    w.rate.chemically_activated = True
    out += [x, y, z, w]
    if variant % 2:
        for q in out:
            q.ID = f'r-{out.index(q)}'
    return out


def built(ctx, variant):
    kw = {} if variant % 2 else {'transport_model': 'mixture-averaged'}
    if variant % 2 == 0:
        kw['transport_model'] = 'mixture-averaged'
    try:
        s = ct.Solution(thermo='ideal-gas', kinetics='gas', species=mk_species(variant), reactions=mk_reactions(variant), **kw)
    except Exception as x:
        ctx.violation('built', f'variant {variant}: {type(x).__name__}: {str(x)[:1500]}')
        return
    s.name = f'built{variant}'
    n = s.n_species
    if variant in (1, 2, 6, 7):     # the same reactions, exchanged for new objects after the mechanism was assembled
        try:
            for i, r in enumerate(mk_reactions(variant)):
                s.modify_reaction(i, r)
        except Exception as x:
            ctx.violation('built:modified', f'variant {variant}: {type(x).__name__}: {str(x)[:1500]}')
            return
    sts = [(600., ct.one_atm, np.arange(1., n + 1)), (1400., 3e5, np.arange(n, 0., -1)), (2500., 1e4, np.ones(n))]
    for kind in ['yaml', 'skip', 'pickle', 'nohead'] + list(UNITS):
        s.TPX = sts[0]
        try:
            y, b = reread(kind, s, False, None)
        except Exception as x:
            ctx.violation(f'built:{kind}', f'variant {variant}: {type(x).__name__}: {str(x)[:1500]}')
            continue
        structure(ctx, f'built:{kind}', s, b, f'variant {variant} written as {kind}')
        for v in sts:
            s.TPX = v
            b.TPX = v
            compare(ctx, f'built:{kind}', s, b, f'variant {variant} written as {kind} at {v[:2]}', 1e-9)
            ctx.ev()
        ctx.trace()
        ctx.outcome(('built', variant, kind))
    parts(ctx, f'built{variant}', s, False)


def files(ctx):
    """Faults while writing a file: existing content survives a refused write; unwritable targets are reported."""
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        g = ct.Solution('h2o2.yaml', transport_model=None)
        o = ct.Solution('gri30.yaml', transport_model=None)
        o.name = 'other'
        clone = ct.Solution('h2o2.yaml', transport_model=None)
        f = os.path.join(d, 'a.yaml')
        for first in (g, o):
            first.write_yaml(f)
            t = open(f).read()
            ctx.check('files:same', strip(t) == strip(first.write_yaml()), 'file and string output differ')
            b = ct.Solution(f, first.name)
            compare(ctx, 'files:reread', first, b, 'file', 1e-9)
            for lab, call in {'different species': lambda: g.write_yaml(f, phases=[o]), 'same name': lambda: g.write_yaml(f, phases=[clone]),
                              'bad unit': lambda: g.write_yaml(f, units={'length': 'furlong'}), 'bad dimension': lambda: g.write_yaml(f, units={'lenght': 'm'})}.items():
                ctx.ev()
                try:
                    call()
                    ctx.violation(f'files:{lab}', f'writing with {lab} accepted')
                except ct.CanteraError:
                    pass
                ctx.check(f'files:{lab}', open(f).read() == t, f'{lab}: the refused write changed the existing file ({len(t)} -> {len(open(f).read())} characters)')
            for bad in (os.path.join(d, 'none', 'a.yaml'), d, '/dev/full'):
                ctx.ev()
                try:
                    first.write_yaml(bad)
                    ctx.violation('files:unwritable', f'writing {"to a missing directory" if "none" in bad else "to a directory" if bad == d else "to a full device"} reported no error')
                except Exception:
                    pass
            ctx.trace()


def tasks(tier):
    out = [dict(built=v) for v in range(5 if tier == 'quick' else 10)] + [dict(files=1)]
    for f, n, size, th in phases():
        if tier == 'quick' and (size > 150000 or os.path.basename(f) in SKIPFILES):
            continue
        if not f.startswith(R + '/data') and tier == 'quick' and size > 100000 and 'thermo-models' not in f and 'kineticsfromscratch' not in f:
            continue
        out.append(dict(file=f, phase=n, thermo=th))
    return out


def run(task, ctx):
    if 'built' in task:
        return built(ctx, task['built'])
    if 'files' in task:
        return files(ctx)
    f, n = task['file'], task['phase']
    base = os.path.basename(f)
    try:
        s, isint = open_phase(f, n, task['thermo'])
    except Exception as x:
        ctx.skip('does not load')
        return
    if ctx.tier == 'quick' and (s.n_species > 60 or s.n_reactions > 350):
        ctx.skip('large')
        return
    kinds = ['yaml', 'pickle', 'skip'] + list(UNITS)[:3] + (['nohead'] + list(UNITS)[3:] if ctx.tier == 'thorough' else [])
    st = states(s, ctx.tier)
    name = f'{base}:{n}' if task['thermo'] != 'compound-lattice' else f'compound-lattice:{base}:{n}'
    for kind in kinds:
        key = f'{name}:{kind}'
        for lab, v in st:
            if lab != 'initial' and kind in ('skip', 'nohead') or lab == 'mixed' and kind not in ('yaml', 'odd') and ctx.tier == 'quick':
                continue
            s.state = v
            ctx.ev()
            try:
                if kind == 'pickle' and isint:
                    try:
                        pickle.dumps(s)
                        ctx.violation(key, 'pickling of an interface accepted')
                    except NotImplementedError:
                        pass
                    continue
                y, b = reread(kind, s, isint, f)
            except NotImplementedError as x:
                ctx.skip('not implemented')
                continue
            except Exception as x:
                ctx.violation(f'{key}:reread', f'{name} ({lab}): {type(x).__name__}: {str(x)[:3000]}')
                break
            rtol = 1e-6 if s.thermo_model == 'pure-fluid' else 1e-9 if kind in ('yaml', 'skip', 'nohead', 'pickle') else 3e-9
            compare(ctx, key, s, b, f'{name} written as {kind} at state {lab}', rtol)
            if isint and lab == 'initial' and kind != 'skip':
                for q in s.adjacent:
                    if ctx.check(f'{key}:adjacent', q in b.adjacent, f'{name} written as {kind}: adjacent phase {q} is missing'):
                        compare(ctx, f'{key}:adjacent', s.adjacent[q], b.adjacent[q], f'{q}, adjacent to {name}, written as {kind}', rtol)
            if lab == 'initial':
                structure(ctx, key, s, b, f'{name} written as {kind}')
                if y is not None:
                    try:
                        z = reread(kind, b, isint, f)[0]
                        if kind in ('yaml', 'skip', 'nohead'):
                            ctx.check(f'{key}:stable', strip(z) == strip(y) or same(load(z), load(y)), f'second output differs: {diff(strip(y), strip(z))}')
                    except Exception as x:
                        ctx.violation(f'{key}:again', f'{name}: {type(x).__name__}: {str(x)[:3000]}')
            # another state, set on both
            for l2, v2 in st:
                if l2 != lab and lab == 'initial':
                    s.state = v2
                    try:
                        b.state = v2
                    except Exception as x:
                        ctx.violation(f'{key}:state', f'{name}: the re-read object refuses the state {l2}: {str(x)[:300]}')
                        continue
                    compare(ctx, key, s, b, f'{name} written as {kind}, evaluated at {l2}', rtol)
            ctx.outcome((name, kind))
            ctx.trace()
            ctx.sample(key)
    s.state = st[0][1]
    parts(ctx, name, s, isint)


def load(text):
    d = ruamel.yaml.YAML(typ='safe', pure=False).load(text)
    return {k: v for k, v in d.items() if k not in ('generator', 'date', 'cantera-version', 'git-commit', 'input-files', 'description')}


def diff(a, b):
    A, B = a.splitlines(), b.splitlines()
    for i, (x, y) in enumerate(zip(A, B)):
        if x != y:
            return f'line {i}: {x!r} -> {y!r}'
    return f'{len(A)} lines -> {len(B)} lines: {(A[len(B):] or B[len(A):])[:2]}'


def parts(ctx, name, s, isint):
    """Species and reactions rebuilt from their own input data."""
    kin = s if s.n_reactions else None
    for k in range(s.n_species):
        x = s.species(k)
        if x.thermo is None:
            continue
        try:
            d = x.input_data
            y = ct.Species.from_dict(d)
        except Exception as e:
            ctx.violation(f'{name}:species-dict', f'{x.name}: {type(e).__name__}: {str(e)[:400]}')
            continue
        ctx.ev()
        ctx.eq(f'{name}:species-dict', (y.name, y.composition, y.charge, y.size, type(y.thermo).__name__), (x.name, x.composition, x.charge, x.size, type(x.thermo).__name__), f'species {x.name} of {name} rebuilt')
        for T in (300., 900., 2000.):
            if x.thermo.min_temp <= T <= x.thermo.max_temp:
                ctx.close(f'{name}:species-dict', [y.thermo.cp(T), y.thermo.h(T), y.thermo.s(T)], [x.thermo.cp(T), x.thermo.h(T), x.thermo.s(T)], rtol=1e-9, scale=1e6, msg=f'thermo of {x.name} of {name} rebuilt')
        if x.transport is not None:
            ctx.check(f'{name}:species-transport', y.transport is not None, f'{x.name} lost its transport data')
            if y.transport is not None and hasattr(x.transport, 'geometry'):
                q = ('geometry', 'diameter', 'well_depth', 'dipole', 'polarizability', 'rotational_relaxation', 'acentric_factor', 'dispersion_coefficient', 'quadrupole_polarizability')
                ctx.eq(f'{name}:species-transport', y.transport.geometry, x.transport.geometry, x.name)
                ctx.close(f'{name}:species-transport', [getattr(y.transport, i) for i in q[1:]], [getattr(x.transport, i) for i in q[1:]], rtol=1e-10, atol=1e-60, msg=f'transport data of {x.name} of {name} rebuilt')
    if kin is None:
        return
    for i in range(s.n_reactions):
        x = s.reaction(i)
        try:
            y = ct.Reaction.from_dict(x.input_data, s)
        except Exception as e:
            ctx.violation(f'{name}:reaction-dict', f'{i} {x.equation}: {type(e).__name__}: {str(e)[:400]}')
            continue
        ctx.ev()
        ctx.eq(f'{name}:reaction-dict', (y.equation, y.reactants, y.products, y.orders, y.reversible, y.duplicate, type(y.rate).__name__), (x.equation, x.reactants, x.products, x.orders, x.reversible, x.duplicate, type(x.rate).__name__), f'reaction {i} of {name} rebuilt')
        a, b = x.input_data, y.input_data
        ctx.check(f'{name}:reaction-dict', same(a, b), f'reaction {i} {x.equation}: input data {str(a)[:300]} -> {str(b)[:300]}')
        # the rate on its own
        try:
            r = ct.ReactionRate.from_dict(x.rate.input_data) if not isint else None
        except Exception as e:
            if 'units' in str(e).lower() or 'undefined' in str(e).lower():
                continue
            ctx.violation(f'{name}:rate-dict', f'{i} {x.equation}: {type(e).__name__}: {str(e)[:300]}')
            continue


def same(a, b, rtol=1e-9):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= rtol * max(abs(a), abs(b)) or (a != a and b != b)
    return a == b
