"""C31: mechanisms from a grammar are exported by yaml2ck and converted back by ck2yaml; the result is compared with the original, or must have been refused."""
import contextlib, io, itertools, os, shutil, tempfile, warnings
from pathlib import Path
import numpy as np
import cantera as ct
from cantera import ck2yaml, yaml2ck

PROPERTY, LEVEL = 'C31', 'exploration'
BUILD = ['py']
TECHNIQUE = 'exhaustive enumeration of a grammar of mechanisms (species, thermo, transport, reaction kinds x options, phase options, output options): export, conversion back, comparison with the original at enumerated states'
LEVEL_NOTE = 'Every word inside the bounds goes through the real yaml2ck and ck2yaml and both mechanisms are evaluated by the real library.'
RULE = ('A word is one mechanism: a species definition, a reaction (kind x option), a phase option or an output option varied on a base mechanism, or a shipped gas mechanism. Either the export is refused with an error '
        '(never for the words marked expressible, and never with an internal error such as IndexError), or converting the files back gives the same species, elements, thermo, transport, reactions and rates.')
ASSUMPTIONS = ['a value is written with at least the digits of the column or format documented for Chemkin: 9 for NASA7 coefficients, 3 decimals for temperatures, transport data and orders, 4 digits for efficiencies, 7 digits for falloff parameters; words use values that these represent']
BOUNDS = {'quick': '~40 names, ~60 compositions and thermo and transport forms, 18 reaction kinds x ~12 options, ~40 phase and output options, 6 shipped mechanisms',
          'thorough': 'also all pairs of reaction words in one mechanism, and all shipped gas mechanisms'}
warnings.simplefilter('ignore')
ct.suppress_thermo_warnings()
KCAL = 4.184e6
STATES = [(T, P) for T in (400., 1300., 2500.) for P in (3e4, 4e6)]
LO = [2.5, 1e-3, -2e-7, 1e-11, 1e-15, -800., 2.]
HI = [2.6, 9e-4, -1e-7, 1e-11, -1e-15, -850., 1.5]


def sp(name, comp, T=(200., 1000., 5000.), data=(LO, HI), thermo={}, transport={}, **kw):
    k = sum(map(ord, name)) % 17
    n = sum(v for e, v in comp.items() if e != 'E')
    geo = 'atom' if n <= 1 else 'linear' if n == 2 else 'nonlinear'
    data = [list(d) for d in data]
    for d in data[:2]:
        d[5] -= 100. * k
        d[6] += k / 8
    return {'name': name, 'composition': comp, 'thermo': {'model': 'NASA7', 'temperature-ranges': list(T), 'data': data, **thermo},
            'transport': {'model': 'gas', 'geometry': geo, 'well-depth': 80. + k, 'diameter': 2.5 + k / 8, **transport}, **kw}


def base():
    return [sp('H', {'H': 1}), sp('H2', {'H': 2}), sp('O', {'O': 1}), sp('O2', {'O': 2}), sp('OH', {'O': 1, 'H': 1}), sp('H2O', {'H': 2, 'O': 1}), sp('HO2', {'H': 1, 'O': 2}), sp('AR', {'Ar': 1}), sp('N2', {'N': 2})]


ARR = {'A': 3.1e7, 'b': 0.6, 'Ea': '4.5 kcal/mol'}
ARR2 = {'A': 7.7e9, 'b': -1.25, 'Ea': '-1.5 kcal/mol'}
R0 = {'equation': 'O + H2 <=> H + OH', 'rate-constant': ARR}


def gas_of(species=None, reactions=None, top={}, transport='mixture-averaged', **phase):
    reactions = [R0] if reactions is None else reactions
    species = species or base()
    els = []
    for s in species:
        els += [e for e in s['composition'] if e not in els and s['composition'][e] and isinstance(s['name'], str)]
    ph = {'name': 'gas', 'thermo': 'ideal-gas', 'elements': els, 'species': [s['name'] for s in species], 'kinetics': 'gas', 'state': {'T': 500., 'P': 1e5}}
    if transport:
        ph['transport'] = transport
    if not reactions:
        ph.pop('kinetics')
    ph.update(phase)
    from ruamel.yaml import YAML
    s = io.StringIO()
    y = {'units': {'length': 'm', 'quantity': 'kmol', 'activation-energy': 'K'}, 'phases': [ph], 'species': species, **top}
    if reactions:
        y['reactions'] = reactions
    YAML(typ='safe').dump(y, s)
    return ct.Solution(yaml=s.getvalue())


class Refused(Exception):
    pass


class Late(Exception):
    pass


class Crash(Exception):
    pass


CLEAN = (ValueError, NotImplementedError, RuntimeError, ct.CanteraError)


def export(gas, d, files='one', **kw):
    """-> files"""
    m = Path(d) / 'm.ck'
    t, r = (Path(d) / 'm.th', Path(d) / 'm.tr') if files == 'three' else (None, None)
    if files == 'thermo':
        t = Path(d) / 'm.th'
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return yaml2ck.convert(gas, mechanism_path=Path(d) if files == 'dir' else m, thermo_path=t, transport_path=r, **kw)
    except CLEAN as e:
        raise Refused(f'{type(e).__name__}: {e}')
    except Exception as e:
        raise Crash(f'{type(e).__name__}: {e}')


def back(files, d):
    m, t, r = files
    out = os.path.join(d, 'back.yaml')
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            ck2yaml.convert(m, thermo_file=t, transport_file=r, out_name=out, quiet=True, permissive=False, phase_name='gas')
        return ct.Solution(out)
    except SystemExit as e:
        raise Late(f'exit {e}')
    except Exception as e:
        raise Late(f'{type(e).__name__}: {e}')


def word(ctx, key, make, must=False, transport=True, **kw):
    """make: a function giving the Solution. must: expressible"""
    ctx.trans(1)
    ctx.state(key)
    try:
        gas = make if isinstance(make, ct.Solution) else make()
    except (ct.CanteraError, NotImplementedError) as e:
        ctx.skip('not a valid Cantera mechanism')
        ctx.check(f'{key}:setup', not must, str(e)[-300:])
        return
    d = tempfile.mkdtemp(prefix='c31')
    try:
        try:
            files = export(gas, d, **kw)
        except Refused as e:
            ctx.outcome('refused')
            ctx.check(f'{key}:refused', not must, f'expressible, but refused: {e}')
            left = os.listdir(d)
            ctx.check(f'{key}:partial', not left, f'refused, but wrote {left}')
            return
        except Crash as e:
            ctx.violation(f'{key}:crash', str(e)[:300])
            return
        try:
            g2 = back(files, d)
        except Late as e:
            # what the validation of the command line refuses
            ctx.outcome('late')
            ctx.check(f'{key}:late', not must, f'export accepted, but: {str(e)[-300:]}\n' + files[0].read_text()[-300:])
            return
        ctx.outcome('same')
        ctx.trace(1)
        compare(ctx, key, gas, g2, transport, 'sort_elements' in kw or 'sort_species' in kw)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def geom(s):
    return s.transport.geometry


def norm(d):
    return {k: v for k, v in d.items() if v}


def compare(ctx, key, a, b, transport=True, order=False):
    ea, eb = [e.capitalize() for e in a.element_names], [e.capitalize() for e in b.element_names]
    if order:
        ea, eb = sorted(ea), sorted(eb)
    ctx.eq(f'{key}:elements', eb, ea)
    na, nb = a.species_names, b.species_names
    if order:
        na, nb = sorted(na), sorted(nb)
    if not ctx.eq(f'{key}:species', nb, na):
        return
    for n in na:
        s, t = a.species(n), b.species(n)
        ctx.eq(f'{key}:composition', norm({k.capitalize(): v for k, v in t.composition.items()}), norm({k.capitalize(): v for k, v in s.composition.items()}), n)
        ctx.close(f'{key}:weight', t.molecular_weight, s.molecular_weight, 1e-12, 0., n)
        ctx.close(f'{key}:charge', t.charge, s.charge, 1e-12, 0., n)
        lo, hi = s.thermo.min_temp, s.thermo.max_temp
        ctx.close(f'{key}:range', [t.thermo.min_temp, t.thermo.max_temp], [lo, hi], 0., 5.1e-4, n)
        mid = s.input_data['thermo']['temperature-ranges'][1] if 'temperature-ranges' in s.input_data['thermo'] else 1000.
        for T in (lo, 0.6 * lo + 0.4 * mid, mid - 0.01, mid + 0.01, 0.5 * (mid + hi), hi):
            q = [ct.gas_constant, ct.gas_constant * T, ct.gas_constant]
            g = np.array([t.thermo.cp(T), t.thermo.h(T), t.thermo.s(T)]) / q
            w = np.array([s.thermo.cp(T), s.thermo.h(T), s.thermo.s(T)]) / q
            ctx.close(f'{key}:thermo', g, w, 1e-7, 2e-8, f'{n} cp/R, h/RT, s/R at {T}')
        x, y = s.transport, t.transport
        if x is not None and transport:
            if ctx.check(f'{key}:transport', y is not None, f'{n}: no transport data'):
                ctx.eq(f'{key}:geometry', y.geometry, x.geometry, n)
                ctx.close(f'{key}:transport', [y.well_depth / ct.boltzmann, y.diameter * 1e10, y.dipole / 3.33564095e-30, y.polarizability * 1e30, y.rotational_relaxation],
                          [x.well_depth / ct.boltzmann, x.diameter * 1e10, x.dipole / 3.33564095e-30, x.polarizability * 1e30, x.rotational_relaxation], 1e-7, 5.1e-4, f'{n}: well depth, diameter, dipole, polarizability, rotational relaxation')
                ctx.close(f'{key}:transport2', [y.acentric_factor, y.dispersion_coefficient, y.quadrupole_polarizability], [x.acentric_factor, x.dispersion_coefficient, x.quadrupole_polarizability], 1e-7, 0., f'{n}: acentric factor etc.')
    if not ctx.eq(f'{key}:number', b.n_reactions, a.n_reactions):
        return
    for i in range(a.n_reactions):
        p, q = a.reaction(i), b.reaction(i)
        def side(r, which):
            d = dict(getattr(r, which))
            tb = r.third_body
            if tb is not None and tb.mass_action and tb.name != 'M':
                d[tb.name] = d.get(tb.name, 0) + 1
            return d
        for w in ('reactants', 'products'):
            ctx.eq(f'{key}:{w}', side(q, w), side(p, w), p.equation)
        ctx.eq(f'{key}:reversible', (q.reversible, q.duplicate), (p.reversible, p.duplicate), p.equation)
        ctx.eq(f'{key}:orders', {k: round(v, 3) for k, v in q.orders.items()}, {k: round(v, 3) for k, v in p.orders.items()}, p.equation)
    names = a.species_names
    X = np.arange(1., len(names) + 1)
    X = dict(zip(names, X / X.sum()))
    for T, P in STATES:
        try:
            a.TPX = T, P, X
        except ct.CanteraError:
            continue
        b.TPX = T, P, X
        ctx.ev(1)
        for f in ('forward_rates_of_progress', 'reverse_rates_of_progress'):
            u, v = getattr(a, f), getattr(b, f)
            for i in range(a.n_reactions):
                ctx.close(f'{key}:{f[:7]}', v[i], u[i], 3e-7 if a.reaction(i).third_body is None or not a.reaction(i).third_body.efficiencies else 2e-6, 1e-250, f'{a.reaction(i).equation} at {T, P}')
        ctx.close(f'{key}:density', b.density, a.density, 1e-10, 0., f'at {T, P}')
        if transport and a.transport_model not in ('none', None):
            if ctx.eq(f'{key}:transport:model', b.transport_model, a.transport_model):
                for f in ('viscosity', 'thermal_conductivity', 'mix_diff_coeffs'):
                    w = getattr(a, f)
                    if f == 'mix_diff_coeffs':
                        w = w[[a.species_index(n) for n in b.species_names]]
                    if np.all(np.isfinite(w)):
                        ctx.close(f'{key}:transport:{f}', getattr(b, f), w, 1e-4, 0., f'at {T, P}')


# ---------------------------------------------------------------- species
def species(ctx):
    def one(s):
        return lambda: gas_of(base() + [s])
    # names
    ok = ['X', 'CH3OH', 'CH2(S)', 'C-12', 'A*', 'N2O4', 'C6H5CH2', 'X+', 'X_1', 'X[1]', "X'", 'X#1', 'X:Y', 'h', 'ABCDEFGHIJKLMNOP', 'LOW', 'TROE', 'DUP', 'M1', 'PLOGX', 'X;Y', 'a.b']
    for n in ok:
        word(ctx, f'name:{n}', lambda: gas_of(base() + [sp(n, {'H': 1, 'C': 2})], [R0]), must=n not in ('LOW', 'TROE', 'DUP', 'X;Y', 'X:Y', 'h', "X'", 'X#1', 'X[1]', 'a.b', 'PLOGX'))
    for n in ['END', 'SPECIES', 'THERMO', 'REACTIONS', 'TRANSPORT', 'ELEMENTS', 'X!Y', 'X/Y', 'X=Y', 'M', '2X', 'X Y', 'E', '+X', 'X,Y', 'ABCDEFGHIJKLMNOPQ', 'ABCDEFGHIJKLMNOPQR', 'ABCDEFGHIJKLMNOPQRS', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'H2 2', '1', '1.5', 'é', 'X&', '(X)', 'end', 'SPEC', 'REAC', 'ENDX', 'THERMO1', 'REACTION']:
        word(ctx, f'name:{n}', lambda: gas_of(base() + [sp(n, {'H': 1, 'C': 2})]))
    # the names used in reactions
    for n in ['X+', 'CH2(S)', 'X*', 'X-', 'ABCDEFGHIJKLMNOP', 'M1', 'C-12', '2X', 'E', 'M', '+X', '1X', 'DUPX', 'LOWER', 'END', 'X=Y', 'REVX', 'e-', 'DUP', 'PLOG1', 'TCHEBX', 'XM', '(X)', 'hv', 'HV']:
        word(ctx, f'reacting:{n}', lambda: gas_of(base() + [sp(n, {'H': 1})], [{'equation': f'H + {n} <=> H2', 'rate-constant': ARR}, {'equation': f'{n} + O2 => H + O2', 'rate-constant': ARR}, {'equation': f'2 {n} => H2', 'rate-constant': ARR},
                                                                                  {'equation': f'{n} + H + M <=> H2 + M', 'type': 'three-body', 'rate-constant': ARR, 'efficiencies': {n: 3.}}]),
             must=n in ('X+', 'CH2(S)', 'X*', 'X-', 'ABCDEFGHIJKLMNOP', 'M1', 'C-12'))
    # compositions
    for c in [{'C': 1}, {'C': 1, 'H': 1}, {'C': 1, 'H': 2, 'O': 3, 'N': 4}, {'C': 99, 'H': 100}, {'C': 999}, {'Ar': 1, 'He': 1}, {'H': 1, 'Cl': 1}, {'D': 2, 'O': 1}, {'Si': 2, 'Na': 3}]:
        word(ctx, f'composition:{c}', one(sp('X', c)), must=True)
    for c in [{'C': 1, 'H': 1, 'O': 1, 'N': 1, 'Ar': 1}, {'C': 1, 'H': 1, 'O': 1, 'N': 1, 'Ar': 1, 'He': 2}, {'C': 1000}, {'C': 12345}, {'C': 0.5}, {'C': 1.5, 'H': 2}, {'H': 1.999999}, {'C': 1, 'H': 0}, {'C': 2, 'H': 1, 'O': 0, 'N': 1, 'Ar': 1},
              {'E': 1}, {'E': 1, 'H': 1}, {'E': -1, 'H': 1}, {'E': -10, 'H': 1}, {'E': -100, 'H': 1}, {}]:
        word(ctx, f'composition:{c}', one(sp('X', c)))
    for c in [{'E': 1}, {'E': 1, 'H': 1}, {'E': -1, 'H': 1}]:
        word(ctx, f'charged:{c}', one(sp('X', c)), must=True)
    word(ctx, 'charged:stated', one(sp('X', {'H': 1}, charge=1)))
    # elements
    word(ctx, 'element:custom', lambda: gas_of(base() + [sp('X', {'Zz': 2, 'H': 1})], top={'elements': [{'symbol': 'Zz', 'atomic-weight': 33.25}]}))
    word(ctx, 'element:custom-long', lambda: gas_of(base() + [sp('X', {'Zzz': 2, 'H': 1})], top={'elements': [{'symbol': 'Zzz', 'atomic-weight': 33.25}]}))
    word(ctx, 'element:isotope', lambda: gas_of(base() + [sp('X', {'D': 1})], top={'elements': [{'symbol': 'D', 'atomic-weight': 2.0}]}))
    word(ctx, 'element:redefined', lambda: gas_of(base(), top={'elements': [{'symbol': 'O', 'atomic-weight': 17.}]}))
    word(ctx, 'element:C13', one(sp('X', {'C13': 1})))
    word(ctx, 'element:C13x2', one(sp('X', {'C13': 2, 'H': 1, 'O': 1})))
    word(ctx, 'element:N15', one(sp('X', {'N15': 1, 'H': 2})))
    word(ctx, 'element:unused', lambda: gas_of(base(), elements=['H', 'O', 'N', 'Ar', 'C']), must=True)
    # thermo
    word(ctx, 'thermo:one-range', one(sp('X', {'H': 1}, T=(200., 4000.), data=(LO,))))
    for T in [(200., 1000., 3000.), (298.15, 1383.5, 5000.), (300., 999.999, 4999.999), (50., 600., 9000.), (1., 2., 3.)]:
        word(ctx, f'thermo:T:{T}', one(sp('X', {'H': 1}, T=T)), must=True)
    for T in [(200., 1000., 10000.), (200., 10000., 20000.), (200., 9999.5, 100000.), (0.0001, 0.5, 1.), (0.5, 1000.00049, 3000.), (200., 1000., 1234567.5), (273.15, 1000.123456, 3000.)]:
        word(ctx, f'thermo:T:{T}', one(sp('X', {'H': 1}, T=T)))
    word(ctx, 'thermo:three-ranges', one(sp('X', {'H': 1}, T=(200., 1000., 3000., 6000.), data=(LO, HI, HI))))
    word(ctx, 'thermo:pressure', one(sp('X', {'H': 1}, thermo={'reference-pressure': 1e5})))
    word(ctx, 'thermo:pressure-atm', one(sp('X', {'H': 1}, thermo={'reference-pressure': 101325.})), must=True)
    word(ctx, 'thermo:pressure-all', lambda: gas_of([{**s, 'thermo': {**s['thermo'], 'reference-pressure': 1e5}} for s in base()], [KINDS['unimolecular']]))
    for v in [0., -1., 1.23456789e-12, -9.87654321e+25, 1e-99, 1e99, 1e-100, -1.5e-120]:
        for i in (4, 0):
            d = [list(LO), list(HI)]
            d[0][i] = d[1][i] = v
            if abs(v) > 1e20 and i == 4:
                continue
            word(ctx, f'thermo:a{i}:{v}', one(sp('X', {'H': 1}, data=d)), must=v == 0 or 1e-98 < abs(v) < 1e98)
    for m, t in {'NASA9': {'model': 'NASA9', 'temperature-ranges': [200., 1000.], 'data': [[1e4, -100., 2.5, 0, 0, 0, 0, -700., 3.]]}, 'Shomate': {'model': 'Shomate', 'temperature-ranges': [298, 1500], 'data': [[25., 8., 7., -3., .1, -118., 227.]]},
                 'constant-cp': {'model': 'constant-cp', 'T0': 1000., 'h0': 1e7, 's0': 1e5, 'cp0': 2e4}, 'piecewise-Gibbs': {'model': 'piecewise-Gibbs', 'h0': -1e6, 'T0': 298.15, 'data': {298.15: -1e6, 333.15: -1.1e6}}}.items():
        word(ctx, f'thermo:model:{m}', one({**sp('X', {'H': 1}), 'thermo': t}))
    # notes
    for n in ['A', 'L 1/90', 'tpis79', 'a longer comment', 'two\nlines', 'two\n\nlines\n', '', ' ', 'x! y', '120186', 'é', 'x\nABCDEF', 'A\nB', '123456 7', 'END', 'REACTIONS\nEND', 12, 1.5, True, {'a': 1}, ['b']]:
        word(ctx, f'note:thermo:{n!r}', one(sp('X', {'H': 1}, thermo={'note': n})), must=True)
        word(ctx, f'note:species:{n!r}', one(sp('X', {'H': 1}, note=n)), must=True)
        word(ctx, f'note:transport:{n!r}', one(sp('X', {'H': 1}, transport={'note': n})), must=True)
    # transport
    for k, v in [('well-depth', 1.), ('well-depth', 1234.567), ('diameter', 12.345), ('dipole', 1.844), ('polarizability', 2.65), ('rotational-relaxation', 3.8), ('rotational-relaxation', 1234.5), ('well-depth', 99999.999)]:
        word(ctx, f'transport:{k}:{v}', one(sp('X', {'H': 2, 'O': 1}, transport={k: v})), must=True)
    for k, v in [('acentric-factor', .3), ('dispersion-coefficient', 2.5), ('quadrupole-polarizability', 1.5), ('well-depth', 1234567.), ('polarizability', 1e5), ('well-depth', 80.12345), ('diameter', 1e-4), ('rotational-relaxation', 123456.789)]:
        word(ctx, f'transport:{k}:{v}', one(sp('X', {'H': 2, 'O': 1}, transport={k: v})))
    for n in ok[:14]:
        word(ctx, f'transport:name:{n}', one(sp(n, {'H': 2, 'O': 1})))
    word(ctx, 'transport:missing-phase', lambda: gas_of(transport=None), must=True, transport=False)
    word(ctx, 'transport:missing-species', lambda: gas_of(base()[:-1] + [{k: v for k, v in sp('N2', {'N': 2}).items() if k != 'transport'}], transport=None), must=True, transport=False)
    for m in ['multicomponent', 'unity-Lewis-number', 'mixture-averaged-CK', 'multicomponent-CK', 'ionized-gas', 'high-pressure', 'high-pressure-Chung', 'none']:
        word(ctx, f'transport:model:{m}', lambda: gas_of(transport=m), transport=False)
    word(ctx, 'transport:reordered', lambda: gas_of(base()[::-1]), must=True)


# ---------------------------------------------------------------- reactions
KINDS = {
    'elementary': {'equation': 'O + H2 <=> H + OH', 'rate-constant': ARR},
    'unimolecular': {'equation': 'HO2 <=> H + O2', 'rate-constant': ARR},
    'termolecular': {'equation': 'H + 2 O2 <=> HO2 + O2', 'rate-constant': ARR},
    'fractional': {'equation': '0.5 H2 + OH => H2O', 'rate-constant': ARR},
    'fractional3': {'equation': '1.25 H2 + 2 O => 0.75 H2O + 1.25 OH', 'rate-constant': ARR},
    'three-body': {'equation': 'H + OH + M <=> H2O + M', 'type': 'three-body', 'rate-constant': ARR},
    'collider': {'equation': 'H + OH + AR <=> H2O + AR', 'type': 'three-body', 'rate-constant': ARR},
    'implicit': {'equation': 'H + O2 + N2 <=> HO2 + N2', 'rate-constant': ARR},
    'collider-elementary': {'equation': 'H + O2 + N2 <=> HO2 + N2', 'type': 'elementary', 'rate-constant': ARR},
    'collider-twice': {'equation': 'H + O2 + 2 N2 <=> HO2 + 2 N2', 'rate-constant': ARR},
    'Lindemann': {'equation': 'H + OH (+M) <=> H2O (+M)', 'type': 'falloff', 'high-P-rate-constant': ARR, 'low-P-rate-constant': ARR2},
    'Troe3': {'equation': 'H + OH (+M) <=> H2O (+M)', 'type': 'falloff', 'high-P-rate-constant': ARR, 'low-P-rate-constant': ARR2, 'Troe': {'A': 0.6, 'T3': 120., 'T1': 1500.}},
    'Troe4': {'equation': 'H + OH (+M) <=> H2O (+M)', 'type': 'falloff', 'high-P-rate-constant': ARR, 'low-P-rate-constant': ARR2, 'Troe': {'A': 0.6, 'T3': 120., 'T1': 1500., 'T2': 5000.}},
    'Troe-collider': {'equation': 'H + OH (+AR) <=> H2O (+AR)', 'type': 'falloff', 'high-P-rate-constant': ARR, 'low-P-rate-constant': ARR2, 'Troe': {'A': 0.6, 'T3': 120., 'T1': 1500.}},
    'SRI3': {'equation': 'H + OH (+M) <=> H2O (+M)', 'type': 'falloff', 'high-P-rate-constant': ARR, 'low-P-rate-constant': ARR2, 'SRI': {'A': 0.6, 'B': 700., 'C': 1500.}},
    'SRI5': {'equation': 'H + OH (+M) <=> H2O (+M)', 'type': 'falloff', 'high-P-rate-constant': ARR, 'low-P-rate-constant': ARR2, 'SRI': {'A': 0.6, 'B': 700., 'C': 1500., 'D': 1.2, 'E': 0.3}},
    'activated': {'equation': 'H + OH (+M) <=> H2 + O (+M)', 'type': 'chemically-activated', 'high-P-rate-constant': ARR, 'low-P-rate-constant': ARR2},
    'activated-Troe': {'equation': 'H + OH (+M) <=> H2 + O (+M)', 'type': 'chemically-activated', 'high-P-rate-constant': ARR, 'low-P-rate-constant': ARR2, 'Troe': {'A': 0.6, 'T3': 120., 'T1': 1500.}},
    'PLOG': {'equation': 'H + OH <=> H2 + O', 'type': 'pressure-dependent-Arrhenius', 'rate-constants': [{'P': '0.1 atm', **ARR}, {'P': '1 atm', **ARR2}, {'P': '100 atm', 'A': 5e8, 'b': 0., 'Ea': 0.}]},
    'PLOG1': {'equation': 'HO2 <=> O2 + H', 'type': 'pressure-dependent-Arrhenius', 'rate-constants': [{'P': '1 atm', **ARR2}]},
    'PLOG2': {'equation': 'H + OH <=> H2 + O', 'type': 'pressure-dependent-Arrhenius', 'rate-constants': [{'P': '0.1 atm', **ARR}, {'P': '0.1 atm', 'A': 1e9, 'b': -1., 'Ea': 500.}, {'P': '10 atm', **ARR2}]},
    'Chebyshev': {'equation': 'H + OH <=> H2 + O', 'type': 'Chebyshev', 'temperature-range': [300., 3000.], 'pressure-range': [1e3, 1e7], 'data': [[8.2, -0.5, 0.1], [0.3, 0.25, -0.125]]},
    'Chebyshev1': {'equation': 'HO2 <=> O2 + H', 'type': 'Chebyshev', 'temperature-range': [300., 3000.], 'pressure-range': [1e3, 1e7], 'data': [[8.2, -0.5], [0.3, 0.25], [0.1, 0.2], [0.05, -0.1], [0.01, -0.02], [0.001, 0.002], [1e-5, -1e-7]]},
    'Chebyshev2': {'equation': 'HO2 <=> O2 + H', 'type': 'Chebyshev', 'temperature-range': [300., 3000.], 'pressure-range': [1e3, 1e7], 'data': [[8.2], [0.3]]},
    'Chebyshev-M': {'equation': 'H + OH (+M) <=> H2 + O (+M)', 'type': 'Chebyshev', 'temperature-range': [300., 3000.], 'pressure-range': [1e3, 1e7], 'data': [[8.2, -0.5, 0.1], [0.3, 0.25, -0.125]]},
    'PLOG-M': {'equation': 'H + OH (+M) <=> H2 + O (+M)', 'type': 'pressure-dependent-Arrhenius', 'rate-constants': [{'P': '0.1 atm', **ARR}, {'P': '1 atm', **ARR2}]},
    'PLOG-3': {'equation': 'H + OH + M <=> H2O + M', 'type': 'pressure-dependent-Arrhenius', 'rate-constants': [{'P': '0.1 atm', **ARR}, {'P': '1 atm', **ARR2}]},
    'Chebyshev-3': {'equation': 'H + OH + M <=> H2O + M', 'type': 'Chebyshev', 'temperature-range': [300., 3000.], 'pressure-range': [1e3, 1e7], 'data': [[8.2, -0.5, 0.1], [0.3, 0.25, -0.125]]},
    'Tsang': {'equation': 'H + OH (+M) <=> H2O (+M)', 'type': 'falloff', 'high-P-rate-constant': ARR, 'low-P-rate-constant': ARR2, 'Tsang': {'A': 0.95, 'B': -1e-4}},
    'Blowers-Masel': {'equation': 'O + H2 <=> H + OH', 'type': 'Blowers-Masel', 'rate-constant': {'A': 3e7, 'b': 0.5, 'Ea0': 1000., 'w': 1e5}},
    'two-temperature': {'equation': 'O + H2 => H + OH', 'type': 'two-temperature-plasma', 'rate-constant': {'A': 3e7, 'b': 0.5, 'Ea-gas': 1000., 'Ea-electron': 500.}},
    'linear-Burke': {'equation': 'H + OH <=> H2O', 'type': 'linear-Burke', 'colliders': [{'name': 'M', 'type': 'falloff', 'low-P-rate-constant': ARR2, 'high-P-rate-constant': ARR}, {'name': 'AR', 'efficiency': {'A': 2., 'b': 0., 'Ea': 0.}}]},
}
MUST = {k for k in KINDS if k not in ('collider-elementary', 'Tsang', 'Blowers-Masel', 'two-temperature', 'linear-Burke', 'PLOG-3', 'Chebyshev-3', 'PLOG-M', 'collider-twice')}
OPTS = {
    'plain': lambda d: d,
    'irreversible': lambda d: {**d, 'equation': d['equation'].replace('<=>', '=>')},
    'duplicate': lambda d: [{**d, 'duplicate': True}, {**d, 'duplicate': True}],
    'efficiencies': lambda d: {**d, 'efficiencies': {'H2O': 6., 'AR': 0.625, 'H': 0.}},
    'default0': lambda d: {**d, 'efficiencies': {'H2O': 6., 'AR': 0.625}, 'default-efficiency': 0.},
    'default0one': lambda d: {**d, 'efficiencies': {'H2O': 1.}, 'default-efficiency': 0.},
    'default0one2': lambda d: {**d, 'efficiencies': {'H2O': 2.}, 'default-efficiency': 0.},
    'default2': lambda d: {**d, 'efficiencies': {'H2O': 6.}, 'default-efficiency': 2.},
    'default2none': lambda d: {**d, 'efficiencies': {}, 'default-efficiency': 2.},
    'order': lambda d: {**d, 'equation': d['equation'].replace('<=>', '=>'), 'orders': {first(d): 0.5}},
    'order0': lambda d: {**d, 'equation': d['equation'].replace('<=>', '=>'), 'orders': {first(d): 0.}},
    'order3': lambda d: {**d, 'equation': d['equation'].replace('<=>', '=>'), 'orders': {first(d): 2.125}},
    'order-nonreactant': lambda d: {**d, 'equation': d['equation'].replace('<=>', '=>'), 'orders': {first(d): 1., 'N2': 0.5}, 'nonreactant-orders': True},
    'order-negative': lambda d: {**d, 'equation': d['equation'].replace('<=>', '=>'), 'orders': {first(d): -0.5}, 'negative-orders': True},
    'negative-A': lambda d: {**d, 'negative-A': True, 'duplicate': True, **({'rate-constant': {**d['rate-constant'], 'A': -d['rate-constant']['A']}} if 'A' in d.get('rate-constant', {}) else
                             {'high-P-rate-constant': {**ARR, 'A': -ARR['A']}, 'low-P-rate-constant': {**ARR2, 'A': -ARR2['A']}} if 'high-P-rate-constant' in d else {})},
    'zero-A': lambda d: {**d, **({'rate-constant': {**d['rate-constant'], 'A': 0.}} if 'A' in d.get('rate-constant', {}) else {})},
    'extreme': lambda d: {**d, **({'rate-constant': {**d['rate-constant'], 'A': 1.2345678901234e-90, 'b': 12.3456789012, 'Ea': -12345.6789}} if 'A' in d.get('rate-constant', {}) else {})},
    'note': lambda d: {**d, 'note': 'Ref. 12\nDUPLICATE', 'id': 'r-17'},
}
KIND_EFF = ('three-body', 'Lindemann', 'Troe3', 'Troe4', 'SRI3', 'SRI5', 'activated', 'activated-Troe')


def first(d):
    return d['equation'].replace('(', ' ').split('=')[0].split('+')[0].split()[-1].rstrip('<')


def reactions(ctx, part, of):
    i = 0
    for k, o in itertools.product(KINDS, OPTS):
        i += 1
        if i % of != part:
            continue
        rs = OPTS[o](KINDS[k])
        rs = rs if isinstance(rs, list) else [rs]
        if o == 'negative-A':
            rs = rs + [{**KINDS[k], 'duplicate': True, 'equation': rs[0]['equation']}]
        try:
            gas = gas_of(reactions=[R0] * (k != 'elementary' and k != 'Blowers-Masel' and k != 'two-temperature') + rs)
        except ct.CanteraError as e:
            ctx.skip('not a valid Cantera reaction')
            continue
        must = k in MUST and (o in ('plain', 'irreversible', 'duplicate', 'order', 'order0', 'order3', 'extreme', 'note', 'zero-A') or (o == 'efficiencies' and k in KIND_EFF))
        word(ctx, f'{k}:{o}', gas, must=must)
    if part == 0:
        # falloff parameters
        for name, v in {'tiny T3': {'Troe': {'A': 0.6, 'T3': 1e-30, 'T1': 1e30}}, 'zero T1': {'Troe': {'A': 0.6, 'T3': 100., 'T1': 0.}}, 'negative T2': {'Troe': {'A': 0.6, 'T3': 100., 'T1': 1000., 'T2': -50.}}, 'zero T2': {'Troe': {'A': 0.6, 'T3': 100., 'T1': 1000., 'T2': 0.}},
                        'digits': {'Troe': {'A': 0.1234567, 'T3': 1234.567, 'T1': 12345.67}}, 'A>1': {'Troe': {'A': 1.5, 'T3': 100., 'T1': 1000.}}, 'A<0': {'Troe': {'A': -0.5, 'T3': 100., 'T1': 1000.}}, 'fine': {'Troe': {'A': 0.123456789, 'T3': 123456789., 'T1': 9.87654321}},
                        'sri D1E0': {'SRI': {'A': 0.6, 'B': 700., 'C': 1500., 'D': 1., 'E': 0.}}, 'sri neg': {'SRI': {'A': 0.6, 'B': -700., 'C': 1500., 'D': 1.25, 'E': -0.5}}}.items():
            word(ctx, f'falloff:{name}', lambda: gas_of(reactions=[{**KINDS['Lindemann'], **v}]), must=name not in ('fine', ))
        # efficiencies in many digits, of species outside the phase, of many species
        for e in ({'H2O': 1e-5}, {'H2O': 12340.}, {'H2O': 1.234}, {'H2O': 0.}, {'H2O': 1.}, {s['name']: 1.5 for s in base()}, {'XXX': 2., 'H2O': 3.}, {'XXX': 2.}):
            word(ctx, f'efficiency:{e}', lambda: gas_of(reactions=[{**KINDS['three-body'], 'efficiencies': e}], **{'skip-undeclared-third-bodies': True}), must=True)
        # quantities
        for n, r in {'many': [R0, KINDS['unimolecular'], KINDS['Troe4'], KINDS['PLOG'], KINDS['Chebyshev'], KINDS['Chebyshev1'], KINDS['three-body']], 'none': [], 'long': [R0, {'equation': 'HO2 + H2O + OH + O + N2 => O2 + 2 H2O + O + N2', 'rate-constant': ARR}]}.items():
            for tr in ('mixture-averaged', None):
                try:
                    g = gas_of(reactions=r if n != 'many' else dup(r), transport=tr)
                except ct.CanteraError as e:
                    ctx.violation(f'set:{n}:setup', str(e)[-300:])
                    continue
                word(ctx, f'set:{n}:{tr}', g, must=True, transport=tr is not None)


def dup(rs):
    """mark as duplicates the reactions with the same participants"""
    def k(r):
        return frozenset(x.strip() for x in r['equation'].replace('(+M)', '').replace('<=>', '@').split('@'))
    return [{**r, 'duplicate': True} if sum(k(r) == k(q) for q in rs) > 1 else r for r in rs]


def pairs(ctx, part, of):
    ks = sorted(MUST)
    i = 0
    for a, b in itertools.product(ks, ks):
        for o in ('irreversible', 'efficiencies', 'order', 'duplicate'):
            i += 1
            if i % of != part:
                continue
            try:
                x, y = OPTS[o](KINDS[a]), KINDS[b]
                rs = (x if isinstance(x, list) else [x]) + [y]
                # duplicates of each other are declared
                g = gas_of(reactions=[{**r, 'duplicate': True} for r in rs]) if a == b and o != 'irreversible' else gas_of(reactions=rs)
            except ct.CanteraError:
                ctx.skip('not a valid mechanism')
                continue
            word(ctx, f'pair:{a}:{b}:{o}', g)


# ---------------------------------------------------------------- phases and outputs
def phases(ctx):
    word(ctx, 'phase:base', lambda: gas_of(), must=True)
    for m in ('Redlich-Kwong', 'Peng-Robinson'):
        def mk():
            s = base()
            for x in s:
                x['critical-parameters'] = {'critical-temperature': 300., 'critical-pressure': 5e6, 'acentric-factor': 0.1}
            return gas_of(s, thermo=m)
        word(ctx, f'phase:{m}', mk)
    word(ctx, 'phase:plasma', lambda: gas_of(base() + [sp('e', {'E': 1})], [R0], thermo='plasma', transport=None, **{'electron-energy-distribution': {'type': 'isotropic', 'shape-factor': 2., 'mean-electron-energy': '1 eV', 'energy-levels': [0., 1., 2.]}}))
    word(ctx, 'phase:ideal-condensed', lambda: gas_of([{**s, 'equation-of-state': {'model': 'constant-volume', 'molar-volume': 0.02}} for s in base()], thermo='ideal-condensed', transport=None, **{'standard-concentration-basis': 'unity'}))
    for f in ('graphite.yaml', 'silicon.yaml', 'water.yaml', 'liquidvapor.yaml', 'KOH.yaml'):
        def mk():
            return ct.Solution(f)
        word(ctx, f'file:{f}', mk)
    word(ctx, 'phase:surface', lambda: ct.Interface('ptcombust.yaml', 'Pt_surf'))
    word(ctx, 'phase:empty', lambda: ct.Solution())
    for d in ('a description', 'two\nlines', '! generator: yaml2ck\nsecond', 'x' * 300, 'REACTIONS\nEND\n', '', 'END', 'a\n\n\nb'):
        word(ctx, f'description:{d[:30]!r}', lambda: gas_of(top={'description': d}), must=True)
    # outputs
    for f in ('one', 'three', 'thermo', 'dir'):
        for k in ({}, {'sort_elements': 'alphabetical'}, {'sort_elements': 'molar-mass'}, {'sort_species': 'alphabetical'}, {'sort_species': 'molar-mass'}, {'sort_species': 'molar-mass', 'sort_elements': 'molar-mass'}):
            word(ctx, f'output:{f}:{k}', lambda: gas_of(reactions=[R0, KINDS['Troe4']]), must=True, files=f, **k)
    for k in ({'sort_elements': 'x'}, {'sort_species': 'x'}):
        word(ctx, f'output:bad:{k}', lambda: gas_of(), **k)
    # transport file asked for, no transport
    word(ctx, 'output:no-transport', lambda: gas_of(transport=None), files='three')
    word(ctx, 'output:dir-no-transport', lambda: gas_of(transport=None), files='dir', must=True, transport=False)
    word(ctx, 'output:dir-no-reactions', lambda: gas_of(reactions=[]), files='dir', must=True)
    # existing files are only replaced when asked for
    for existing, over in itertools.product(('m.ck', 'm.th', 'm.tr'), (False, True)):
        d = tempfile.mkdtemp(prefix='c31')
        try:
            (Path(d) / existing).write_text('previous')
            ctx.trans(1)
            try:
                export(gas_of(), d, 'three', overwrite=over)
                done = True
            except Refused as e:
                done = False
            except Crash as e:
                ctx.violation(f'overwrite:{existing}:crash', str(e))
                continue
            ctx.eq(f'overwrite:{existing}', done, over)
            ctx.eq(f'overwrite:{existing}:kept', (Path(d) / existing).read_text() == 'previous', not over)
            if not over:
                ctx.eq(f'overwrite:{existing}:others', os.listdir(d), [existing])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    # the command line on a file
    for args, ok in ((['--mechanism', 'o.ck'], True), (['--mechanism', 'o.ck', '--thermo', 'o.th', '--transport', 'o.tr'], True), (['--mechanism', 'o.ck', '--sort-species', 'molar-mass', '--sort-elements', 'molar-mass'], True), (['--mechanism', 'o.ck', '--sort-elements', 'alphabetical'], True), (['--mechanism', 'o.ck', '--phase-name', 'nope'], False)):
        import subprocess, sys
        d = tempfile.mkdtemp(prefix='c31')
        try:
            g = gas_of()
            g.write_yaml(os.path.join(d, 'in.yaml'))
            ctx.trans(1)
            code = 'import sys; from cantera import yaml2ck; sys.argv = ["yaml2ck"] + sys.argv[1:]; yaml2ck.main()'
            r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code, 'in.yaml', *args], cwd=d, capture_output=True, text=True)
            if not ctx.eq(f'cli:{args[2:]}', r.returncode == 0 and 'PASSED' in r.stdout, ok, (r.stdout + r.stderr)[-300:]):
                continue
            if ok:
                p = {a: Path(d) / b for a, b in zip(args[::2], args[1::2]) if a in ('--mechanism', '--thermo', '--transport')}
                compare(ctx, f'cli:{args[2:]}', g, back((p['--mechanism'], p.get('--thermo'), p.get('--transport')), d), True, True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def shipped(ctx, name):
    f, _, ph = name.partition('|')
    def mk():
        return ct.Solution(f, ph) if ph else ct.Solution(f)
    word(ctx, f'shipped:{f}', mk, must=True)


FILES = ['h2o2.yaml', 'gri30.yaml', 'air.yaml', 'ohn.yaml', 'methane_pox_on_pt.yaml', 'SiF4_NH3_mec.yaml|gas', 'gri30_highT.yaml', 'gri30_ion.yaml', 'ptcombust.yaml|gas', 'diamond.yaml|gas', 'sofc.yaml|gas']


def tasks(tier):
    n = 6
    out = [{'k': 'species'}, {'k': 'phases'}] + [{'k': 'reactions', 'part': i, 'of': n} for i in range(n)]
    out += [{'k': 'shipped', 'name': f} for f in (FILES[:6] if tier == 'quick' else FILES)]
    if tier == 'thorough':
        out += [{'k': 'pairs', 'part': i, 'of': 16} for i in range(16)]
    return out


def run(task, ctx):
    k = task['k']
    {'species': lambda: species(ctx), 'phases': lambda: phases(ctx), 'reactions': lambda: reactions(ctx, task['part'], task['of']), 'pairs': lambda: pairs(ctx, task['part'], task['of']), 'shipped': lambda: shipped(ctx, task['name'])}[k]()
