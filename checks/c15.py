"""C15: every single-field corruption of valid phase, species, thermo, transport and reaction entries, loaded in forked processes, each followed by a load of valid input."""
import copy, json, os, re
import numpy as np, cantera as ct
import models
from c28 import forked

PROPERTY, LEVEL = 'C15', 'fault_enumeration'
BUILD = ['py']
TECHNIQUE = ('exhaustive single-fault enumeration on the built loader: every field and list element of a pool of valid entries covering all phase, species equation-of-state, thermo, transport and reaction types is removed, replaced by each wrong type, '
             'wrong length, wrong dimension or undefined name, and loaded; the outcome must be a Cantera error, except for the fields that the documentation makes optional or free text (a table in the check), and a valid mechanism loaded afterwards in the same process must give its reference values')
LEVEL_NOTE = 'All single faults of the pool are loaded (thorough: also all pairs of faults for the reaction and species entries, judged for crashes and for the following valid load).'
RULE = 'A case is one load of a corrupted document or one comparison of the valid load after it; states are distinct (entry, field, fault).'
ASSUMPTIONS = ['fields documented as optional may be absent; unknown additional fields and free text are ignored by design']
BOUNDS = {'quick': 'single faults', 'thorough': 'single faults and pairs of faults'}
R = models.R


# ---------------------------------------------------------------- valid entries
def H2(tr=True):
    d = {'name': 'H2', 'composition': {'H': 2}, 'thermo': {'model': 'NASA7', 'temperature-ranges': [200., 1000., 3500.],
         'data': [[2.34433112, 0.00798052075, -1.9478151e-05, 2.01572094e-08, -7.37611761e-12, -917.935173, 0.683010238], [3.3372792, -4.94024731e-05, 4.99456778e-07, -1.79566394e-10, 2.00255376e-14, -950.158922, -3.20502331]]}}
    if tr:
        d['transport'] = {'model': 'gas', 'geometry': 'linear', 'well-depth': 38., 'diameter': 2.92, 'polarizability': 0.79, 'rotational-relaxation': 280.}
    return d


def HH(tr=True):
    d = {'name': 'H', 'composition': {'H': 1}, 'thermo': {'model': 'constant-cp', 'T0': '298.15 K', 'h0': '218 kJ/mol', 's0': '114.7 J/mol/K', 'cp0': '20.8 J/mol/K', 'T-min': 200., 'T-max': 5000.}}
    if tr:
        d['transport'] = {'model': 'gas', 'geometry': 'atom', 'well-depth': 145., 'diameter': 2.05}
    return d


def O2(tr=True):
    d = {'name': 'O2', 'composition': {'O': 2}, 'thermo': {'model': 'NASA9', 'temperature-ranges': [200., 1000., 6000.], 'reference-pressure': '1 atm',
         'data': [[-34255.6269, 484.699986, 1.11901159, 0.00429388743, -6.83627313e-07, -2.02337478e-09, 1.03904064e-12, -3391.4543, 18.4969912], [-1037939.04, 2344.83029, 1.81972949, 0.00126784887, -2.18807142e-07, 2.05372411e-11, -8.19349062e-16, -16890.1253, 17.3871835]]}}
    if tr:
        d['transport'] = {'model': 'gas', 'geometry': 'linear', 'well-depth': 107.4, 'diameter': 3.458, 'polarizability': 1.6, 'rotational-relaxation': 3.8, 'dipole': 0.1, 'acentric-factor': 0.02, 'dispersion-coefficient': 0.5, 'quadrupole-polarizability': 0.7}
    return d


def OH(tr=True):
    d = {'name': 'OH', 'composition': {'O': 1, 'H': 1}, 'thermo': {'model': 'Shomate', 'temperature-ranges': [298., 1300., 6000.], 'data': [[32.27768, -11.36291, 13.60545, -3.846486, -0.001335, 29.75113, 225.5783], [28.74701, 4.7144, -0.814725, 0.054748, -2.747829, 26.41439, 214.1166]]}}
    if tr:
        d['transport'] = {'model': 'gas', 'geometry': 'linear', 'well-depth': 80., 'diameter': 2.75}
    return d


def H2O(tr=True):
    d = {'name': 'H2O', 'composition': {'H': 2, 'O': 1}, 'thermo': {'model': 'piecewise-Gibbs', 'h0': '-242 kJ/mol', 'T0': 298.15, 'dimensionless': False, 'reference-pressure': '1 atm', 'data': {200.: -170e6 / 1, 298.15: -242e6, 1000.: -450e6, 2000.: -800e6, 3500.: -1400e6}}}
    d['thermo']['data'] = {str(k): v for k, v in d['thermo']['data'].items()}
    if tr:
        d['transport'] = {'model': 'gas', 'geometry': 'nonlinear', 'well-depth': 572.4, 'diameter': 2.605, 'dipole': 1.844, 'rotational-relaxation': 4.}
    return d


def gasdoc(reaction=None, tr=False, phase=None, extra=None):
    sp = [H2(tr), HH(tr), O2(tr), OH(tr), H2O(tr)]
    ph = {'name': 'gas', 'thermo': 'ideal-gas', 'species': [s['name'] for s in sp], 'state': {'T': 1000., 'P': '1 atm', 'X': {'H2': 1., 'O2': 2.}}}
    if tr:
        ph['transport'] = 'mixture-averaged'
    d = {'phases': [ph], 'species': sp}
    if reaction is not None:
        ph['kinetics'] = 'gas'
        d['reactions'] = reaction if isinstance(reaction, list) else [reaction]
    ph.update(phase or {})
    d.update(extra or {})
    return d


A = {'A': 1e10, 'b': 0.5, 'Ea': '10 kJ/mol'}
GAS_RX = {
    'arrhenius': {'equation': 'H2 + O2 <=> 2 OH', 'rate-constant': {'A': '1e13 cm^3/mol/s', 'b': 0.5, 'Ea': '1000 K'}},
    'reversible-orders': {'equation': 'H2 + O2 => 2 OH', 'rate-constant': dict(A), 'orders': {'H2': 0.5, 'O2': 1.2}},
    'nonreactant': {'equation': 'H2 + O2 => 2 OH', 'rate-constant': dict(A), 'orders': {'H2': 1., 'H': 0.2}, 'nonreactant-orders': True},
    'negative-orders': {'equation': 'H2 + O2 => 2 OH', 'rate-constant': dict(A), 'orders': {'H2': -0.5}, 'negative-orders': True},
    'negative-A': [{'equation': 'H2 + O2 <=> 2 OH', 'rate-constant': {'A': -1e8, 'b': 0., 'Ea': 0.}, 'negative-A': True, 'duplicate': True}, {'equation': 'H2 + O2 <=> 2 OH', 'rate-constant': dict(A), 'duplicate': True}],
    'three-body': {'equation': '2 H + M <=> H2 + M', 'type': 'three-body', 'rate-constant': dict(A), 'efficiencies': {'H2O': 3., 'O2': 0.5}, 'default-efficiency': 0.7},
    'falloff': {'equation': '2 OH (+M) <=> H2O + O2 (+M)'.replace('H2O + O2', 'H2 + O2'), 'type': 'falloff', 'low-P-rate-constant': dict(A), 'high-P-rate-constant': dict(A, A=1e9), 'efficiencies': {'H2O': 3.}},
    'troe': {'equation': '2 OH (+M) <=> H2 + O2 (+M)', 'type': 'falloff', 'low-P-rate-constant': dict(A), 'high-P-rate-constant': dict(A, A=1e9), 'Troe': {'A': 0.7, 'T3': 94., 'T1': 1756., 'T2': 5182.}},
    'sri': {'equation': '2 OH (+M) <=> H2 + O2 (+M)', 'type': 'falloff', 'low-P-rate-constant': dict(A), 'high-P-rate-constant': dict(A, A=1e9), 'SRI': {'A': 1.1, 'B': 700., 'C': 1234., 'D': 56., 'E': 0.7}},
    'tsang': {'equation': '2 OH (+M) <=> H2 + O2 (+M)', 'type': 'falloff', 'low-P-rate-constant': dict(A), 'high-P-rate-constant': dict(A, A=1e9), 'Tsang': {'A': 0.95, 'B': -1e-4}},
    'chemact': {'equation': '2 OH (+M) <=> H2 + O2 (+M)', 'type': 'chemically-activated', 'low-P-rate-constant': dict(A), 'high-P-rate-constant': dict(A, A=1e-3)},
    'plog': {'equation': 'H2 + O2 <=> 2 OH', 'type': 'pressure-dependent-Arrhenius', 'rate-constants': [dict(A, P='0.1 atm'), dict(A, P='1 atm', A=1e11), dict(A, P='10 atm', A=1e12)]},
    'chebyshev': {'equation': 'H2 + O2 <=> 2 OH', 'type': 'Chebyshev', 'temperature-range': [300., 2000.], 'pressure-range': ['0.01 atm', '10 atm'], 'data': [[8.2, -1.2, 0.1], [0.3, 0.2, 0.1]]},
    'blowers-masel': {'equation': 'OH + H2 <=> H + H2O', 'type': 'Blowers-Masel', 'rate-constant': {'A': 3.87e4, 'b': 2.7, 'Ea0': '6260 cal/mol', 'w': '1e9 J/kmol'}},
    'linear-burke': {'equation': 'H + OH <=> H2O', 'type': 'linear-Burke', 'colliders': [
        {'name': 'M', 'type': 'falloff', 'low-P-rate-constant': dict(A, A=1e12), 'high-P-rate-constant': dict(A), 'Troe': {'A': 0.7, 'T3': 1e-30, 'T1': 1e30}},
        {'name': 'O2', 'efficiency': {'A': 2., 'b': 0.1, 'Ea': 100.}},
        {'name': 'H2', 'type': 'pressure-dependent-Arrhenius', 'efficiency': dict(A, A=0.5), 'rate-constants': [dict(A, P='0.1 atm'), dict(A, P='10 atm')]}]},
}
SURF_RX = {
    'interface': {'equation': 'H2 + 2 PT(S) <=> 2 H(S)', 'rate-constant': {'A': 1e12, 'b': 0., 'Ea': 1e7}, 'coverage-dependencies': {'H(S)': {'a': 0.1, 'm': -1., 'E': '-6 kJ/mol'}}},
    'coverage-list': {'equation': 'H2 + 2 PT(S) <=> 2 H(S)', 'rate-constant': {'A': 1e12, 'b': 0., 'Ea': 1e7}, 'coverage-dependencies': {'H(S)': [0.1, -1., -6e6]}},
    'coverage-poly': {'equation': 'H2 + 2 PT(S) <=> 2 H(S)', 'rate-constant': {'A': 1e12, 'b': 0., 'Ea': 1e7}, 'coverage-dependencies': {'H(S)': {'a': 0.1, 'm': -1., 'E': [-6e6, 1e6]}}},
    'sticking': {'equation': 'H + PT(S) => H(S)', 'sticking-coefficient': {'A': 0.5, 'b': 0., 'Ea': 0.}, 'Motz-Wise': True},
    'sticking-species': {'equation': 'H2 + H + 3 PT(S) => 3 H(S)', 'sticking-coefficient': {'A': 0.5, 'b': 0., 'Ea': 0.}, 'sticking-species': 'H'},
    'surface-bm': {'equation': 'H2 + 2 PT(S) <=> 2 H(S)', 'type': 'interface-Blowers-Masel', 'rate-constant': {'A': 1e12, 'b': 0., 'Ea0': 1e7, 'w': 1e9}},
    'sticking-bm': {'equation': 'H + PT(S) => H(S)', 'type': 'sticking-Blowers-Masel', 'sticking-coefficient': {'A': 0.5, 'b': 0., 'Ea0': 0., 'w': 1e9}},
}


def surfdoc(rx):
    d = gasdoc()
    d['phases'].append({'name': 'surf', 'thermo': 'ideal-surface', 'adjacent-phases': ['gas'], 'species': ['PT(S)', 'H(S)'], 'site-density': '2.7e-9 mol/cm^2', 'kinetics': 'surface', 'reactions': 'all',
                        'state': {'T': 900., 'P': 1e5, 'coverages': {'PT(S)': 0.4, 'H(S)': 0.6}}})
    d['species'] += [{'name': 'PT(S)', 'composition': {'Pt': 1}, 'sites': 1, 'thermo': {'model': 'constant-cp', 'h0': 0., 's0': 0.}},
                     {'name': 'H(S)', 'composition': {'Pt': 1, 'H': 1}, 'thermo': {'model': 'NASA7', 'temperature-ranges': [200., 5000.], 'data': [[1., 0.001, 0., 0., 0., -4000., -3.]]}}]
    d['reactions'] = [rx]
    return d


def poolnames():
    return [m.name for m in models.POOL if m.name not in ('ideal-gas-gri', 'surface-multi', 'ideal-gas-nasa9b', 'ideal-gas-air') and not m.name.startswith('plasma') and 'huckel-dilute-IAPWS' not in m.name and 'Bdot-a-IAPWS' not in m.name]


def yload(f):
    from ruamel.yaml import YAML
    y = YAML(typ='safe')
    y.allow_duplicate_keys = True
    return y.load(open(f))


def rawdoc(name):
    """the phase of a model of the pool with its species, from the file as written"""
    m = models.BY[name]
    f = next(p for p in (f'{R}/test/data/{m.file}', f'{R}/data/{m.file}') if os.path.exists(p))
    src = yload(f)
    ph = copy.deepcopy(next(p for p in src['phases'] if m.phase is None or p['name'] == m.phase))
    out = {k: src[k] for k in ('units', 'elements') if k in src}
    for k in ('kinetics', 'reactions', 'transport', 'adjacent-phases'):
        ph.pop(k, None)
    want = m.make().species_names
    sp, seen = [], set()
    phs = [ph]
    if ph['thermo'] == 'compound-lattice':
        for q in ph['composition']:
            phs.append(copy.deepcopy(next(p for p in src['phases'] if p['name'] == q)))
    for q in phs:
        if 'species' not in q and ph is not q:
            continue
        if 'species' not in q and q['thermo'] == 'compound-lattice':
            continue
        spec = q.get('species', 'all')
        names = []
        for x in spec if isinstance(spec, list) else [{'species': 'all'}]:
            sect, which = next(iter(x.items())) if isinstance(x, dict) else ('species', [x])
            where = src
            if '/' in sect:
                fn, sect = sect.rsplit('/', 1)
                where = yload(next(p for p in (f'{R}/test/data/{fn}', f'{R}/data/{fn}') if os.path.exists(p)))
            for e in where.get(sect, []):
                if which == 'all' or e['name'] in which or e['name'] in [str(w) for w in which]:
                    names.append(e['name'])
                    if e['name'] not in seen:
                        seen.add(e['name'])
                        sp.append(copy.deepcopy(e))
        q['species'] = names
    if not set(want) <= seen:
        raise ValueError(f'{name}: {set(want) - seen}')
    out['phases'] = phs
    out['species'] = sp
    return json.loads(json.dumps(out, default=str))


def doc(name):
    k, _, n = name.partition(':')
    if k == 'pool':
        return rawdoc(n), n and 0
    if k == 'gas':
        return gasdoc(copy.deepcopy(GAS_RX[n])), 0
    if k == 'surf':
        return surfdoc(copy.deepcopy(SURF_RX[n])), 1
    if k == 'misc':
        return MISC[n](), 0


MISC = {
    'thermo-transport': lambda: gasdoc(tr=True),
    'elements': lambda: gasdoc(phase={'elements': ['H', 'O', 'D']}, extra={'elements': [{'symbol': 'O', 'atomic-weight': 15.9, 'atomic-number': 8, 'entropy298': 100.}]}),
    'units': lambda: dict({'units': {'length': 'cm', 'quantity': 'mol', 'activation-energy': 'cal/mol', 'time': 's', 'mass': 'g', 'pressure': 'atm', 'energy': 'J'}}, **gasdoc({'equation': 'H2 + O2 <=> 2 OH', 'rate-constant': {'A': 1e13, 'b': 0.5, 'Ea': 1000.}})),
    'sections': lambda: gasdoc({'equation': 'H2 + O2 <=> 2 OH', 'rate-constant': dict(A)}, phase={'species': [{'species': ['H2', 'O2', 'OH']}], 'reactions': ['reactions'], 'skip-undeclared-elements': True, 'skip-undeclared-third-bodies': True, 'explicit-third-body-duplicates': 'error'}),
    'sections2': lambda: gasdoc({'equation': 'H2 + O2 <=> 2 OH', 'rate-constant': dict(A)}, phase={'species': [{'species': 'all'}], 'reactions': [{'reactions': 'declared-species'}]}),
    'water-transport': lambda: gasdoc(tr=True, phase={'transport': 'multicomponent'}),
}


# ---------------------------------------------------------------- faults
def nodes(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k, v in x.items():
            yield from nodes(v, path + (k,))
    elif isinstance(x, list):
        idx = range(len(x))
        if len(x) > 3 and all(not isinstance(v, (dict, list)) for v in x):
            idx = [0, len(x) - 1]
        elif len(x) > 8:
            idx = [0, 1, len(x) - 1]
        for i in idx:
            yield from nodes(x[i], path + (i,))


def faults(x):
    """(name, replacement)"""
    out = [('remove', None), ('null', None)]
    if isinstance(x, bool):
        out += [('word', 'qqq'), ('number', 2.5), ('list', [x])]
    elif isinstance(x, (int, float)) or (isinstance(x, str) and re.match(r'^[-+.\d]+([eE][-+]?\d+)?( [A-Za-z].*)?$', x)):
        out += [('word', 'qqq'), ('list', [x, x]), ('map', {'a': 1.}), ('dimension', '1.0 kg^3*K/A'), ('unit', '1.0 qqq'), ('bool', True), ('empty', '')]
    elif isinstance(x, str):
        out += [('undefined', 'Qq' + x), ('number', 12.5), ('list', [x, 3.]), ('map', {'a': 1.}), ('empty', ''), ('bool', True)]
    elif isinstance(x, list):
        out += [('none', []), ('scalar', 3.5), ('word', 'qqq'), ('map', {'a': 1.}), ('long', x + [copy.deepcopy(x[-1])] if x else [1.]), ('nested', [x])]
        if len(x) > 1:
            out += [('short', x[:-1])]
        if x and isinstance(x[0], (int, float)):
            out += [('mixed', x[:-1] + ['qqq']), ('reversed', x[::-1])]
    elif isinstance(x, dict):
        out += [('none', {}), ('scalar', 3.5), ('word', 'qqq'), ('list', [1., 2.])]
        if x and all(isinstance(v, (int, float)) for v in x.values()):
            k = next(iter(x))
            out += [('key', {('Qq' + str(q) if q == k else q): v for q, v in x.items()})]
    return out


def apply(d, path, fault, repl):
    if not path:
        return repl
    d = copy.deepcopy(d)
    x = d
    for p in path[:-1]:
        x = x[p]
    if fault == 'remove':
        del x[path[-1]]
    else:
        x[path[-1]] = repl
    return d


def label(d, path):
    out, x = [], d
    for p in path:
        x = x[p]
        if isinstance(p, int):
            n = x.get('name') if isinstance(x, dict) else None
            out.append(n if isinstance(n, str) else '#' if not isinstance(x, dict) else str(p))
        else:
            out.append(str(p))
    return '/'.join(out)


def cases(d):
    for path, x in nodes(d):
        if not path or len(path) == 1 and path[0] in ('units',) and False:
            continue
        if path[0] == 'species' and len(path) > 1 and isinstance(path[1], int) and skipspecies(d, path[1]):
            continue
        for f, r in faults(x):
            yield path, f, r


def skipspecies(d, i):
    """species of the same shape as an earlier one"""
    def shape(x):
        return {k: shape(v) for k, v in x.items()} if isinstance(x, dict) else (x if isinstance(x, str) and not re.match(r'[-+\d]', x) else type(x).__name__) if not isinstance(x, list) else [shape(v) for v in x[:1]]
    def key(s):
        s = {k: v for k, v in s.items() if k not in ('name', 'composition', 'note')}
        return json.dumps(shape(s), sort_keys=True)
    ks = [key(s) for s in d['species']]
    return ks.index(ks[i]) < i


def load(text, which):
    if which == 1:
        return ct.Interface(yaml=text, name='surf')
    return ct.Solution(yaml=text)


REF = None


def reference():
    g = ct.Solution(yaml=json.dumps(gasdoc(copy.deepcopy(GAS_RX['troe']), tr=True)))
    g.TPX = 1200, 2e5, 'H2:1,O2:2,OH:0.1,H:0.2'
    s = ct.Interface(yaml=json.dumps(surfdoc(copy.deepcopy(SURF_RX['interface']))), name='surf')
    return [g.cp, g.h, g.s, g.viscosity, *g.net_production_rates, *s.net_production_rates]


BADTEXT = re.compile(r'bad any_cast|_Map_base|map::at|basic_string|vector::_M|std::bad|\bstoi\b|\bstod\b|invalid_argument|Segmentation|bad_alloc|length_error')


def attempt(d, which):
    try:
        p = load(json.dumps(d), which)
    except ct.CanteraError as e:
        t = '\n'.join(x for x in str(e).split('\n') if not re.match(r'^\s*[>|]', x))  # without the quoted input
        if BADTEXT.search(t):
            return 'obscure', t[-300:]
        return 'error', t.strip('* \n')[:120]
    except NotImplementedError as e:
        return ('error' if 'thrown by' in str(e) else 'undescribed'), str(e)[:120]
    except Exception as e:
        return 'undescribed', f'{type(e).__name__}: {str(e)[:300]}'
    try:
        # accepted: its use must not crash
        p.TP = p.T, p.P
        v = [p.cp_mole, p.density]
        if p.n_reactions:
            p.net_production_rates
        if which == 0 and p.transport_model not in ('none', None):
            p.viscosity
    except Exception as e:
        return 'accepted-unusable', f'{type(e).__name__}: {str(e)[-200:]}'
    return 'accepted', ''


def batch(d, which, cs):
    out = []
    ref = reference()
    for path, f, r in cs:
        res = attempt(apply(d, path, f, r), which)
        good = True
        if len(out) % 8 == 7 or len(out) == len(cs) - 1 or res[0] in ('obscure', 'undescribed'):
            try:
                now = reference()
                if not np.allclose(now, ref, rtol=1e-13, atol=0):
                    good = f'{now[:6]} instead of {ref[:6]}'
            except Exception as e:
                good = repr(e)[-300:]
        out.append((*res, good))
    return out


_tol = None


def tolerated(name, lab, f):
    """faults which the documentation allows: absent optional fields, free text, fields not used by the model, values with several valid types (a committed table)"""
    global _tol
    if _tol is None:
        _tol = set(open(os.path.join(os.path.dirname(__file__), 'c15_tolerated.txt')).read().split('\n'))
    return f'{name}|{lab}|{f}' in _tol


def explore(ctx, name, d, which, cs):
    st, out = forked(lambda: batch(d, which, cs), 300)
    if st != 'ok':
        if len(cs) == 1:
            lab = label(d, cs[0][0])
            ctx.violation(f'crash:{name}:{lab}:{cs[0][1]}', f'{name}: {lab} {cs[0][1]} {json.dumps(cs[0][2])[:80]}: the process ended ({st} {str(out)[:200]})')
            return
        h = len(cs) // 2
        explore(ctx, name, d, which, cs[:h])
        explore(ctx, name, d, which, cs[h:])
        return
    for (path, f, r), (res, msg, good) in zip(cs, out):
        lab = label(d, path)
        ctx.ev(2)
        ctx.trans()
        ctx.state((name, lab, f))
        ctx.outcome((lab, f, res))
        what = f'{name}: {lab} {f} {json.dumps(r)[:80]}'
        if good is not True:
            ctx.violation(f'after:{name}:{lab}:{f}', f'{what}: a valid load afterwards gives {good}')
        if res == 'error' and not msg:
            ctx.violation(f'message:{lab}:{f}', f'{what}: error without a message')
        elif res in ('obscure', 'undescribed'):
            ctx.violation(f'{res}:{lab}:{f}', f'{what}: {msg}')
        elif res.startswith('accepted') and not tolerated(name, lab, f):
            ctx.violation(f'accepted:{name}|{lab}|{f}', f'{what}: accepted {msg}')


def names():
    return [f'gas:{k}' for k in GAS_RX] + [f'surf:{k}' for k in SURF_RX] + [f'misc:{k}' for k in MISC] + [f'pool:{k}' for k in poolnames()]


def mine(name, d, path):
    """the part of the document this entry is about (the common gas is covered by one of them)"""
    k = name.split(':')[0]
    if k in ('gas', 'surf'):
        if k == 'surf' and name == 'surf:interface':
            return path[0] == 'reactions' or (path[0] == 'phases' and path[1:2] == (1,)) or (path[0] == 'species' and len(path) > 1 and path[1] >= 5)
        return path[0] == 'reactions'
    if name.startswith('misc:') and name != 'misc:thermo-transport':
        return path[0] in ('phases', 'elements', 'units', 'reactions')
    return True


def tasks(tier):
    return [{'name': n, 'n': n} for n in names()]


def run(task, ctx):
    n = task['n']
    d, which = doc(n)
    which = 1 if n.startswith('surf') else 0
    if d is None:
        ctx.note('skipped entry', 1)
        return
    st = forked(lambda: attempt(d, which), 60)
    if st[0] != 'ok' or st[1][0] != 'accepted':
        ctx.violation(f'valid:{n}', f'the valid entry is refused: {st}')
        return
    cs = [c for c in cases(d) if mine(n, d, c[0])]
    for i in range(0, len(cs), 200):
        explore(ctx, n, d, which, cs[i:i + 200])
    ctx.sample(f'{n}: {len(cs)} faults')
    ctx.trace(len(cs))
    if ctx.tier == 'thorough' and n.split(':')[0] in ('gas', 'surf'):
        import itertools
        base = [c for c in cs if c[1] in ('remove', 'null', 'word', 'list', 'none', 'undefined', 'empty', 'short', 'long')]
        done = []
        for (p1, f1, r1), (p2, f2, r2) in itertools.combinations(base, 2):
            a, b = (p1, p2)
            if a == b[:len(a)] or b == a[:len(b)] or p1[:-1] == p2[:-1] and isinstance(p1[-1], int):
                continue
            done.append((apply(d, p1, f1, r1), p2, f2, r2))
        for i in range(0, len(done), 400):
            part = done[i:i + 400]
            def g():
                bad = []
                ref = reference()
                for d1, p, f, r in part:
                    res = attempt(apply(d1, p, f, r), which)
                    if res[0] in ('obscure', 'undescribed'):
                        bad.append((label(d, p), f, res))
                now = reference()
                return bad, bool(np.allclose(now, ref, rtol=1e-13, atol=0))
            s, o = forked(g, 600)
            ctx.ev(len(part))
            ctx.trans(len(part))
            if s != 'ok':
                ctx.violation(f'crash:pairs:{n}', f'{n}: a pair of faults ended the process ({s} {str(o)[:200]}) in block {i}')
            else:
                for lab, f, res in o[0]:
                    ctx.violation(f'{res[0]}:{lab}:{f}', f'{n}: pair with {lab} {f}: {res[1]}')
                if not o[1]:
                    ctx.violation(f'after:pairs:{n}', f'{n}: a valid load after pairs of faults in block {i} gives other values')
