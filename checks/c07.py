"""C07: every short sequence of edits of a phase (including refused ones) against a phase built in one go."""
import itertools
import numpy as np
import models
import cantera as ct

PROPERTY, LEVEL = 'C07', 'model_checking'
BUILD = ['py']
TECHNIQUE = 'explicit-state exploration of edit histories (all sequences of accepted and refused edits up to a depth, several equations of state) on the real phase objects against a reference list of species rebuilt in one go'
LEVEL_NOTE = 'Exhaustive over sequences of the listed edits up to the depth; the elements and species come from a fixed pool.'
RULE = ('ideal gas: all sequences of 16 edits (add, modify, alias, lock, unlock, query, refused variants) up to depth 3, each compared with a phase created in one go; 13 further equations of state: all ordered additions of pool species, modification and each refusal; '
        'loading rules for undeclared elements: every option x species subset')
ASSUMPTIONS = ['a phase created from text with all elements and species listed is the reference', 'tolerance 1e-10 relative']
BOUNDS = {'quick': 'depth 3 (ideal gas), 2 (other models)', 'thorough': 'depth 4 (ideal gas), 3 (other models)'}
ERR = (ct.CanteraError, IndexError, ValueError)

N7 = '{model: NASA7, temperature-ranges: [200.0, 1000.0, 3500.0], data: [[2.5, %g, 0, 0, 0, %g, 0.4], [2.6, %g, 0, 0, 0, %g, 0.3]]%s}'


def sp(name, comp, a=1e-4, h=-800., extra='', th=''):
    return '{name: %s, composition: {%s}, thermo: %s%s}' % (name, comp, N7 % (a, h, a, h, th), extra)


TR = ', transport: {model: gas, geometry: linear, well-depth: 97.5, diameter: 3.6, polarizability: 1.7, rotational-relaxation: 4.0}'
TRA = ', transport: {model: gas, geometry: atom, well-depth: 136.5, diameter: 3.3}'
POOL = {
    'N2': sp('N2', 'N: 2', 1e-4, -1000, TR), 'AR': sp('AR', 'Ar: 1', 0, -745, TRA), 'ar': sp('ar', 'Ar: 1', 0, -700, TRA),
    'H2': sp('H2', 'H: 2', 2e-4, -900, TR), 'H2-D': sp('HD', 'H: 1, D: 1', 2e-4, -950, TR), 'He': sp('He', 'He: 1', 0, -745, TRA),
    'E': sp('E', 'E: 1', 0, -745, ', transport: {model: gas, geometry: atom, well-depth: 850.0, diameter: 2.05}'),
    'N2+': sp('N2+', 'N: 2, E: -1', 1e-4, 180000, TR), 'AR+': '{name: AR+, charge: 1, composition: {Ar: 1}, thermo: %s%s}' % (N7 % (0, 1.8e5, 0, 1.8e5, ''), TRA),
    'void': sp('void', '', 0, 0, TRA),
}
MOD = {'N2': sp('N2', 'N: 2', 3e-4, -2000, TR), 'AR': sp('AR', 'Ar: 1', 0, -845, TRA), 'H2': sp('H2', 'H: 2', 9e-4, -100, TR)}
BADSP = {
    'unknown-element': sp('Q', 'H: 1, Xx: 1', th=''), 'unknown-element2': sp('Q', 'Li: 1, Xx: 1, Na: 2'), 'charge': '{name: Q, charge: 2, composition: {Kr: 1, E: -1}, thermo: %s}' % (N7 % (0, 0, 0, 0, '')),
    'charge2': '{name: Q, charge: -1, composition: {O: 1, E: -1}, thermo: %s}' % (N7 % (0, 0, 0, 0, '')),
    'no-thermo': '{name: Q, composition: {O: 2}}', 'refp': sp('Q', 'Cl: 2', th=', reference-pressure: 2 atm'),
}


def S(y):
    return ct.Species.from_yaml(y)


def N(y):
    """species without thermo cannot be made from yaml text with thermo: build by hand"""
    if 'charge:' in y:
        import re
        c = int(re.search(r'charge: (-?\d+)', y).group(1))
        s = ct.Species('Q', S(y).composition, c)
        s.thermo = S(y).thermo
        return s
    if 'thermo' in y:
        return S(y)
    return ct.Species('Q', {'O': 2})


def elements_of(y):
    comp = S(y).composition
    return comp


class Ref:
    """Reference: list of accepted species, in order."""
    def __init__(self, names):
        self.sp = []
        for n in names:
            self.sp.append(POOL[n])
        self.alias = {}
        self.locks = 0
        self.cs = False


SYMW = {}


def element_list(ys, first=()):
    out = list(first)
    for y in ys:
        s = S(y)
        for e in sorted(s.composition):
            if e not in out:
                out.append(e)
        if s.charge and 'E' not in out:
            out.append('E')
    return out


_cache = {}
THERMO = 'ideal-gas'


def rebuild(ys):
    """Phase made in one go from input text."""
    key = tuple(ys)
    if key not in _cache:
        els = element_list(ys)
        t = 'phases:\n- {name: p, thermo: ideal-gas, transport: mixture-averaged, elements: [%s], species: all}\nspecies:\n%s' % (', '.join(els), ''.join(f'- {y}\n' for y in ys))
        _cache[key] = ct.Solution(yaml=t)
        if len(_cache) > 400:
            _cache.pop(next(iter(_cache)))
    return _cache[key]


PROBE = ['N2', 'n2', 'AR', 'ar', 'Ar', 'H2', 'h2', 'HD', 'E', 'e', 'He', 'HE', 'Q', 'N2+', 'AR+', 'alias1', 'ALIAS1', 'alias2', 'void']
ELS = ['N', 'Ar', 'H', 'D', 'He', 'E', 'Xx', 'O', 'Cl', 'Kr', 'Li', 'Na']


def look(f, *a):
    try:
        return f(*a)
    except ERR as e:
        return 'refused'


def table(p):
    """Everything discrete about the phase."""
    n = p.n_species
    return dict(n=n, names=p.species_names, els=p.element_names, nel=p.n_elements, idx=[look(p.species_index, s) for s in PROBE], eidx=[look(p.element_index, s) for s in ELS],
                byi=[p.species_name(k) for k in range(n)], ebyi=[p.element_name(k) for k in range(p.n_elements)], cs=p.case_sensitive_species_names,
                comp=[[p.n_atoms(k, m) for m in range(p.n_elements)] for k in range(n)], iso=[sorted(p.find_isomers(c)) for c in ({'N': 2.}, {'Ar': 1.}, {'H': 2.}, {'O': 2.})],
                sp=[(s.name, s.composition, s.charge, round(s.molecular_weight, 9)) for s in p.species()], chg=list(map(float, p.charges)), over=[look(p.species_name, n), look(p.element_name, p.n_elements)])


def numbers(p, states=((400., 1e5), (1500., 3e5))):
    """Everything numeric about the phase, at fixed states."""
    out = [p.atomic_weight(m) for m in range(p.n_elements)] + list(p.molecular_weights) + [p.reference_pressure, p.min_temp, p.max_temp]
    n = p.n_species
    keep = p.state
    for T, P in states:
        p.TPX = T, P, np.arange(1, n + 1, dtype=float)
        out += list(p.standard_enthalpies_RT) + list(p.standard_entropies_R) + list(p.standard_cp_R) + list(p.chemical_potentials) + list(p.partial_molar_enthalpies) + list(p.partial_molar_volumes)
        out += [p.density, p.enthalpy_mass, p.cp_mole, p.mean_molecular_weight] + [p.elemental_mass_fraction(m) for m in range(p.n_elements)] + list(p.Y) + [s.thermo.cp(T) for s in p.species()]
    p.state = keep
    return np.array(out)


def transport(p):
    keep = p.state
    p.TPX = 500., 1e5, np.arange(1, p.n_species + 1, dtype=float)
    r = np.array([p.viscosity, p.thermal_conductivity] + list(p.mix_diff_coeffs))
    p.state = keep
    return r


def statevec(p):
    """State mapped by species name (independent of later additions)."""
    return [p.T, p.P, p.density] + [p.n_species and float(x) for x in p.X]


OPS = ['add:AR', 'add:ar', 'add:H2', 'add:H2-D', 'add:AR+', 'add:E', 'add:void', 'dup:N2', 'bad:unknown-element2', 'bad:charge', 'bad:charge2', 'bad:refp', 'bad:no-thermo', 'mod:N2', 'mod:AR', 'badmod:comp', 'badmod:name', 'badmod:type',
       'badmod:range', 'badmod:index', 'badmod:refp', 'badmod:nothermo', 'alias:N2', 'alias:H2', 'badalias', 'case', 'lock:reactor', 'lock:array', 'lock:quantity', 'lock:mixture', 'unlock', 'add2', 'set']
# ops whose effects are reached at shallow depth only, to bound the product
DEEP = ['add:AR', 'add:ar', 'add:H2', 'add:H2-D', 'add:AR+', 'dup:N2', 'bad:unknown-element2', 'bad:charge', 'bad:refp', 'mod:N2', 'mod:AR', 'badmod:range', 'alias:N2', 'lock:reactor', 'lock:quantity', 'unlock', 'set']


class Run:
    def __init__(self, ctx, mode):
        self.ctx = ctx
        self.ys = [POOL['N2'], POOL['H2']] if mode != 'one' else [POOL['N2']]
        self.p = ct.Solution(thermo='ideal-gas', kinetics='gas', transport_model='mixture-averaged', species=[S(y) for y in self.ys])
        self.p.TPX = 650., 2e5, 'N2:1'
        self.alias = {}
        self.held = []
        self.touched_order = None

    def names(self):
        return [S(y).name for y in self.ys]

    def expect(self):
        """table of the rebuilt phase with aliases and case option"""
        r = rebuild(self.ys)
        return r

    def locked(self):
        return len(self.held) > 0

    def do(self, op):
        """-> (allowed by the reference, exception or None)"""
        p = self.p
        kind, _, arg = op.partition(':')
        names = self.names()
        err = None
        ok = True
        before = None
        new = None
        try:
            if kind in ('add', 'dup'):
                y = POOL[arg]
                name = S(y).name
                lower = [n.lower() for n in names]
                ok = not self.locked() and name not in names and name not in self.alias
                new = y
                p.add_species(S(y))
            elif kind == 'add2':
                # the same object added again
                s = self.p.species(0)
                ok = False
                p.add_species(s)
            elif kind == 'bad':
                ok = False
                p.add_species(N(BADSP[arg]))
            elif kind == 'mod':
                ok = arg in names
                if ok:
                    i = names.index(arg)
                    p.modify_species(i, S(MOD[arg]))
                    self.ys = self.ys[:i] + [MOD[arg]] + self.ys[i + 1:]
                    return True, None
                p.modify_species(p.species_index(arg), S(MOD[arg]))
            elif kind == 'badmod':
                ok = False
                s = {'comp': sp('N2', 'N: 1, H: 1', 3e-4, -2000, TR), 'name': POOL['AR'], 'type': '{name: N2, composition: {N: 2}, thermo: {model: constant-cp, h0: 5 kJ/mol}}',
                     'range': POOL['N2'].replace('1000.0', '900.0').replace('3500.0', '3000.0').replace('[2.6', '[2.65'), 'index': MOD['N2'], 'refp': sp('N2', 'N: 2', 3e-4, -2000, TR, th=', reference-pressure: 2 atm'),
                     'nothermo': None}[arg]
                sobj = S(s) if s else ct.Species('N2', {'N': 2})
                if arg == 'range':
                    pass
                p.modify_species(len(names) if arg == 'index' else 0, sobj)
            elif kind == 'alias':
                a = 'alias1' if arg == 'N2' else 'alias2'
                ok = arg in names and a not in self.alias
                p.add_species_alias(arg, a)
                if ok:
                    self.alias[a] = arg
                return ok, None
            elif kind == 'badalias':
                ok = False
                p.add_species_alias('N2', 'N2' if len(self.alias) == 0 else sorted(self.alias)[0])
            elif kind == 'case':
                p.case_sensitive_species_names = not p.case_sensitive_species_names
                return True, None
            elif kind == 'lock':
                if arg == 'reactor':
                    self.held.append(ct.IdealGasReactor(p, clone=False) if False else ct.IdealGasReactor(p))
                elif arg == 'array':
                    self.held.append(ct.SolutionArray(p, 2))
                elif arg == 'quantity':
                    self.held.append(ct.Quantity(p, mass=1.0))
                else:
                    self.held.append(ct.Mixture([(p, 1.0)]))
                return True, None
            elif kind == 'unlock':
                if self.held:
                    self.held.pop()
                return True, None
            elif kind == 'set':
                p.TPX = 800., 1.5e5, np.arange(p.n_species, 0, -1, dtype=float)
                numbers(p)
                transport(p)
                return True, None
        except ERR as e:
            err = e
        if ok and err is None and new is not None:
            self.ys = self.ys + [new]
        return ok, err

    def verify(self, key, full=True):
        ctx, p = self.ctx, self.p
        r = self.expect()
        r.case_sensitive_species_names = p.case_sensitive_species_names
        want, got = table(r), table(p)
        for i, s in enumerate(PROBE):
            for a, n in self.alias.items():
                if s == a:
                    want['idx'][i] = want['names'].index(n)
        for k in want:
            if k == 'idx' and self.alias:
                # case-insensitive look-up of an alias is not promised
                got[k] = [g for g, s in zip(got[k], PROBE) if s != 'ALIAS1']
                want[k] = [g for g, s in zip(want[k], PROBE) if s != 'ALIAS1']
            ctx.eq(f'table:{k}:{key}', got[k], want[k], f'{k} after {key}')
            ctx.ev()
        if want['names'] == got['names'] and want['els'] == got['els']:
            ctx.close(f'numbers:{key}', numbers(p), numbers(r), rtol=1e-10, atol=1e-14, msg=f'property values after {key}')
            if full and 'void' not in want['names']:
                md = '-after-modify' if any(y in MOD.values() for y in self.ys) else ''
                ctx.close(f'transport{md}:{key}', transport(p), transport(r), rtol=1e-10, msg=f'transport properties after {key}')
            ctx.ev(2)
        ctx.state((tuple(self.ys), tuple(self.alias), len(self.held)))


def history(ctx, seq, mode, last_only):
    r = Run(ctx, mode)
    key = '>'.join(seq)
    ctx.trace()
    for i, op in enumerate(seq):
        fin = i == len(seq) - 1
        chk = fin
        if chk:
            t0, n0, s0 = table(r.p), numbers(r.p), statevec(r.p)
        ok, err = r.do(op)
        ctx.trans()
        if not chk:
            if ok != (err is None):
                return      # reported by the shorter history
            continue
        if ok and err is not None:
            ctx.violation(f'refused:{key}', f'{op} is refused after {seq[:i]}: {str(err)[:300]}')
            return
        if not ok and err is None:
            ctx.violation(f'accepted:{key}', f'{op} is accepted after {seq[:i]}')
            return
        if not ok:
            ctx.outcome((op, type(err).__name__))
            t1 = table(r.p)
            for k in t0:
                ctx.eq(f'unchanged:{k}:{key}', t1[k], t0[k], f'{k} after the refused {op} in {seq}')
            ctx.close(f'unchanged:numbers:{key}', numbers(r.p), n0, rtol=1e-12, atol=1e-14, msg=f'properties after the refused {op} in {seq}')
            ctx.close(f'unchanged:state:{key}', statevec(r.p), s0, rtol=1e-12, msg=f'state after the refused {op} in {seq}')
            ctx.ev(4)
        elif op != 'set':
            s1 = statevec(r.p)
            ctx.close(f'state:{key}', s1, s0 + [0.] * (len(s1) - len(s0)), rtol=1e-12, msg=f'state (T, P, density, X) after {op} in {seq}')
        r.verify(key)
        # the phase is in use exactly as long as something holds it
    return


# ---------------------------------------------------------------- other equations of state
def poolfrom(file, phase, names, surf=False):
    p = ct.Interface(file, phase) if surf else ct.Solution(file, phase, transport_model=None)
    return [p.species(n) for n in names]


OTHER = {
    # name: (file, phase, base species, additions, thermo, phase-level text)
    'RK': ('co2_RK_example.yaml', None, ['CO2', 'H2O'], ['H2', 'CH4', 'CO'], 'Redlich-Kwong', ''),
    'PR': ('co2_PR_example.yaml', None, ['CO2', 'H2O'], ['H2', 'CH4', 'CO'], 'Peng-Robinson', ''),
    'solid-soln': ('thermo-models.yaml', 'IdealSolidSolnPhase', ['sp1'], ['sp2', 'sp3'], 'ideal-condensed', 'standard-concentration-basis: unity'),
    'surf': ('ptcombust.yaml', 'Pt_surf', ['PT(S)'], ['H(S)', 'O(S)', 'CO2(S)'], 'ideal-surface', 'site-density: 2.7e-9 mol/cm^2'),
    'plasma': ('oxygen-plasma.yaml', 'isotropic-electron-energy-plasma', ['E', 'O2'], ['O2-', 'O'], 'plasma', 'electron-energy-distribution: {type: isotropic, shape-factor: 2.0, mean-electron-energy: 1.0 eV}'),
    'margules': ('LiKCl_liquid.yaml', None, ['KCl(L)'], [], 'Margules', ''),
    'nasa9': ('gasNASA9.yaml', None, ['O2'], ['N2', 'E-', 'NO'], 'ideal-gas', ''),
    'gri': ('gri30.yaml', None, ['N2', 'O2'], ['CH4', 'H2O', 'CO2'], 'ideal-gas', ''),
    'electron': ('thermo-models.yaml', 'Metal', ['electron'], [], 'electron-cloud', 'density: 9.0 kg/m^3'),
    'vpss': ('IdealSolidSolnPhaseExample.yaml', 'VpssSolidSolutionExample', ['C2H2-graph'], [], 'ideal-solution-VPSS', 'standard-concentration-basis: unity'),
    'lattice': ('thermo-models.yaml', 'Li7Si3-interstitial', ['Li(i)'], ['V(i)'], 'lattice', 'site-density: 1.046344e-02 mol/cm^3'),
    'stoich': ('thermo-models.yaml', 'KCl(s)', ['KCl(S)'], [], 'fixed-stoichiometry', ''),
}


def othermodel(ctx, name, depth):
    file, phase, base, adds, thermo, extra = OTHER[name]
    surf = name in ('surf', 'covdep')
    src = ct.Interface(file, phase) if surf else ct.Solution(file, phase, transport_model=None)
    base = [n for n in base if n in src.species_names] or src.species_names[:1]
    adds = [n for n in adds if n in src.species_names]
    if name == 'covdep' or name == 'RK' or name == 'PR':
        pass

    def text(names, mods=()):
        els = []
        sps = []
        for n in names:
            s = src.species(n)
            for e in s.composition:
                if e not in els:
                    els.append(e)
            d = dict(s.input_data)
            sps.append(d)
        import json
        ph = {'name': 'p', 'thermo': thermo, 'species': 'all', 'elements': els}
        doc = ct.AnyMap if False else None
        t = 'phases:\n- name: p\n  thermo: %s\n  elements: [%s]\n  species: all\n' % (thermo, ', '.join(els))
        if extra:
            t += '  ' + extra + '\n'
        t += 'species:\n' + ''.join('- ' + json.dumps(clean(d)) + '\n' for d in sps)
        return t

    def clean(d):
        if isinstance(d, dict):
            return {k: clean(v) for k, v in d.items()}
        if isinstance(d, (list, tuple, np.ndarray)):
            return [clean(v) for v in d]
        if isinstance(d, (np.floating, np.integer)):
            return d.item()
        return d

    def make(names):
        return ct.Interface(yaml=text(names)) if surf else ct.Solution(yaml=text(names), transport_model=None)

    T0 = max(src.min_temp, 320.) if name != 'lattice' else 725.
    T0 = min(T0, src.max_temp)

    def nums(p):
        n = p.n_species
        out = [p.atomic_weight(m) for m in range(p.n_elements)] + list(p.molecular_weights) + [p.reference_pressure, p.min_temp, p.max_temp]
        keep = p.state
        for T, P in ((T0, 2e5), (T0 + 60, 1e6)):
            p.TPX = T, P, np.arange(1, n + 1, dtype=float)
            for f in ('density', 'enthalpy_mole', 'entropy_mole', 'cp_mole', 'chemical_potentials', 'partial_molar_enthalpies', 'partial_molar_volumes', 'activity_coefficients', 'standard_enthalpies_RT', 'standard_gibbs_RT', 'Y'):
                try:
                    out += list(np.atleast_1d(getattr(p, f)))
                except Exception as e:
                    out += [np.nan]
            if surf:
                out += list(p.coverages)
        p.state = keep
        return np.array(out)

    def tab(p):
        return dict(names=p.species_names, els=p.element_names, idx=[p.species_index(n) for n in p.species_names], comp=[[p.n_atoms(k, m) for m in range(p.n_elements)] for k in range(p.n_species)],
                    chg=list(map(float, p.charges)), n=p.n_species, sp=[(s.name, s.composition, s.charge) for s in p.species()], mass=[round(float(x), 9) for x in p.molecular_weights])

    refused = [('dup', lambda p: p.add_species(p.species(0))), ('unknown', lambda p: p.add_species(with_eos(p, 'Q', {'H': 1, 'Xx': 1}))), ('refp', lambda p: p.add_species(with_eos(p, 'Q', {'Kr': 1}, p0=5e5))),
               ('nothermo', lambda p: p.add_species(ct.Species('Q', {'H': 1}))), ('modname', lambda p: p.modify_species(0, with_eos(p, 'Q', p.species(0).composition))),
               ('modcomp', lambda p: p.modify_species(0, with_eos(p, p.species_names[0], {'H': 17.}))), ('modtype', lambda p: p.modify_species(0, with_eos(p, p.species_names[0], p.species(0).composition, odd=True))),
               ('modidx', lambda p: p.modify_species(p.n_species, p.species(0)))]
    late = []   # refused by the model after the species was added: last, once
    if name in ('vpss', 'margules'):
        refused = [r for r in refused if r[0] in ('dup', 'unknown', 'modname', 'modcomp', 'modidx')]
        late.append(('pdss', lambda p: p.add_species(src.species(1))))
    if name in ('stoich',):
        refused.append(('second', lambda p: p.add_species(with_eos(p, 'Q', {'H': 1}))))
    if name == 'plasma':
        refused.append(('second-e', lambda p: p.add_species(with_eos(p, 'Q', {'E': 1})) if 'E' in p.species_names else p.add_species(p.species(0))))
    if name in ('RK', 'PR'):
        late.append(('noparams', lambda p: p.add_species(with_eos(p, 'Q', {'H': 1}, eos={'model': 'none'}))))
    if name in ('solid-soln', 'lattice'):
        late.append(('noeos', lambda p: p.add_species(with_eos(p, 'Q', {'Kr': 1}, eos={'model': 'constant-volume'} if name == 'solid-soln' else {'model': 'nonsense'}))))

    def with_eos(p, nm, comp, p0=None, odd=False, eos=None):
        d = clean(dict(p.species(0).input_data))
        d['name'], d['composition'] = nm, dict(comp)
        d.pop('charge', None)
        if p0:
            d['thermo'] = dict(d['thermo'])
            d['thermo']['reference-pressure'] = p0
        if odd:
            d['thermo'] = {'model': 'Mu0', 'h0': 1.0, 'data': {'298.15': 1.0, '400': 2.0}} if False else ({'model': 'constant-cp', 'h0': 7.0} if d['thermo'].get('model') != 'constant-cp' else {'model': 'NASA7', 'temperature-ranges': [200., 3500.], 'data': [[2.5, 0, 0, 0, 0, 0, 0]]})
        if eos is not None:
            d['equation-of-state'] = eos
        return ct.Species.from_dict(d)

    for r in range(0, min(depth, len(adds)) + 1):
        for order in itertools.permutations(adds, r):
            for variant in ('plain', 'queried', 'refusals'):
                if variant == 'queried' and r == 0:
                    continue
                key = f'{name}:{"+".join(order)}:{variant}'
                ctx.trace()
                try:
                    p = make(base)
                except Exception as e:
                    ctx.violation(f'make:{name}', f'{name}: cannot build {base}: {str(e)[:300]}')
                    return
                p.TPX = T0, 3e5, np.ones(p.n_species)
                good = True
                for n in order:
                    if variant == 'queried':
                        nums(p)
                    if variant == 'refusals':
                        refuse(ctx, key, p, refused, tab, nums)
                    keep = (p.T, p.P, p.density, list(p.X))
                    try:
                        s = src.species(n)
                        p.add_species(ct.Species.from_dict(clean(dict(s.input_data))) if variant != 'plain' else s)
                    except ERR as e:
                        ctx.violation(f'refused:{key}', f'{name}: adding {n} to {p.species_names} is refused: {str(e)[:300]}')
                        good = False
                        break
                    ctx.trans()
                    now = (p.T, p.P, p.density, list(p.X))
                    ctx.close(f'state:{key}', [now[0], now[2]] + now[3], [keep[0], keep[2]] + keep[3] + [0.], rtol=1e-9, msg=f'{key}: state after adding {n}')
                if not good:
                    continue
                if variant == 'refusals':
                    refuse(ctx, key, p, refused, tab, nums)
                q = make(base + list(order))
                if variant == 'refusals' and late:
                    refuse(ctx, 'late:' + key, make(base + list(order)), late, tab, nums)
                a, b = tab(p), tab(q)
                for k in b:
                    ctx.eq(f'table:{k}:{key}', a[k], b[k], f'{key}: {k}')
                if a['names'] == b['names'] and a['els'] == b['els']:
                    x, y = nums(p), nums(q)
                    ctx.close(f'numbers:{key}', x, y, rtol=1e-9, atol=1e-12, msg=f'{key}: property values')
                ctx.ev(len(b) + 1)
                ctx.state((name, order, variant))
                ctx.outcome(tuple(np.round(nums(p)[:6], 9)))


def refuse(ctx, key, p, refused, tab, nums):
    for rn, f in refused:
        t0, n0 = tab(p), nums(p)
        try:
            f(p)
        except ERR:
            pass
        else:
            ctx.violation(f'accepted:{key}:{rn}', f'{key}: the edit {rn} is accepted')
            return
        t1 = tab(p)
        ctx.trans()
        for k in t0:
            ctx.eq(f'unchanged:{k}:{key}:{rn}', t1[k], t0[k], f'{key}: {k} after the refused {rn}')
        if t1['names'] == t0['names']:
            try:
                n1 = nums(p)
            except Exception as e:
                ctx.violation(f'unchanged:unusable:{key}:{rn}', f'{key}: phase unusable after the refused {rn}: {str(e)[:200]}')
                return
            ctx.close(f'unchanged:numbers:{key}:{rn}', n1, n0, rtol=1e-12, atol=1e-14, msg=f'{key}: properties after the refused {rn}')
        ctx.ev(len(t0) + 1)


# ---------------------------------------------------------------- loading rules
def loading(ctx, tier):
    """Which species a phase gets from text: skip-undeclared-elements, element lists, species lists, several sources."""
    allsp = ['H2', 'N2', 'AR', 'H2-D', 'AR+', 'He', 'E']
    body = 'species:\n' + ''.join(f'- {POOL[n]}\n' for n in allsp)
    names = {n: S(POOL[n]).name for n in allsp}
    comp = {n: set(S(POOL[n]).composition) | ({'E'} if S(POOL[n]).charge else set()) for n in allsp}
    decl = {n: set(S(POOL[n]).composition) for n in allsp}
    els = ['H', 'N', 'Ar', 'D', 'E', 'He']
    for r in range(0, len(els) + 1):
        for es in itertools.combinations(els, r):
            for skip in (False, True):
                for lst in ('all', ['H2', 'AR', 'AR+'], ['N2', 'H2-D'], ['He', 'N2+']):
                    key = f'load:{",".join(es)}:{skip}:{lst}'
                    if lst == 'all':
                        want = allsp
                        txt = 'all'
                    else:
                        want = [n for n in lst]
                        txt = '[' + ', '.join(names.get(n, n) for n in lst) + ']'
                    t = f'phases:\n- name: p\n  thermo: ideal-gas\n  species: {txt}\n' + (f'  elements: [{", ".join(es)}]\n' if es else '') + ('  skip-undeclared-elements: true\n' if skip else '') + body
                    ctx.trace()
                    ctx.ev()
                    missing = [n for n in want if n not in names]
                    if missing:
                        expect = 'refused'
                    elif not es and not skip:
                        expect = [names[n] for n in want]
                    elif skip:
                        expect = [names[n] for n in want if decl[n] <= set(es)] if es else None
                    else:
                        expect = [names[n] for n in want] if all(decl[n] <= set(es) for n in want) else 'refused'
                    if not expect:
                        continue
                    try:
                        p = ct.Solution(yaml=t, transport_model=None)
                        got = p.species_names
                        ge = p.element_names
                    except ct.CanteraError as e:
                        got = 'refused'
                    ctx.eq(key, got, expect, f'species loaded with elements {es or "unspecified"}, skip-undeclared-elements {skip}, species {lst}')
                    if got != 'refused' and got == expect:
                        e2 = list(es)
                        for n in [n for n in want if names[n] in got]:
                            for e in sorted(decl[n]):
                                if e not in e2:
                                    e2.append(e)
                            if S(POOL[n]).charge and 'E' not in e2:
                                e2.append('E')
                        ctx.eq('els:' + key, ge, e2, f'elements loaded with {es or "unspecified"}')
                        ctx.outcome((tuple(got), tuple(ge)))
                    ctx.state((es, skip, str(lst)))


def tasks(tier):
    t = [['load']]
    for m in OTHER:
        t.append(['other', m, 2 if tier == 'quick' else 3])
    for op in OPS:
        t.append(['hist', op, 3 if tier == 'quick' else 4])
    return t


def run(task, ctx):
    if task[0] == 'load':
        loading(ctx, ctx.tier)
    elif task[0] == 'other':
        othermodel(ctx, task[1], task[2])
    else:
        op, depth = task[1], task[2]
        for mode in ('two', 'one'):
            history(ctx, [op], mode, True)
            for o2 in OPS:
                history(ctx, [op, o2], mode, True)
            if mode == 'one' and ctx.tier == 'quick':
                continue
            if op in DEEP:
                pool = DEEP if ctx.tier == 'quick' else OPS
                for o2 in DEEP:
                    for o3 in pool:
                        history(ctx, [op, o2, o3], mode, True)
                        if depth == 4 and o3 in DEEP and mode == 'two':
                            for o4 in DEEP:
                                history(ctx, [op, o2, o3, o4], mode, True)
