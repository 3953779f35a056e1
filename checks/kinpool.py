"""Pool of kinetic mechanisms: name -> file, phase, kind, lattice of states per phase."""
import models
import cantera as ct
import numpy as np, os
ATM = 101325.
HERE = os.path.dirname(os.path.abspath(__file__))


class K:
    def __init__(self, name, file, phase, T, P, X, **kw):
        self.name, self.file, self.phase, self.T, self.P, self.X, self.kw = name, file, phase, T, P, X, kw
        self.surf = kw.get('surf', False)
        self.heavy = kw.get('heavy', False)

    def make(self):
        if self.surf:
            return ct.Interface(self.file, self.phase)
        return ct.Solution(self.file, self.phase, transport_model=None)

    def phases(self, k):
        """All phases taking part: the object itself first."""
        out = [k]
        if self.surf:
            def rec(s):
                for a in s.adjacent.values():
                    if all(a.name != b.name for b in out):
                        out.append(a)
                        if isinstance(a, ct.Interface):
                            rec(a)
            rec(k)
        return out


H2X = ['H2:2,O2:1,H:0.1,O:0.05,OH:0.1,H2O:0.3,HO2:0.05,H2O2:0.06,AR:1', 'H2:0.3,O2:1,H:0.01,O:0.15,OH:0.02,H2O:1.3,HO2:0.02,H2O2:0.01,AR:0.2']
POOL = [
    K('allrates', HERE + '/data/allrates.yaml', None, [600., 1500.], [ATM, 2e6], [x + ',N2:1' for x in H2X]),
    K('h2o2', 'h2o2.yaml', None, [600., 1500.], [ATM, 2e6], [H2X[0], H2X[1]]),
    K('gri30', 'gri30.yaml', None, [700., 1500.], [ATM, 2e6], ['CH4:1,O2:1,N2:4,CH3:0.1,H:0.1,OH:0.2,CO:0.3,H2O:0.2', 'CO:1,O2:0.5,N2:2,H2:0.3,HO2:0.01,C2H4:0.1'], heavy=True),
    K('pdep', 'pdep-test.yaml', 'gas', [600., 1500.], [ATM, 2e6], None),
    K('linearBurke', 'linearBurke-test.yaml', 'linear-Burke-complex', [600., 1500.], [ATM, 2e6], None),
    K('scratch', 'kineticsfromscratch.yaml', 'ohmech', [600., 1500.], [ATM, 2e6], [x for x in H2X]),
    K('blowers-gas', 'blowers-masel.yaml', 'gas', [600., 1500.], [ATM, 2e6], None),
    K('orders', 'reaction-orders.yaml', None, [600., 1500.], [ATM, 2e6], None),
    K('nonreactant', 'nonreactant-order.yaml', None, [600., 1500.], [ATM, 2e6], None),
    K('negative-order', 'negative-order.yaml', None, [600., 1500.], [ATM, 2e6], None),
    K('ET', 'ET_test.yaml', None, [300., 900.], [1000., 1e5], None),
    K('plasma', 'oxygen-plasma.yaml', 'isotropic-electron-energy-plasma', [300., 900.], [ATM, 1e4], ['O2:1,O2-:1e-5,E:1e-5', 'O2:0.9,O2-:0.1,E:1e-3'], plasma=True),
    K('sri', 'sri-falloff.yaml', None, [600., 1500.], [ATM, 2e6], None),
    K('tsang', 'tsang-falloff.yaml', None, [600., 1500.], [ATM, 2e6], None),
    K('rkgas', HERE + '/data/rkgas.yaml', 'rkgas', [600., 900.], [ATM, 2e7], None),
    K('prgas', HERE + '/data/rkgas.yaml', 'prgas', [600., 900.], [ATM, 2e7], None),
    K('pt', 'ptcombust.yaml', 'Pt_surf', [600., 1100.], [ATM, 5e5], ['PT(S):0.5,H(S):0.3,O(S):0.1,OH(S):0.05,CO(S):0.05', 'PT(S):0.1,O(S):0.5,CO(S):0.2,C(S):0.1,H2O(S):0.1'], surf=True),
    K('pt-motzwise', 'ptcombust-motzwise.yaml', 'Pt_surf', [600., 1100.], [ATM, 5e5], ['PT(S):0.5,H(S):0.3,O(S):0.1,OH(S):0.05,CO(S):0.05', 'PT(S):0.1,O(S):0.5,CO(S):0.2,C(S):0.1,H2O(S):0.1'], surf=True),
    K('scratch-surf', 'kineticsfromscratch.yaml', 'Pt_surf', [600., 1100.], [ATM, 5e5], None, surf=True),
    K('blowers-surf', 'blowers-masel.yaml', 'Pt_surf', [600., 1100.], [ATM, 5e5], None, surf=True),
    K('pt-sites', 'surface-phases.yaml', 'Pt-multi-sites', [600., 1100.], [ATM, 5e5], None, surf=True),
    K('anode-surf', 'surface-phases.yaml', 'anode-surface', [300., 350.], [ATM, 5e5], None, surf=True, phi=['anode-surface', 'graphite', 'electrolyte']),
    K('covdep', 'copt_covdepsurf_example.yaml', 'covdep', [500., 800.], [ATM, 5e5], None, surf=True),
    K('sofc-tpb', 'sofc.yaml', 'tpb', [900., 1100.], [ATM, 5e5], None, surf=True, phi=['metal', 'oxide_bulk']),
    K('sofc-oxide', 'sofc.yaml', 'oxide_surface', [900., 1100.], [ATM, 5e5], None, surf=True),
    K('lib-anode', 'lithium_ion_battery.yaml', 'edge_anode_electrolyte', [290., 330.], [ATM, 5e5], None, surf=True, phi=['electron', 'electrolyte']),
    K('lib-cathode', 'lithium_ion_battery.yaml', 'edge_cathode_electrolyte', [290., 330.], [ATM, 5e5], None, surf=True, phi=['electron', 'electrolyte']),
    K('diamond', 'diamond.yaml', 'diamond_100', [900., 1300.], [3000., ATM], None, surf=True),
    K('sticking', 'sticking_coeff_check.yaml', 'Pt_surf', [600., 1100.], [ATM, 5e5], None, surf=True),
    K('methane-pox', 'methane_pox_on_pt.yaml', 'Pt_surf', [600., 1100.], [ATM, 5e5], None, surf=True),
    K('soot', 'haca2.yaml', 'soot_interface', [1200., 1900.], [ATM, 5e5], None, surf=True),
]
BY = {k.name: k for k in POOL}
EQ = [K('hydrogen', 'h2o2.yaml', None, [1], [1], None)]


def lattice_comp(p, i):
    """i-th generic composition (strictly positive) of a phase."""
    n = p.n_species
    a = np.arange(1, n + 1, dtype=float)
    v = [a, a[::-1] ** 1.5, 1 / a, np.where(np.arange(n) % 2, 3.0, 0.5)][i]
    return v / v.sum()


def comps(k, obj):
    if k.X is None:
        return [lattice_comp(obj, 0), lattice_comp(obj, 1)]
    out = []
    for c in k.X:
        if k.surf:
            obj.coverages = c
        else:
            obj.X = c
        out.append(obj.X.copy())
    return out
