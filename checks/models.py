"""Pool of thermo models used by several checks. Each entry: file, phase, T list, P list, compositions (phase.X or
coverage/molality forms), options. 'indep' tells which variables can vary."""
import cantera as ct, os

R = os.environ.get('VERIF_REPO', '/repo')
ct.add_directory(R + '/test/data')
ct.add_directory(R + '/data')
ct.suppress_thermo_warnings()
try:
    ct.suppress_deprecation_warnings()
except Exception:
    pass
ATM = 101325.0


class M:
    def __init__(self, name, file, phase, T, P, X, **kw):
        self.name, self.file, self.phase, self.T, self.P, self.X = name, file, phase, T, P, X
        self.heavy = kw.pop('heavy', False)      # slow: fewer states in the quick tier
        self.rtol = kw.pop('rtol', 1e-9)
        self.kw = kw

    def make(self):
        """A new phase object (thermo only)."""
        if self.kw.get('surf'):
            return ct.Interface(self.file, self.phase)
        return ct.Solution(self.file, self.phase, transport_model=None)


def mol(**k):
    return ('mol', k)


POOL = [
    M('ideal-gas', 'h2o2.yaml', None, [300., 1100., 2500.], [ATM, 5e5], ['H2:2,O2:1,AR:4', 'H2O:1', 'H2:0.1,O2:0.7,H2O2:0.1,OH:1e-6']),
    M('ideal-gas-gri', 'gri30.yaml', None, [300., 1500.], [ATM, 1e6], ['CH4:1,O2:2,N2:7.52', 'CO2:0.2,H2O:0.3,CO:0.1,N2:0.4'], heavy=True),
    M('ideal-gas-nasa9', 'gasNASA9.yaml', None, [300., 1500., 7000.], [ATM, 1e6], None),
    M('ideal-gas-nasa9b', 'nasa9-test.yaml', None, [300., 1500.], [ATM, 1e6], None),
    M('ideal-gas-air', 'airNASA9.yaml', None, [300., 1500., 7000.], [ATM, 1e4], None),
    M('redlich-kwong', 'co2_RK_example.yaml', None, [300., 320., 600.], [ATM, 2e7], ['CO2:0.7,CH4:0.2,H2O:0.1', 'CO2:0.3,CH4:0.5,H2O:0.2', 'CO2:0.99,H2:0.01'], rtol=1e-8),
    M('redlich-kwong-params', 'thermo-models.yaml', 'CO2-RK-params', [310., 600.], [ATM, 2e7], ['CO2:0.7,H2O:0.2,H2:0.1', 'CO2:0.99,H2:0.01'], rtol=1e-8),
    M('peng-robinson', 'co2_PR_example.yaml', None, [300., 320., 600.], [ATM, 2e7], ['CO2:0.7,CH4:0.2,H2O:0.1', 'CO2:0.3,CH4:0.5,H2O:0.2', 'CO2:0.99,H2:0.01'], rtol=1e-8),
    M('peng-robinson-params', 'thermo-models.yaml', 'CO2-PR-params', [310., 600.], [ATM, 2e7], ['CO2:0.7,H2O:0.2,H2:0.1', 'CO2:0.99,H2:0.01'], rtol=1e-8),
    M('ideal-molal', 'thermo-models.yaml', 'ideal-molal-aqueous', [300., 340.], [ATM, 5e5], [mol(**{'CH4(aq)': 0.01, 'H2S(aq)': 0.03, 'CO2(aq)': 0.1}), mol(**{'CH4(aq)': 0.1, 'H2S(aq)': 0.01, 'CO2(aq)': 0.1})], rtol=1e-7),
    M('ideal-condensed-1', 'thermo-models.yaml', 'IdealSolidSolnPhase', [300., 500.], [1e4, 2e5], ['sp1:1', 'sp1:0.6,sp2:0.4', 'sp1:0.1,sp2:0.89,sp3:0.01']),
    M('ideal-condensed-2', 'thermo-models.yaml', 'IdealSolidSolnPhase2', [300., 500.], [1e4, 2e5], ['sp1:1', 'sp1:0.01,sp2:0.03,sp3:0.94', 'sp1:0.1,sp2:0.89,sp3:0.01']),
    M('binary-tabulated', 'BinarySolutionTabulatedThermo.yaml', 'anode', [300., 340.], [ATM, 1e6], ['Li[anode]:0.3,V[anode]:0.7', 'Li[anode]:0.6,V[anode]:0.4', 'Li[anode]:0.62,V[anode]:0.38']),
    M('electron-cloud', 'thermo-models.yaml', 'Metal', [300., 500.], [ATM, 1e6], None),
    M('pure-nitrogen', 'liquidvapor.yaml', 'nitrogen', [80., 110., 300.], [ATM, 1e7], None, rtol=1e-7, pure=True),
    M('pure-water', 'liquidvapor.yaml', 'water', [300., 450., 800.], [ATM, 1e7], None, rtol=1e-7, pure=True),
    M('pure-hfc134a', 'liquidvapor.yaml', 'HFC-134a', [250., 350.], [ATM, 5e6], None, rtol=1e-7, pure=True),
    M('pure-heptane', 'liquidvapor.yaml', 'heptane', [300., 500.], [ATM, 5e6], None, rtol=1e-7, pure=True),
    M('pure-co2', 'liquidvapor.yaml', 'carbon-dioxide', [250., 350.], [ATM, 1e7], None, rtol=1e-7, pure=True),
    M('pure-methane', 'liquidvapor.yaml', 'methane', [120., 300.], [ATM, 1e7], None, rtol=1e-7, pure=True),
    M('pure-hydrogen', 'liquidvapor.yaml', 'hydrogen', [25., 300.], [ATM, 5e6], None, rtol=1e-7, pure=True),
    M('pure-oxygen', 'liquidvapor.yaml', 'oxygen', [100., 300.], [ATM, 5e6], None, rtol=1e-7, pure=True),
    M('plasma', 'oxygen-plasma.yaml', 'isotropic-electron-energy-plasma', [300., 2000.], [ATM, 1e4], ['O2:1,O2-:1e-5,E:1e-5', 'O2:0.9,O2-:0.1,E:1e-3'], rtol=1e-8, plasma=True),
    M('plasma-disc', 'oxygen-plasma.yaml', 'discretized-electron-energy-plasma', [300., 2000.], [ATM, 1e4], ['O2:1,O2-:1e-5,E:1e-5', 'O2:0.9,O2-:0.1,E:1e-3'], rtol=1e-8, plasma=True),
    M('debye-huckel-dilute', 'debye-huckel-all.yaml', 'debye-huckel-dilute', [300., 320.], [ATM, 2e6], [mol(**{'Na+': 4.1, 'Cl-': 4.1, 'H+': 1.05e-7, 'OH-': 1.3765e-5, 'NaCl(aq)': 2.2}), mol(**{'Na+': 9.3, 'Cl-': 9.3, 'H+': 1.05e-8, 'OH-': 1.3e-6, 'NaCl(aq)': 0.98})], rtol=1e-8),
    M('debye-huckel-dilute-IAPWS', 'debye-huckel-all.yaml', 'debye-huckel-dilute-IAPWS', [300., 320.], [ATM, 2e6], [mol(**{'Na+': 4.1, 'Cl-': 4.1, 'H+': 1.05e-7, 'OH-': 1.3765e-5, 'NaCl(aq)': 2.2}), mol(**{'Na+': 9.3, 'Cl-': 9.3, 'H+': 1.05e-8, 'OH-': 1.3e-6, 'NaCl(aq)': 0.98})], rtol=1e-6, heavy=True),
    M('debye-huckel-Bdot-ak', 'debye-huckel-all.yaml', 'debye-huckel-B-dot-ak', [300., 320.], [ATM, 2e6], [mol(**{'Na+': 4.1, 'Cl-': 4.1, 'H+': 1.05e-7, 'OH-': 1.3765e-5, 'NaCl(aq)': 2.2}), mol(**{'Na+': 9.3, 'Cl-': 9.3, 'H+': 1.05e-8, 'OH-': 1.3e-6, 'NaCl(aq)': 0.98})], rtol=1e-8),
    M('debye-huckel-Bdot-a-IAPWS', 'debye-huckel-all.yaml', 'debye-huckel-B-dot-a-IAPWS', [300., 320.], [ATM, 2e6], [mol(**{'Na+': 4.1, 'Cl-': 4.1, 'H+': 1.05e-7, 'OH-': 1.3765e-5, 'NaCl(aq)': 2.2}), mol(**{'Na+': 9.3, 'Cl-': 9.3, 'H+': 1.05e-8, 'OH-': 1.3e-6, 'NaCl(aq)': 0.98})], rtol=1e-6, heavy=True),
    M('debye-huckel-pitzer', 'debye-huckel-all.yaml', 'debye-huckel-pitzer-beta_ij', [300., 320.], [ATM, 2e6], [mol(**{'Na+': 4.1, 'Cl-': 4.1, 'H+': 1.05e-7, 'OH-': 1.3765e-5, 'NaCl(aq)': 2.2}), mol(**{'Na+': 9.3, 'Cl-': 9.3, 'H+': 1.05e-8, 'OH-': 1.3e-6, 'NaCl(aq)': 0.98})], rtol=1e-8),
    M('debye-huckel-beta_ij', 'debye-huckel-all.yaml', 'debye-huckel-beta_ij', [300., 320.], [ATM, 2e6], [mol(**{'Na+': 4.1, 'Cl-': 4.1, 'H+': 1.05e-7, 'OH-': 1.3765e-5, 'NaCl(aq)': 2.2}), mol(**{'Na+': 9.3, 'Cl-': 9.3, 'H+': 1.05e-8, 'OH-': 1.3e-6, 'NaCl(aq)': 0.98})], rtol=1e-8),
    M('margules', 'LiKCl_liquid.yaml', None, [900., 1400.], [ATM, 2e6], ['KCl(L):0.2,LiCl(L):0.8', 'KCl(L):0.99,LiCl(L):0.01']),
    M('lattice', 'thermo-models.yaml', 'Li7Si3-interstitial', [725., 925.], [ATM, 5e6], ['Li(i):0.2,V(i):0.8', 'Li(i):0.7,V(i):0.3']),
    M('compound-lattice', 'thermo-models.yaml', 'Li7Si3_and_interstitials', [725., 825.], [ATM, 5e6], ['Li7Si3(s):0.5,Li(i):0.3,V(i):0.2', 'Li7Si3(s):0.5,Li(i):0.1,V(i):0.4']),
    M('fixed-stoich', 'thermo-models.yaml', 'KCl(s)', [300., 500.], [ATM, 1e6], None),
    M('ideal-surface', 'surface-phases.yaml', 'Pt-surf', [300., 800.], [ATM, 5e5], ['Pt(s):0.5,H(s):0.4,O(s):0.1', 'H(s):1', 'Pt(s):0.1,O(s):0.9'], surf=True, iskin=True),
    M('surface-multi', 'ptcombust.yaml', 'Pt_surf', [500., 900.], [ATM, 5e5], ['PT(S):0.5,H(S):0.4,O(S):0.1', 'OH(S):1,CO(S):2'], surf=True),
    M('edge', 'surface-phases.yaml', 'TPB', [300., 900.], [ATM, 2e6], None, surf=True),
    M('covdep-surface', 'copt_covdepsurf_example.yaml', 'covdep', [500., 800.], [ATM, 5e5], ['Pt:0.1,OC_Pt:0.1,CO2_Pt:0.4,C_Pt:0.1,O_Pt:0.3', 'OC_Pt:0.71,CO2_Pt:0.08,C_Pt:0.07,O_Pt:0.14'], surf=True),
    M('water-IAPWS', 'liquidvapor.yaml', 'liquid-water-IAPWS95', [300., 360.], [ATM, 1e7], None, rtol=1e-6),
    M('vpss-simple', 'IdealSolidSolnPhaseExample.yaml', 'VpssSolidSolutionExample', [300., 500.], [ATM, 1e6], ['C2H2-graph:0.2,C-graph:0.5,H2-solute:0.3', 'C-graph:0.6,H2-solute:0.4']),
    M('vpss-hkft', 'pdss_hkft.yaml', None, [300., 360.], [ATM, 1e6], ['H2O(L):0.9,Na+:0.05,Cl-:0.05,H+:1e-7,OH-:1e-7', 'H2O(L):0.6,Na+:0.2,Cl-:0.2'], rtol=1e-6, heavy=True),
    M('ideal-solngas-liquid', 'thermo-models.yaml', 'IdealSolnGas-liquid', [300., 320.], [ATM, 1e6], None),
    M('redlich-kister-2', 'thermo-models.yaml', 'Redlich-Kister-LiC6', [300., 440.], [ATM, 1e6], ['Li(C6):0.85,V(C6):0.15', 'Li(C6):0.3,V(C6):0.7']),
    M('redlich-kister-3', 'thermo-models.yaml', 'Redlich-Kister-complex', [900., 950.], [ATM, 1e6], ['KCl(l):0.85,LiCl(l):0.15', 'KCl(l):0.3,LiCl(l):0.2,NaCl(s):0.5']),
    M('hmw', 'HMW_NaCl.yaml', None, [300., 330.], [ATM, 1e6], [mol(**{'Na+': 9.4, 'Cl-': 9.4, 'H+': 1.05e-5, 'OH-': 1e-5}), mol(**{'Na+': 5., 'Cl-': 4.8, 'H+': 1e-7, 'OH-': 0.2})], rtol=1e-7, heavy=True),
    M('hmw-simple', 'thermo-models.yaml', 'HMW-NaCl-electrolyte', [300., 330.], [ATM, 1e6], [mol(**{'Na+': 2.4, 'Cl-': 2.4, 'H+': 1.05e-5, 'OH-': 1e-5}), mol(**{'Na+': 5., 'Cl-': 4.8, 'H+': 1e-7, 'OH-': 0.2})], rtol=1e-7, heavy=True),
]
BY = {m.name: m for m in POOL}




def comps(m, p=None):
    """Mole-fraction vectors (numpy) of the lattice compositions of model m."""
    p = p or m.make()
    out = []
    if m.X is None:
        if p.n_species == 1:
            return [p.X.copy()]
        import numpy as np
        n = p.n_species
        a = np.arange(1, n + 1, dtype=float)
        return [a / a.sum(), (a[::-1] ** 2) / (a ** 2).sum()]
    for c in m.X:
        if isinstance(c, tuple):
            # molalities relative to the first species (solvent)
            import numpy as np
            w = p.molecular_weights[0] / 1000
            x = np.zeros(p.n_species)
            x[0] = 1.0
            for k, v in c[1].items():
                x[p.species_index(k)] = v * w
            p.X = x
        elif isinstance(p, ct.Interface) and m.kw.get('surf'):
            p.coverages = c
        else:
            p.X = c
        out.append(p.X.copy())
    return out
