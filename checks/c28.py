"""C28: the C interface under all sequences of create/use/delete up to a depth, and every function with every kind of invalid argument, each explored in forked processes."""
import ctypes as C, hashlib, json, math, os, pickle, signal, subprocess, sys, tempfile, shutil
import numpy as np
import clib
from clib import I, D, S, Z, NPOS

PROPERTY, LEVEL = 'C28', 'model_checking'
BUILD = ['py']
TECHNIQUE = ('stateless exploration of the built C interface: every sequence of create, use, delete, clear and reset calls up to a depth, the process forked at each node, with all handles (issued, deleted, never issued) '
             'compared with a reference handle table after each call; every function with each kind of invalid handle, index, name and length in turn, with guard zones around buffers and a digest of unrelated objects')
LEVEL_NOTE = 'All sequences inside the bounds are run; a crash of the forked process is a violation. Freed memory is overwritten by the allocator (MALLOC_PERTURB_) so that dangling references show.'
RULE = 'A case is one call whose outcome is judged, or one comparison of the handle table; states are the distinct reference tables reached.'
ASSUMPTIONS = ['an error value is any of -1, -2, -999, -999.999 or the unsigned forms of these', 'null pointers are outside of the contract']
BOUNDS = {'quick': 'all functions x all invalid arguments; sequences of 4 (solutions, functions), 3 to 4 for the other families',
          'thorough': 'sequences of 5 (solutions, functions) and 4 to 5 for the other families'}
LIB = C.PyDLL(os.path.join(clib.B, 'o', 'libcantera_shared.so.3'))      # keeps the interpreter lock: log output goes through Python


def fn(name, res, *args):
    f = getattr(LIB, name)
    f.restype, f.argtypes = res, list(args)
    return f


T = {'int': I, 'double': D, 'size': Z}

# function, result, arguments:  handle as kind=name; k=valid/size an index; K the same as size_t; s=text, s!text also with unknown names;
# A=size:role checked array; B a text buffer; numbers as they are
SPEC = '''
soln_name int sol=gas B
soln_thermo int sol=gas
soln_kinetics int sol=gas
soln_transport int sol=gas
soln_setTransportModel int sol=gas s!multicomponent
soln_nAdjacent size sol=surf
soln_adjacent int sol=surf k=0/1
soln_adjacentName int sol=surf k=0/1 B
soln_del int sol=gas
thermo_parent int th=gas
thermo_nElements size th=gas
thermo_nSpecies size th=gas
thermo_temperature double th=gas
thermo_setTemperature int th=gas d:800
thermo_density double th=gas
thermo_setDensity int th=gas d:0.5
thermo_molarDensity double th=gas
thermo_meanMolecularWeight double th=gas
thermo_moleFraction double th=gas K=3/10
thermo_massFraction double th=gas K=3/10
thermo_getMoleFractions int th=gas A=10:out
thermo_getMassFractions int th=gas A=10:out
thermo_setMoleFractions int th=gas A=10:in i:1
thermo_setMassFractions int th=gas A=10:in i:1
thermo_setMoleFractionsByName int th=gas s!H2:1,O2:2
thermo_setMassFractionsByName int th=gas s!H2:1,O2:2
thermo_getAtomicWeights int th=gas A=4:out
thermo_getMolecularWeights int th=gas A=10:out
thermo_getCharges int th=gas A=10:out
thermo_getElementName int th=gas K=1/4 B
thermo_getSpeciesName int th=gas K=3/10 B
thermo_getName int th=gas B
thermo_setName int th=gas s=abc
thermo_elementIndex size th=gas s!H
thermo_speciesIndex size th=gas s!H2
thermo_report int th=gas i:1 d:1e-9 B
thermo_print int th=gas i:1 d:1e-9
thermo_nAtoms double th=gas K=3/10 K=1/4
thermo_getEosType int th=gas B
thermo_refPressure double th=gas
thermo_minTemp double th=gas k=3/10+
thermo_maxTemp double th=gas k=3/10+
thermo_enthalpy_mole double th=gas
thermo_intEnergy_mole double th=gas
thermo_entropy_mole double th=gas
thermo_gibbs_mole double th=gas
thermo_cp_mole double th=gas
thermo_cv_mole double th=gas
thermo_pressure double th=gas
thermo_setPressure int th=gas d:2e5
thermo_enthalpy_mass double th=gas
thermo_intEnergy_mass double th=gas
thermo_entropy_mass double th=gas
thermo_gibbs_mass double th=gas
thermo_cp_mass double th=gas
thermo_cv_mass double th=gas
thermo_electricPotential double th=gas
thermo_thermalExpansionCoeff double th=gas
thermo_isothermalCompressibility double th=gas
thermo_chemPotentials int th=gas A=10:out
thermo_electrochemPotentials int th=gas A=10:out
thermo_getEnthalpies_RT int th=gas A=10:out
thermo_getEntropies_R int th=gas A=10:out
thermo_getCp_R int th=gas A=10:out
thermo_setElectricPotential int th=gas d:0.1
thermo_getPartialMolarEnthalpies int th=gas A=10:out
thermo_getPartialMolarEntropies int th=gas A=10:out
thermo_getPartialMolarIntEnergies int th=gas A=10:out
thermo_getPartialMolarCp int th=gas A=10:out
thermo_getPartialMolarVolumes int th=gas A=10:out
thermo_set_TP int th=gas P:500,2e5
thermo_set_TD int th=gas P:500,0.2
thermo_set_DP int th=gas P:0.3,1e5
thermo_set_HP int th=gas P:1e6,1e5
thermo_set_UV int th=gas P:1e6,2
thermo_set_SV int th=gas P:15000,4
thermo_set_SP int th=gas P:15000,1e5
thermo_set_ST int th=water P:4000,300
thermo_set_TV int th=water P:500,0.5
thermo_set_PV int th=water P:1e5,2
thermo_set_UP int th=water P:-1.5e7,1e5
thermo_set_VH int th=water P:2,-1.3e7
thermo_set_TH int th=water P:500,-1.305e7
thermo_set_SH int th=water P:11000,-1.3e7
thermo_equilibrate int th=gas s!TP s!gibbs d:1e-9 i:1000 i:100 i:0
thermo_critTemperature double th=water
thermo_critPressure double th=water
thermo_critDensity double th=water
thermo_vaporFraction double th=water
thermo_satTemperature double th=water d:1e5
thermo_satPressure double th=water d:400
thermo_setState_Psat int th=water d:1e5 d:0.4
thermo_setState_Tsat int th=water d:400 d:0.4
kin_parent int ki=gas
kin_nSpecies size ki=gas
kin_nReactions size ki=gas
kin_nPhases size ki=gas
kin_phaseIndex size ki=gas s!ohmech
kin_reactantStoichCoeff double ki=gas k=3/10 k=5/29
kin_productStoichCoeff double ki=gas k=3/10 k=5/29
kin_getReactionType int ki=gas k=5/29 B
kin_getFwdRatesOfProgress int ki=gas A=29:out
kin_getRevRatesOfProgress int ki=gas A=29:out
kin_getNetRatesOfProgress int ki=gas A=29:out
kin_getEquilibriumConstants int ki=gas A=29:out
kin_getFwdRateConstants int ki=gas A=29:out
kin_getRevRateConstants int ki=gas i:1 A=29:out
kin_getDelta int ki=gas k=2/6 A=29:out
kin_getCreationRates int ki=gas A=10:out
kin_getDestructionRates int ki=gas A=10:out
kin_getNetProductionRates int ki=gas A=10:out
kin_getSourceTerms int ki=gas A=10:out
kin_multiplier double ki=gas k=5/29
kin_getReactionString int ki=gas k=5/29 B
kin_setMultiplier int ki=gas k=5/29 d:2
kin_isReversible int ki=gas k=5/29
kin_getType int ki=gas B
kin_start size ki=gas k=0/1
kin_speciesIndex size ki=gas s!H2
kin_advanceCoverages int ki=surf d:1e-9
kin_phase size ki=gas K=0/1
trans_parent int tr=gas
trans_transportModel int tr=gas B
trans_viscosity double tr=gas
trans_electricalConductivity double tr=water!
trans_thermalConductivity double tr=gas
trans_getThermalDiffCoeffs int tr=gas L=10:10
trans_getMixDiffCoeffs int tr=gas L=10:10
trans_getBinDiffCoeffs int tr=gas L=10:100
trans_getMultiDiffCoeffs int tr=multi L=10:100
trans_getMolarFluxes int tr=multi R:12 R:12 d:0.1 O:10
trans_getMassFluxes int tr=multi R:12 R:12 d:0.1 O:10
ct_getCanteraVersion int B
ct_getGitCommit int B
ct_getDataDirectories int s=, B
func_check int s=sin B
func_new_basic int s!sin d:2
func_new_advanced int s!Gaussian A=3:in@
func_new_compound int s!sum fu=f fu=g
func_new_modified int s!times-constant fu=f d:2
func_new_sum int fu=f fu=g
func_new_diff int fu=f fu=g
func_new_prod int fu=f fu=g
func_new_ratio int fu=f fu=g
func_del int fu=f
func_type int fu=f B
func_value double fu=f d:0.3
func_derivative int fu=f
func_duplicate int fu=f
func_write int fu=f s=x B
mix_del int mx=mix
mix_addPhase int mx=mixnew th=gas d:1
mix_init int mx=mix
mix_updatePhases int mx=mix
mix_nElements size mx=mix
mix_elementIndex size mx=mix s!H
mix_speciesIndex size mx=mix k=0/1 k=1/2
mix_nSpecies size mx=mix
mix_setTemperature int mx=mix d:500
mix_temperature double mx=mix
mix_minTemp double mx=mix
mix_maxTemp double mx=mix
mix_charge double mx=mix
mix_phaseCharge double mx=mix k=1/2
mix_setPressure int mx=mix d:2e5
mix_pressure double mx=mix
mix_nAtoms double mx=mix k=3/11 k=1/5
mix_nPhases size mx=mix
mix_phaseMoles double mx=mix k=1/2
mix_setPhaseMoles int mx=mix k=1/2 d:2
mix_setMoles int mx=mix A=11:in
mix_setMolesByName int mx=mix s!H2:1
mix_speciesMoles double mx=mix k=3/11
mix_elementMoles double mx=mix k=1/5
mix_equilibrate double mx=mix s!TP d:1e-9 i:1000 i:100 i:0
mix_getChemPotentials int mx=mix A=11:out
mix_enthalpy double mx=mix
mix_entropy double mx=mix
mix_gibbs double mx=mix
mix_cp double mx=mix
mix_volume double mx=mix
mix_speciesPhaseIndex size mx=mix k=3/11
mix_moleFraction double mx=mix k=3/11
domain_new int s!free-flow sol=gas s=new
domain_del int do=flow
domain_type int do=flow B
domain_index size do=flow
domain_nComponents size do=flow
domain_nPoints size do=flow
domain_componentName int do=flow k=2/NC B
domain_componentIndex size do=flow s!velocity
domain_setBounds int do=flow k=2/NC d:-1 d:1e5
domain_lowerBound double do=flow k=0/NC
domain_upperBound double do=flow k=2/NC
domain_setSteadyTolerances int do=flow k=2/NC d:1e-4 d:1e-9
domain_setTransientTolerances int do=flow k=2/NC d:1e-4 d:1e-9
domain_rtol double do=flow k=2/NC
domain_atol double do=flow k=2/NC
domain_setupGrid int do=flow i:4 R:4
domain_setID int do=flow s=xx
domain_grid double do=flow k=2/6
bdry_setMdot int do=inlet d:0.2
bdry_setTemperature int do=inlet d:400
bdry_setSpreadRate int do=inlet d:0.1
bdry_setMoleFractions int do=inlet s!H2:1
bdry_temperature double do=inlet
bdry_spreadRate double do=inlet
bdry_massFraction double do=inlet k=3/10
bdry_mdot double do=inlet
reactingsurf_enableCoverageEqs int do=rsurf i:1
flow1D_setTransport int do=flow tr=gas
flow1D_enableSoret int do=flow i:0
flow1D_setPressure int do=flow d:2e5
flow1D_pressure double do=flow
flow1D_setFixedTempProfile int do=flow i:3 R:3 i:3 R:3
flow1D_solveEnergyEqn int do=flow i:1
sim1D_del int si=sim
sim1D_setValue int si=sim k=1/3 k=2/NC k=2/6 d:0.5
sim1D_setProfile int si=sim k=1/3 k=2/NC i:2 R:2 i:2 R:2
sim1D_setFlatProfile int si=sim k=1/3 k=2/NC d:300
sim1D_show int si=sim
sim1D_setTimeStep int si=sim d:1e-5 i:2 N:2
sim1D_getInitialSoln int si=sim
sim1D_setRefineCriteria int si=sim k=1/3+ d:4 d:0.2 d:0.3 d:0.1
sim1D_setGridMin int si=sim k=1/3+ d:1e-6
sim1D_writeStats int si=sim i:0
sim1D_domainIndex int si=sim s!flow
sim1D_value double si=sim k=1/3 k=2/NC k=2/6
sim1D_workValue double si=sim k=1/3 k=2/NC k=2/6
sim1D_eval int si=sim d:0 i:0
sim1D_setMaxJacAge int si=sim i:5 i:5
sim1D_setFixedTemperature int si=sim d:500
reactor_new int s!IdealGasReactor sol=gas s=nm
reactor_del int re=spare
reactor_type int re=re B
reactor_name int re=re B
reactor_setName int re=re s=abc
reactor_setInitialVolume int re=re d:2
reactor_setChemistry int re=re i:1
reactor_setEnergy int re=re i:1
reactor_mass double re=re
reactor_volume double re=re
reactor_density double re=re
reactor_temperature double re=re
reactor_enthalpy_mass double re=re
reactor_intEnergy_mass double re=re
reactor_pressure double re=re
reactor_massFraction double re=re k=3/10
reactor_nSensParams size re=re
reactor_addSensitivityReaction int re=spare k=5/29
reactor_setMassFlowRate int re=flowr d:0.1
reactornet_del int ne=net
reactornet_setInitialTime int ne=net d:0.1
reactornet_setMaxTimeStep int ne=net d:0.1
reactornet_setTolerances int ne=net d:1e-8 d:1e-14
reactornet_setSensitivityTolerances int ne=net d:1e-8 d:1e-14
reactornet_addreactor int ne=netnew re=re
reactornet_advance int ne=net d:1e-6
reactornet_step double ne=net
reactornet_time double ne=net
reactornet_rtol double ne=net
reactornet_atol double ne=net
reactornet_sensitivity double ne=net s!temperature k=0/1 k=0/1
connector_new int s!MassFlowController re=re re=res s=nm
connector_del int co=spare
connector_type int co=mfc B
connector_name int co=mfc B
connector_setName int co=mfc s=abc
flowdev_setPrimary int co=pc co=mfc
flowdev_massFlowRate double co=mfc
flowdev_setMassFlowCoeff int co=mfc d:0.1
flowdev_setValveCoeff int co=valve d:0.1
flowdev_setPressureCoeff int co=pc d:0.1
flowdev_setPressureFunction int co=valve fu=f
flowdev_setTimeFunction int co=valve fu=f
wall_expansionRate double co=wall
wall_heatRate double co=wall
wall_area double co=wall
wall_setArea int co=wall d:0.5
wall_setThermalResistance int co=wall d:2
wall_setHeatTransferCoeff int co=wall d:2
wall_setHeatFlux int co=wall fu=f
wall_setExpansionRateCoeff int co=wall d:2
wall_setVelocity int co=wall fu=f
wall_setEmissivity int co=wall d:0.5
reactorsurface_new int s=nm
reactorsurface_del int rs=spare
reactorsurface_name int rs=rs B
reactorsurface_setName int rs=rs s=abc
reactorsurface_install int rs=new re=re
reactorsurface_setkinetics int rs=rs ki=surf
reactorsurface_area double rs=rs
reactorsurface_setArea int rs=rs d:2
reactorsurface_addSensitivityReaction int rs=rs k=3/24
rdiag_del int rd=rd
rdiag_detailed int rd=rd
rdiag_brief int rd=rd
rdiag_setThreshold int rd=rd d:0.1
rdiag_setBoldColor int rd=rd s=red
rdiag_setNormalColor int rd=rd s=red
rdiag_setDashedColor int rd=rd s=red
rdiag_setDotOptions int rd=rd s=x
rdiag_setFont int rd=rd s=Arial
rdiag_setBoldThreshold int rd=rd d:0.2
rdiag_setNormalThreshold int rd=rd d:0.2
rdiag_setLabelThreshold int rd=rd d:0.2
rdiag_setScale int rd=rd d:2
rdiag_setFlowType int rd=rd i:1
rdiag_setArrowWidth int rd=rd d:2
rdiag_setTitle int rd=rd s=title
rdiag_write int rd=rd i:0 F
rdiag_add int rd=rd rd=rd2
rdiag_displayOnly int rd=rd k=-1/0+
rbuild_init int rb=new F ki=gas
rbuild_build int rb=rb ki=gas s!H F rd=rd i:1
rbuild_del int rb=rb
surf_setCoverages int th=surf R:11 i:1
surf_getCoverages int th=surf O:11
surf_setConcentrations int th=surf! R:11
surf_getConcentrations int th=surf O:11
surf_setSiteDensity int th=surf d:1e-8
surf_siteDensity double th=surf
surf_setCoveragesByName int th=surf s!PT(S):1
'''.strip().splitlines()
# wrong kinds of object for functions which need a subclass
WRONG = {('kin_advanceCoverages', 0): 'gas', ('reactingsurf_enableCoverageEqs', 0): 'flow', ('bdry_setMdot', 0): 'flow', ('bdry_temperature', 0): 'flow', ('flow1D_pressure', 0): 'inlet', ('flow1D_setPressure', 0): 'inlet',
         ('flow1D_enableSoret', 0): 'inlet', ('flow1D_setTransport', 0): 'inlet', ('flow1D_solveEnergyEqn', 0): 'inlet', ('reactor_setChemistry', 0): 'res', ('reactor_setEnergy', 0): 'res', ('reactor_nSensParams', 0): 'res',
         ('reactor_addSensitivityReaction', 0): 'res', ('reactor_setMassFlowRate', 0): 're', ('reactornet_addreactor', 1): 'res', ('flowdev_setPrimary', 0): 'mfc', ('flowdev_setPrimary', 1): 'wall', ('flowdev_massFlowRate', 0): 'wall',
         ('flowdev_setMassFlowCoeff', 0): 'valve', ('flowdev_setValveCoeff', 0): 'mfc', ('flowdev_setPressureCoeff', 0): 'mfc', ('flowdev_setTimeFunction', 0): 'wall', ('wall_area', 0): 'mfc', ('wall_setArea', 0): 'mfc', ('wall_heatRate', 0): 'mfc',
         ('wall_setVelocity', 0): 'mfc', ('surf_getCoverages', 0): 'gas', ('surf_siteDensity', 0): 'gas', ('surf_setCoverages', 0): 'gas', ('thermo_setState_Psat', 0): 'gas', ('thermo_setState_Tsat', 0): 'gas'}
DELETE = {'sol': 'soln_del', 'fu': 'func_del', 'mx': 'mix_del', 'do': 'domain_del', 'si': 'sim1D_del', 're': 'reactor_del', 'ne': 'reactornet_del', 'co': 'connector_del', 'rs': 'reactorsurface_del', 'rd': 'rdiag_del', 'rb': 'rbuild_del'}
H = {}
DIR = None


def c(name, res, *args):
    """call by plain values"""
    types, vals = [], []
    for a in args:
        if isinstance(a, str):
            types.append(S), vals.append(a.encode())
        elif isinstance(a, float):
            types.append(D), vals.append(a)
        elif isinstance(a, int):
            types.append(I), vals.append(a)
        elif isinstance(a, np.ndarray):
            p = C.POINTER(C.c_double if a.dtype == float else C.c_int)
            types.append(p), vals.append(a.ctypes.data_as(p))
        else:
            types.append(type(a)), vals.append(a)
    return fn(name, T[res], *types)(*vals)


def quiet():
    """silence output and Cantera's log"""
    f = os.open('/dev/null', os.O_WRONLY)
    os.dup2(f, 1)
    os.dup2(f, 2)


def fixture():
    g = c('soln_newSolution', 'int', 'h2o2.yaml', 'ohmech', 'mixture-averaged')
    H['sol:gas'], H['th:gas'], H['ki:gas'], H['tr:gas'] = g, c('soln_thermo', 'int', g), c('soln_kinetics', 'int', g), c('soln_transport', 'int', g)
    m = c('soln_newSolution', 'int', 'h2o2.yaml', 'ohmech', 'multicomponent')
    H['sol:multi'], H['tr:multi'] = m, c('soln_transport', 'int', m)
    w = c('soln_newSolution', 'int', 'liquidvapor.yaml', 'water', 'default')
    H['sol:water'], H['th:water'], H['tr:water'] = w, c('soln_thermo', 'int', w), c('soln_transport', 'int', w)
    s = c('soln_newInterface', 'int', 'ptcombust.yaml', 'Pt_surf', 0, np.zeros(1, np.int32))
    H['sol:surf'], H['th:surf'], H['ki:surf'] = s, c('soln_thermo', 'int', s), c('soln_kinetics', 'int', s)
    ar = c('soln_newSolution', 'int', 'air.yaml', 'air', 'none')
    H['sol:air'], H['th:air'] = ar, c('soln_thermo', 'int', ar)
    o2 = c('soln_newSolution', 'int', 'graphite.yaml', 'graphite', 'none')
    H['sol:graphite'], H['th:graphite'] = o2, c('soln_thermo', 'int', o2)
    c('thermo_set_TP', 'int', H['th:gas'], np.array([1100., 1.5e5]))
    c('thermo_setMoleFractionsByName', 'int', H['th:gas'], 'H2:1, O2:0.6, H2O:0.3, OH:0.01, H:0.02')
    c('thermo_set_TP', 'int', H['th:water'], np.array([500., 1e5]))
    H['fu:f'] = c('func_new_basic', 'int', 'sin', 1.5)
    H['fu:g'] = c('func_new_basic', 'int', 'exp', -.5)
    x = c('mix_new', 'int')
    c('mix_addPhase', 'int', x, H['th:gas'], 1.)
    c('mix_addPhase', 'int', x, H['th:graphite'], .5)
    c('mix_init', 'int', x)
    H['mx:mix'] = x
    H['mx:mixnew'] = c('mix_new', 'int')
    H['do:inlet'] = c('domain_new', 'int', 'inlet', g, 'in')
    H['do:flow'] = c('domain_new', 'int', 'free-flow', g, 'flow')
    H['do:outlet'] = c('domain_new', 'int', 'outlet', g, 'out')
    H['do:rsurf'] = c('domain_new', 'int', 'reacting-surface', s, 'rs')
    c('domain_setupGrid', 'int', H['do:flow'], C.c_size_t(6), np.linspace(0, .02, 6))
    c('bdry_setMoleFractions', 'int', H['do:inlet'], 'H2:1, O2:1, AR:3')
    c('bdry_setTemperature', 'int', H['do:inlet'], 300.)
    c('bdry_setMdot', 'int', H['do:inlet'], .1)
    H['si:sim'] = c('sim1D_new', 'int', C.c_size_t(3), np.array([H['do:inlet'], H['do:flow'], H['do:outlet']], np.int32))
    H['NC'] = c('domain_nComponents', 'size', H['do:flow'])
    H['re:re'] = c('reactor_new', 'int', 'IdealGasReactor', g, 'r')
    H['re:res'] = c('reactor_new', 'int', 'Reservoir', m, 'rv')
    H['re:flowr'] = c('reactor_new', 'int', 'FlowReactor', m, 'fr')
    H['re:spare'] = c('reactor_new', 'int', 'IdealGasReactor', m, 'sp')
    H['ne:net'] = c('reactornet_new', 'int')
    H['ne:netnew'] = c('reactornet_new', 'int')
    H['ne:net3'] = c('reactornet_new', 'int')
    c('reactornet_addreactor', 'int', H['ne:net3'], H['re:spare'])
    H['co:mfc'] = c('connector_new', 'int', 'MassFlowController', H['re:res'], H['re:re'], 'mfc')
    H['co:valve'] = c('connector_new', 'int', 'Valve', H['re:re'], H['re:res'], 'valve')
    H['co:pc'] = c('connector_new', 'int', 'PressureController', H['re:re'], H['re:res'], 'pc')
    c('flowdev_setPrimary', 'int', H['co:pc'], H['co:mfc'])
    H['co:wall'] = c('connector_new', 'int', 'Wall', H['re:re'], H['re:res'], 'wall')
    H['co:spare'] = c('connector_new', 'int', 'Valve', H['re:spare'], H['re:res'], 'valve2')
    H['rs:rs'] = c('reactorsurface_new', 'int', 'rs')
    H['rs:new'] = c('reactorsurface_new', 'int', 'rsn')
    H['rs:spare'] = c('reactorsurface_new', 'int', 'rss')
    c('reactorsurface_setkinetics', 'int', H['rs:rs'], H['ki:surf'])
    c('reactorsurface_setkinetics', 'int', H['rs:new'], H['ki:surf'])
    c('reactornet_addreactor', 'int', H['ne:net'], H['re:re'])
    c('reactor_addSensitivityReaction', 'int', H['re:re'], 4)
    c('reactornet_advance', 'int', H['ne:net'], 1e-9)
    H['rd:rd'] = c('rdiag_new', 'int')
    H['rd:rd2'] = c('rdiag_new', 'int')
    H['rb:rb'] = c('rbuild_new', 'int')
    H['rb:new'] = c('rbuild_new', 'int')
    c('rbuild_init', 'int', H['rb:rb'], DIR + '/l', H['ki:gas'])
    c('rbuild_build', 'int', H['rb:rb'], H['ki:gas'], 'H', DIR + '/d', H['rd:rd'], 1)
    c('rbuild_build', 'int', H['rb:rb'], H['ki:gas'], 'H', DIR + '/d', H['rd:rd2'], 1)
    c('thermo_set_TP', 'int', H['th:gas'], np.array([1100., 1.5e5]))
    c('thermo_setMoleFractionsByName', 'int', H['th:gas'], 'H2:1, O2:0.6, H2O:0.3, OH:0.01, H:0.02')
    bad = [k for k, v in H.items() if v < 0 and k != 'tr:water']
    assert not bad, bad


def digest():
    """what a failed call must not change"""
    out = []
    for t in ('gas', 'water', 'surf', 'air', 'graphite'):
        h = H['th:' + t]
        out += [c('thermo_temperature', 'double', h), c('thermo_density', 'double', h), float(c('thermo_nSpecies', 'size', h)), c('thermo_moleFraction', 'double', h, C.c_size_t(0))]
    out += [c('func_value', 'double', H['fu:f'], .3), c('func_value', 'double', H['fu:g'], .3)]
    out += [c('reactornet_time', 'double', H['ne:net']), c('reactornet_rtol', 'double', H['ne:net']), c('reactor_volume', 'double', H['re:re']), c('wall_area', 'double', H['co:wall'])]
    out += [c('mix_temperature', 'double', H['mx:mix']), c('mix_phaseMoles', 'double', H['mx:mix'], 1), c('bdry_temperature', 'double', H['do:inlet']), c('bdry_mdot', 'double', H['do:inlet'])]
    out += [c('domain_grid', 'double', H['do:flow'], k) for k in range(6)] + [c('domain_rtol', 'double', H['do:flow'], 2), c('flow1D_pressure', 'double', H['do:flow'])]
    out += [c('sim1D_value', 'double', H['si:sim'], 1, k, j) for k in (0, 2, 4) for j in (0, 5)]
    out += [c('kin_multiplier', 'double', H['ki:gas'], k) for k in range(3)]
    out += [float(c('soln_' + w, 'int', H['sol:gas'])) for w in ('thermo', 'kinetics', 'transport')] + [float(c('thermo_size', 'int'))]
    return out


def is_error(r, res):
    if res == 'int':
        return r in (-1, -2, -999)
    if res == 'size':
        return r >= NPOS - 1100
    return r in (-999.999, -999., -1., -2.)


def forked(g, limit=60):
    """run g in a child process; returns ('ok', result) or ('signal', n)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        code = 1
        try:
            signal.alarm(limit)
            quiet()
            b = pickle.dumps(g())
            while b:
                b = b[os.write(wr, b):]
            code = 0
        except BaseException as e:
            import traceback
            try:
                os.write(wr, pickle.dumps(('exception', repr(e) + traceback.format_exc()[-600:])))
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(wr)
    data = b''
    while True:
        b = os.read(rd, 1 << 16)
        if not b:
            break
        data += b
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return 'signal', os.WTERMSIG(st)
    return ('ok' if os.WEXITSTATUS(st) == 0 else 'failed'), pickle.loads(data) if data else None


BAD_INT = lambda n: [-1, n, n + 1, n + 1000, 2**31 - 1, -2**31]
BAD_SIZE = lambda n: [n, n + 1, n + 1000, 2**31, NPOS]
BAD_NAME = ['nope_xx', 'O2:x', '']
GUARD = -7.25e77


class Call:
    """one function with its valid arguments, and the variants"""
    def __init__(self, line):
        f = line.split()
        self.name, self.res, self.args = f[0], f[1], f[2:]

    def variants(self):
        """(label, position, replacement, expect error)"""
        yield 'valid', None, None, None if self.name == 'reactorsurface_addSensitivityReaction' else False     # (not in a network of its own: may be refused)
        for i, a in enumerate(self.args):
            if '=' in a and a.split('=')[0] in ('sol', 'th', 'ki', 'tr') or a.split('=')[0] in DELETE:
                for b in (-1, -2, -2**31, 2**31 - 1, 1000, 99999):
                    yield 'handle', i, b, True
                yield 'deleted', i, 'deleted', True
                if (self.name, i) in WRONG:
                    yield 'wrong kind', i, H[a.split('=')[0] + ':' + WRONG[self.name, i]], True
            elif a[0] in 'kK' and a[1] == '=':
                v, n = a[2:].split('/')
                ok = n.endswith('+')
                n = int(n.rstrip('+').replace('NC', str(H['NC'])))
                if n:
                    for b in BAD_INT(n) if a[0] == 'k' else BAD_SIZE(n):
                        if not (ok and b == -1):
                            yield 'index', i, b, True
                for b in sorted({0, n - 1} if n else {-1}) if not (self.name.startswith('sim1D') and i == 1) else ():
                    yield 'last', i, b, None if self.name == 'reactorsurface_addSensitivityReaction' else False
            elif a[:2] == 's!':
                for b in BAD_NAME:
                    if not (b == '' and self.name == 'soln_setTransportModel') and not (b == '' and ('ByName' in self.name or 'MoleFractions' in self.name or self.name == 'rbuild_build')) and not (b == 'O2:x' and ':' not in a):
                        yield 'name', i, b, True
            elif a[:2] == 'A=':
                n = int(a[2:].split(':')[0])
                for L in (0, 1, n - 1):
                    yield 'short', i, L, True
                for L in (n, n + 3):
                    yield 'long', i, L, '@' in a and L > n
            elif a[:2] == 'L=':
                n = int(a[2:].split(':')[0])
                for L in (-5, 0, 1, n - 1):
                    yield 'short', i, L, None if L < 0 else True
            elif a == 'B':
                for L in (0, 1, 2, 'n-1', 'n', 'n+1', 'n+9'):
                    yield 'buffer', i, L, None
            elif a[0] == 'F':
                yield 'file', i, '/nonexistent-dir/x', None

    def run(self, pos, rep):
        types, vals, keep, after = [], [], [], []
        problems = []
        def arr(n, fill=None, dtype=float):
            a = np.full(n + 16, GUARD if dtype is float else 12345, dtype)
            if fill is not None:
                a[:n] = fill
            keep.append(a)
            return a
        P = C.POINTER(C.c_double)
        for i, a in enumerate(self.args):
            r = rep if pos == i else None
            if '=' in a and a.split('=')[0] in ('sol', 'th', 'ki', 'tr') or a.split('=')[0] in DELETE:
                k, n = a.split('=')
                n = n.rstrip('!')
                types.append(I), vals.append(r if r is not None else H[f'{k}:{n}'])
            elif a[0] in 'kK' and a[1] == '=':
                types.append(I if a[0] == 'k' else Z), vals.append(int(a[2:].split('/')[0]) if r is None else r)
            elif a[:2] in ('s!', 's='):
                types.append(S), vals.append((a[2:] if r is None else r).encode())
            elif a == 'F':
                types.append(S), vals.append(((DIR + '/out') if r is None else r).encode())
            elif a[:2] == 'd:':
                types.append(D), vals.append(float(a[2:]))
            elif a[:2] == 'i:':
                types.append(I if not (self.name in ('domain_setupGrid', 'flow1D_setFixedTempProfile', 'sim1D_setProfile') or self.name == 'sim1D_setTimeStep') else Z), vals.append(int(a[2:]))
            elif a[:2] == 'P:':
                b = arr(2, [float(x) for x in a[2:].split(',')])
                types.append(P), vals.append(b.ctypes.data_as(P))
            elif a[:2] == 'R:':
                n = int(a[2:])
                b = arr(n, np.linspace(0, 1, n) if n < 10 else np.r_[1000., 1.2e5, np.full(10, .1)] if n == 12 else np.full(n, 1. / n))
                types.append(P), vals.append(b.ctypes.data_as(P))
            elif a[:2] == 'N:':
                b = arr(int(a[2:]), 3, np.int32)
                types.append(C.POINTER(C.c_int)), vals.append(b.ctypes.data_as(C.POINTER(C.c_int)))
            elif a[:2] == 'O:':
                n = int(a[2:])
                b = arr(n)
                types.append(P), vals.append(b.ctypes.data_as(P))
                after.append(('out', b, n, n))
            elif a[:2] == 'A=':
                n, role = a[2:].split(':')
                n = int(n)
                L = n if r is None else r
                b = arr(max(n, L), .1 if role.startswith('in') else None)
                types += [Z, P]
                vals += [L, b.ctypes.data_as(P)]
                after.append(('in' if role.startswith('in') else 'out', b, n, L))
            elif a[:2] == 'L=':
                n, m = map(int, a[2:].split(':'))
                L = n if r is None else r
                b = arr(m)
                types += [I, P]
                vals += [L, b.ctypes.data_as(P)]
                after.append(('out', b, m, m if L == n else L))
            elif a == 'B':
                z = Z if self.name in ('thermo_getElementName', 'thermo_getSpeciesName', 'thermo_getName', 'thermo_getEosType', 'kin_getReactionType', 'kin_getType', 'func_check', 'func_type', 'func_write', 'domain_type') else I
                b = C.create_string_buffer(b'\x5a' * 30000, 30000)
                L = 20000 if r is None else r
                if isinstance(L, str):
                    # the length that is needed
                    q = C.create_string_buffer(30000)
                    f = fn(self.name, T[self.res], *types, z, S)
                    f(*vals, 20000, q)
                    L = len(q.value) + 1 + {'n-1': -1, 'n': 0, 'n+1': 1, 'n+9': 9}[L]
                types += [z, S]
                vals += [L, C.cast(b, S)]
                after.append(('text', b, None, L))
            else:
                raise ValueError(a)
        out = fn(self.name, T[self.res], *types)(*vals)
        for kind, b, n, L in after:
            if kind == 'text':
                raw = b.raw
                if raw[max(L, 0):max(L, 0) + 64] != b'\x5a' * 64:
                    problems.append(('overrun', f'writes beyond a buffer of {L}'))
                if L > 0 and b'\0' not in raw[:L] and not is_error(out, self.res):
                    problems.append(('unterminated', f'text in a buffer of {L} is not terminated'))
                problems.append(('text', L, raw[:max(L, 0)].split(b'\0')[0]))
            elif kind == 'out':
                if not (b[n:] == GUARD).all():
                    problems.append(('overrun', f'writes beyond {n} values'))
                if L < n and not (b[max(L, 0):] == GUARD).all():
                    problems.append(('overrun', f'writes beyond the given length {L}'))
                if L >= n and not is_error(out, self.res) and (b[:n] == GUARD).any():
                    problems.append(('unfilled', f'{int((b[:n] == GUARD).sum())} of {n} values not set'))
        return out, problems


def deleted_handle(kind):
    """a handle whose object has been deleted"""
    if kind in ('sol', 'th', 'ki', 'tr'):
        s = c('soln_newSolution', 'int', 'h2o2.yaml', 'ohmech', 'mixture-averaged')
        h = {'sol': s, 'th': c('soln_thermo', 'int', s), 'ki': c('soln_kinetics', 'int', s), 'tr': c('soln_transport', 'int', s)}[kind]
        c('soln_del', 'int', s)
        return h
    new = {'fu': lambda: c('func_new_basic', 'int', 'cos', 2.), 'mx': lambda: c('mix_new', 'int'), 'do': lambda: c('domain_new', 'int', 'inlet', H['sol:gas'], 'q'), 'si': lambda: c('sim1D_new', 'int', C.c_size_t(0), np.zeros(1, np.int32)),
           're': lambda: c('reactor_new', 'int', 'Reservoir', H['sol:gas'], 'q'), 'ne': lambda: c('reactornet_new', 'int'), 'co': lambda: c('connector_new', 'int', 'Valve', H['re:spare'], H['re:res'], 'q'),
           'rs': lambda: c('reactorsurface_new', 'int', 'q'), 'rd': lambda: c('rdiag_new', 'int'), 'rb': lambda: c('rbuild_new', 'int')}[kind]()
    c(DELETE[kind], 'int', new)
    return new


def one(call, label, pos, rep, expect):
    """in the child: perform the call; returns list of (key, message)"""
    out = []
    if label == 'deleted':
        rep = deleted_handle(call.args[pos].split('=')[0])
    before = digest()
    c('func_value', 'double', -77, 0.)
    marker = clib.err()
    r, problems = call.run(pos, rep)
    what = f'{call.name}({", ".join(call.args)})' + (f' with argument {pos} = {rep!r}' if pos is not None else '')
    msg = clib.err()
    for p in problems:
        if p[0] == 'text':
            L, text = p[1:]
            if label == 'buffer':
                full = [q for q in call.run(None, None)[1] if q[0] == 'text'][0][2]
                if not full:
                    continue
                if L > len(full):
                    if text != full:
                        out.append(('buffer:text', f'{what}: {text!r} instead of {full!r}'))
                    if not (r == 0 or r in (len(full), len(full) + 1)):
                        out.append(('buffer:return', f'{what}: returns {r} for text of {len(full)}'))
                else:
                    if text != full[:max(L - 1, 0)]:
                        out.append(('buffer:text', f'{what}: truncated to {text!r}, from {full!r}'))
                    if r not in (len(full), len(full) + 1):
                        out.append(('buffer:return', f'{what}: returns {r} where {len(full) + 1} is needed'))
        else:
            out.append(('buffer:' + p[0], f'{what}: {p[1]}'))
    if expect is True:
        if not is_error(r, call.res):
            out.append((f'{label}:accepted', f'{what}: returns {r}'))
        if label in ('handle', 'deleted', 'wrong kind') and msg == marker:
            out.append((f'{label}:message', f'{what}: no message'))
        after = digest()
        if after != before and not (np.isclose(after, before, rtol=1e-14, atol=0, equal_nan=True)).all():
            out.append((f'{label}:side effect', f'{what}: changes other objects: {[(i, a, b) for i, (a, b) in enumerate(zip(before, after)) if a != b][:4]}'))
    elif expect is False and is_error(r, call.res) and not any(a.endswith('!') and '=' in a for a in call.args):
        out.append((f'{label}:refused', f'{what}: returns {r}: {msg[-300:]}'))
    return out


def arguments(task, ctx):
    fixture()
    for n, line in enumerate(SPEC):
        if n % task['of'] != task['part']:
            continue
        call = Call(line)
        ctx.state(('function', call.name))
        for label, pos, rep, expect in call.variants():
            ctx.trans()
            ctx.ev()
            st, r = forked(lambda: one(call, label, pos, rep, expect))
            ctx.outcome((label, st))
            if st == 'signal':
                ctx.violation(f'args:{call.name}:{label}:crash', f'{call.name}({", ".join(call.args)}) with argument {pos} = {rep!r} ({label}): process ends with signal {r}')
            elif st != 'ok':
                ctx.violation(f'args:{call.name}:harness', f'{line}: {label} {rep!r}: {r}')
            else:
                for k, m in r:
                    ctx.violation(f'args:{call.name}:{k}', m)


# ---------------------------------------------------------------- histories
class Table:
    """one kind of handles: objects by handle, None when deleted"""
    def __init__(self):
        self.at = []

    def add(self, o):
        self.at.append(o)
        return len(self.at) - 1

    def live(self, i):
        return 0 <= i < len(self.at) and self.at[i] is not None


class Explorer:
    """depth-first over all sequences of operations; a fork at each node"""
    def __init__(self, ops, check, start, depth, first):
        self.ops, self.check, self.start, self.depth, self.first = ops, check, start, depth, first

    def explore(self):
        res = {'ev': 0, 'trans': 0, 'states': set(), 'viol': [], 'nodes': 0}
        model = self.start()
        self.node(model, [], res)
        return res

    def node(self, model, path, res):
        names = self.first if not path and self.first is not None else list(self.ops)
        for name in names:
            if not self.ops[name][0](model):
                continue
            def step():
                r = {'ev': 0, 'trans': 1, 'states': set(), 'viol': [], 'nodes': 1}
                p = path + [name]
                bad = []
                self.ops[name][1](model, lambda k, m: bad.append((k, m)))
                r['ev'] += self.check(model, lambda k, m: bad.append((k, m)))
                r['states'].add(hashlib.sha1(repr(model.key()).encode()).hexdigest()[:12])
                dead = ','.join(sorted(getattr(model, 'dead_refs', ())))
                for k, m in bad:
                    r['viol'].append((f'{k}:{dead}' if dead and dead not in k else k, f'{" > ".join(p)}: {m}'))
                if not bad and len(p) < self.depth:
                    self.node(model, p, r)
                return r
            st, r = forked(step)
            if st == 'ok':
                for k in ('ev', 'trans', 'nodes'):
                    res[k] += r[k]
                res['states'] |= r['states']
                res['viol'] += r['viol'][:20]
            elif st == 'signal':
                res['viol'].append((model.crashkey(name) if hasattr(model, 'crashkey') else f'crash:{name}', f'{" > ".join(path + [name])}: process ends with signal {r}'))
            else:
                res['viol'].append((f'harness:{name}', f'{path}: {r}'))


# ---- solutions: shared thermo objects have the same temperature, distinct ones a temperature of their own
class Solns:
    def __init__(self):
        self.sol, self.th, self.ki, self.tr = Table(), Table(), Table(), Table()
        self.n = 0

    def key(self):
        return [[None if o is None else (o['kind'], o['id'] if k == 'sol' else o['of'], o.get('parent'), o.get('model')) for o in t.at] for k, t in (('sol', self.sol), ('th', self.th), ('ki', self.ki), ('tr', self.tr))]

    def add(self, kind, obj=None, model=None):
        if obj is None:
            self.n += 1
            obj = dict(kind=kind, id=self.n, T=300. + self.n, kin=True, model=model, adj=None)
        s = self.sol.add(obj)
        self.th.add(dict(of=obj['id'], kind=kind, parent=s, T=obj['T'], o=obj))
        if obj['kin']:
            self.ki.add(dict(of=obj['id'], kind=kind, parent=s))
        if obj['model'] is not None:
            self.tr.add(dict(of=obj['id'], kind=kind, parent=s, model=obj['model']))
        return s, obj

    def child(self, table, s):
        t = getattr(self, table).at
        live = [i for i, o in enumerate(t) if o is not None and o['parent'] == s]
        return live[-1] if live else None


MODELS = {'gas': 'mixture-averaged', 'surf': None, 'plain': None, 'adj': None}
def s_new(kind):
    def f(m, bad):
        if kind == 'gas':
            r = c('soln_newSolution', 'int', 'h2o2.yaml', 'ohmech', 'mixture-averaged')
            s, o = m.add('gas', model='mixture-averaged')
        elif kind == 'plain':
            r = c('soln_newSolution', 'int', 'graphite.yaml', 'graphite', 'none')
            s, o = m.add('plain', model='none')
        else:
            r = c('soln_newInterface', 'int', 'ptcombust.yaml', 'Pt_surf', 0, np.zeros(1, np.int32))
            s, o = m.add('surf', model='none')
            m.n += 1
            o['adj'] = dict(kind='bulk', id=m.n, T=o['T'], kin=True, model=None)
        if r != s:
            bad('new:handle', f'handle {r}, expected {s}')
            return
        th = c('soln_thermo', 'int', r)
        if c('thermo_setTemperature', 'int', th, o['T']) != 0:
            bad('new:thermo', f'thermo handle {th}')
        if kind == 'surf':
            # the bulk phase the surface came with
            o['adj']['T'] = None
    return f


def s_newadj(m, bad):
    """a surface on an existing (bulk) solution"""
    g = [i for i, o in enumerate(m.sol.at) if o and o['kind'] == 'bulk']
    r = c('soln_newInterface', 'int', 'ptcombust.yaml', 'Pt_surf', 1, np.array([g[-1]], np.int32))
    s, o = m.add('surf', model='none')
    o['adj'] = m.sol.at[g[-1]]
    if r != s:
        bad('new:handle', f'handle {r}, expected {s}')
        return
    c('thermo_setTemperature', 'int', c('soln_thermo', 'int', r), o['T'])


def s_adjacent(m, bad):
    i = [i for i, o in enumerate(m.sol.at) if o and o['kind'] == 'surf'][-1]
    o = m.sol.at[i]['adj']
    r = c('soln_adjacent', 'int', i, 0)
    if o['model'] is None:
        o['model'] = 'mixture-averaged'
    s, _ = m.add('bulk', o)
    if r != s:
        bad('adjacent:handle', f'handle {r}, expected {s}: {clib.err()[-200:]}')
        return
    if o['T'] is None:
        o['T'] = 600. + o['id']
        c('thermo_setTemperature', 'int', c('soln_thermo', 'int', r), o['T'])
    for t in m.th.at:
        if t and t['of'] == o['id']:
            t['T'] = o['T']


def s_del(i):
    def f(m, bad):
        r = c('soln_del', 'int', i)
        if not m.sol.live(i):
            if not is_error(r, 'int'):
                bad('del:again', f'deleting {i} returns {r}')
            return
        if r != 0:
            bad('del:refused', f'deleting {i} returns {r}: {clib.err()[-200:]}')
        m.sol.at[i] = None
        for t in (m.th, m.ki, m.tr):
            for k, o in enumerate(t.at):
                if o and o['parent'] == i:
                    t.at[k] = None
    return f


def s_transport(good):
    def f(m, bad):
        i = [i for i, o in enumerate(m.sol.at) if o and o['kind'] in ('gas', 'bulk')][0]
        r = c('soln_setTransportModel', 'int', i, 'multicomponent' if good else 'nonsense')
        o = m.sol.at[i]
        if not good:
            if not is_error(r, 'int'):
                bad('transport:accepted', f'unknown model gives {r}')
            return
        k = m.child('tr', i)
        if k is not None:
            m.tr.at[k] = None
        o['model'] = 'multicomponent'
        k = m.tr.add(dict(of=o['id'], kind=o['kind'], parent=i, model='multicomponent'))
        # other handles of the same object keep their transport object
        if r != k:
            bad('transport:handle', f'setTransportModel gives {r}, expected {k}: {clib.err()[-200:]}')
    return f


def s_clear(m, bad):
    r = c('ct_clearStorage', 'int')
    if r != 0:
        bad('clear', f'ct_clearStorage returns {r}: {clib.err()[-300:]}')
    for t in (m.sol, m.th, m.ki, m.tr):
        t.at = [None] * len(t.at)


def s_reset(m, bad):
    r = c('ct_resetStorage', 'int')
    if r != 0:
        bad('reset', f'ct_resetStorage returns {r}')
    for t in (m.sol, m.th, m.ki, m.tr):
        t.at = []


def s_check(m, bad):
    n = 0
    if c('thermo_size', 'int') != len(m.th.at):
        bad('size', f'thermo_size {c("thermo_size", "int")}, expected {len(m.th.at)}')
    names = {'gas': 'ohmech', 'plain': 'graphite', 'surf': 'Pt_surf', 'bulk': 'gas'}
    nsp = {'gas': 10, 'plain': 1, 'surf': 11, 'bulk': 32}
    nr = {'gas': 29, 'surf': 24, 'bulk': 186, 'plain': 0}
    for i in range(-1, len(m.sol.at) + 2):
        n += 1
        b = C.create_string_buffer(80)
        c('func_value', 'double', -77, 0.)
        mark = clib.err()
        r = fn('soln_name', I, I, I, S)(i, 80, C.cast(b, S))
        if not m.sol.live(i):
            if not is_error(r, 'int') or clib.err() == mark:
                bad('soln:dead', f'solution handle {i}: name returns {r} {b.value}')
            for w in ('thermo', 'kinetics', 'transport'):
                if not is_error(c('soln_' + w, 'int', i), 'int'):
                    bad('soln:dead', f'solution handle {i}: soln_{w} returns {c("soln_" + w, "int", i)}')
            continue
        o = m.sol.at[i]
        if b.value.decode() != names[o['kind']]:
            bad('soln:name', f'solution handle {i} is {b.value}, expected {names[o["kind"]]}')
        for w, tab in (('thermo', 'th'), ('kinetics', 'ki'), ('transport', 'tr')):
            got, want = c('soln_' + w, 'int', i), m.child(tab, i)
            if w == 'kinetics' and not o['kin'] and want is None and got < 0 or got == want:
                continue
            if w == 'transport' and want is not None and m.tr.at[want]['model'] != o['model']:
                continue          # another handle changed the model of this shared object
            if want is None and got < 0:
                continue
            bad(f'soln:{w}', f'solution handle {i}: soln_{w} {got}, expected {want}')
    for i in range(-1, len(m.th.at) + 2):
        n += 1
        t, k = c('thermo_temperature', 'double', i), c('thermo_nSpecies', 'size', i)
        if not m.th.live(i):
            if not is_error(t, 'double') or not is_error(k, 'size'):
                bad('thermo:dead', f'thermo handle {i}: temperature {t}, {k} species')
            continue
        o = m.th.at[i]
        if o['T'] is not None and t != o['T'] or k != nsp[o['kind']] or c('thermo_parent', 'int', i) != o['parent']:
            bad('thermo:value', f'thermo handle {i}: temperature {t}, {k} species, parent {c("thermo_parent", "int", i)}, expected {o["T"]}, {nsp[o["kind"]]}, {o["parent"]}')
    for i in range(-1, len(m.ki.at) + 2):
        n += 1
        k = c('kin_nReactions', 'size', i)
        if not m.ki.live(i):
            if not is_error(k, 'size'):
                bad('kin:dead', f'kinetics handle {i}: {k} reactions')
            continue
        o = m.ki.at[i]
        if k != nr[o['kind']] or c('kin_parent', 'int', i) != o['parent']:
            bad('kin:value', f'kinetics handle {i}: {k} reactions, parent {c("kin_parent", "int", i)}, expected {nr[o["kind"]]}, {o["parent"]}')
        # the phases of the manager are found among the thermo handles
        np_ = 2 if o['kind'] == 'surf' else 1
        for j in range(np_):
            h = fn('kin_phase', Z, I, Z)(i, j)
            own = (o['kind'] == 'surf' and j == [q for q in range(2) if True][0])
            cand = [q for q, t in enumerate(m.th.at) if t and (t['of'] == o['of'])]
            if o['kind'] != 'surf' and h not in cand:
                bad('kin:phase', f'kinetics handle {i}: phase {j} is thermo handle {h}, expected one of {cand}')
            if o['kind'] == 'surf':
                own = [q for q, t in enumerate(m.th.at) if t and t['kind'] == 'surf' and t['of'] == o['of']]
                bulk = [q for q, t in enumerate(m.th.at) if t and t['kind'] == 'bulk']
                if h not in own and h not in bulk and not (h >= NPOS - 5 and j != 0):
                    bad('kin:phase', f'kinetics handle {i}: phase {j} is thermo handle {h}, expected one of {own + bulk}')
    for i in range(-1, len(m.tr.at) + 2):
        n += 1
        b = C.create_string_buffer(80)
        r = fn('trans_transportModel', I, I, I, S)(i, 80, C.cast(b, S))
        if not m.tr.live(i):
            if not is_error(r, 'int'):
                bad('trans:dead', f'transport handle {i}: {b.value}')
            continue
        o = m.tr.at[i]
        if b.value.decode() != o['model'] or c('trans_parent', 'int', i) != o['parent']:
            bad('trans:value', f'transport handle {i}: {b.value}, parent {c("trans_parent", "int", i)}, expected {o["model"]}, {o["parent"]}')
    return n


def has(kind, n=1):
    return lambda m: sum(1 for o in m.sol.at if o and o['kind'] in kind) >= n


S_OPS = {'new gas': (lambda m: True, s_new('gas')), 'new surf': (lambda m: True, s_new('surf')), 'new plain': (lambda m: True, s_new('plain')), 'new surf on bulk': (has(('bulk',)), s_newadj),
         'adjacent': (has(('surf',)), s_adjacent), 'transport': (has(('gas', 'bulk')), s_transport(True)), 'bad transport': (has(('gas', 'bulk')), s_transport(False)),
         'clear': (lambda m: True, s_clear), 'reset': (lambda m: True, s_reset)}
for _i in range(4):
    S_OPS[f'del {_i}'] = ((lambda m, i=_i: i <= len(m.sol.at)), s_del(_i))


# ---- functions
class Funcs:
    def __init__(self):
        self.f = Table()
        self.key_ = []

    def key(self):
        return [None if o is None else o[1] for o in self.f.at]


def f_basic(m, bad):
    n = sum(1 for o in m.f.at if o) + 1.
    _reg(m, bad, c('func_new_basic', 'int', 'sin', n), (lambda t: math.sin(n * t), lambda t: n * math.cos(n * t)), f'sin{n}')


def _reg(m, bad, r, fs, text):
    k = m.f.add((fs, text))
    if r != k:
        bad('func:handle', f'handle {r}, expected {k}: {clib.err()[-200:]}')


def f_two(op, i, j):
    def f(m, bad):
        r = c('func_new_' + op, 'int', i, j)
        if not (m.f.live(i) and m.f.live(j)):
            if not is_error(r, 'int'):
                bad('func:dead', f'{op} of {i},{j} gives {r}')
            return
        (a, da), (b, db) = m.f.at[i][0], m.f.at[j][0]
        g = {'sum': (lambda t: a(t) + b(t), lambda t: da(t) + db(t)), 'prod': (lambda t: a(t) * b(t), lambda t: da(t) * b(t) + a(t) * db(t))}[op]
        _reg(m, bad, r, g, f'({m.f.at[i][1]} {op} {m.f.at[j][1]})')
    return f


def f_one(op, i):
    def f(m, bad):
        r = c('func_' + op, 'int', i) if op != 'modified' else c('func_new_modified', 'int', 'times-constant', i, 2.)
        if not m.f.live(i):
            if not is_error(r, 'int'):
                bad('func:dead', f'{op} of {i} gives {r}')
            return
        a, da = m.f.at[i][0]
        if op == 'derivative':
            h = 1e-6
            _reg(m, bad, r, (da, lambda t: (da(t + h) - da(t - h)) / (2 * h)), f'd{m.f.at[i][1]}')
        elif op == 'duplicate':
            _reg(m, bad, r, (a, da), m.f.at[i][1])
        elif op == 'modified':
            _reg(m, bad, r, (lambda t: 2 * a(t), lambda t: 2 * da(t)), f'2{m.f.at[i][1]}')
        else:
            m.f.at[i] = None
            if r != 0:
                bad('func:del', f'deleting {i} returns {r}')
    return f


def f_clear(m, bad):
    r = c('ct_clearFunc', 'int')
    if r != 0:
        bad('func:clear', f'ct_clearFunc returns {r}: {clib.err()[-300:]}')
    m.f.at = [None] * len(m.f.at)


def f_check(m, bad):
    for i in range(-1, len(m.f.at) + 2):
        v = c('func_value', 'double', i, .3)
        if not m.f.live(i):
            if not is_error(v, 'double'):
                bad('func:dead', f'function {i} gives {v}')
        else:
            w = m.f.at[i][0][0](.3)
            if abs(v - w) > 1e-4 * (1 + abs(w)):
                bad('func:value', f'function {i} ({m.f.at[i][1]}) gives {v}, expected {w}')
    return len(m.f.at) + 3


F_OPS = {'basic': (lambda m: True, f_basic), 'clear': (lambda m: True, f_clear)}
for _i in range(3):
    for _op in ('duplicate', 'derivative', 'del', 'modified'):
        F_OPS[f'{_op} {_i}'] = ((lambda m, i=_i: i <= len(m.f.at)), f_one(_op, _i))
    for _j in range(_i, 2):
        for _op in ('sum', 'prod'):
            F_OPS[f'{_op} {_i} {_j}'] = ((lambda m, i=_i, j=_j: j <= len(m.f.at)), f_two(_op, _i, _j))


# ---- the tables of the other families: create, delete, clear, use; objects referring to each other
class World:
    """objects of several kinds with what they refer to; a family is tried with every order of creation, use and deletion"""
    def __init__(self, family):
        self.family = family
        self.t = {}
        self.dead_refs = set()
        self.used = 0

    def key(self):
        return [(k, [None if o is None else o['n'] + str(o.get('refs', '')) for o in t.at]) for k, t in sorted(self.t.items())] + sorted(self.dead_refs)

    def tab(self, k):
        return self.t.setdefault(k, Table())

    def crashkey(self, name):
        return f'crash:{self.family}:' + (','.join(sorted(self.dead_refs)) or name)


def last(m, k):
    x = [i for i, o in enumerate(m.tab(k).at) if o]
    return x[-1] if x else None


def w_new(k, make, needs=()):
    """make(handles of the needed kinds) -> handle"""
    def ok(m):
        return all(last(m, q) is not None for q in needs) and len(m.tab(k).at) < 2
    def f(m, bad):
        hs = [last(m, q) for q in needs]
        n = f'{k}{len(m.tab(k).at)}'
        r = make(m, n, *hs)
        if r == -9:
            return
        h = m.tab(k).add({'n': n, 'refs': [(q, x) for q, x in zip(needs, hs)]})
        if r != h:
            bad(f'{k}:handle', f'{k}: handle {r}, expected {h}: {clib.err()[-300:]}')
    return ok, f


def w_del(k, i):
    def ok(m):
        return i <= len(m.tab(k).at)
    def f(m, bad):
        r = c(DELETE[k], 'int', i)
        if not m.tab(k).live(i):
            if not is_error(r, 'int'):
                bad(f'{k}:del:again', f'deleting {k} {i} returns {r}')
            return
        if r != 0:
            bad(f'{k}:del', f'deleting {k} {i} returns {r}: {clib.err()[-200:]}')
        for q, t in m.t.items():
            for o in t.at:
                if o and (k, i) in o.get('refs', []):
                    m.dead_refs.add(f'{k}<{q}')
        if k == 'co':        # reactors know their connectors
            for q, j in m.tab(k).at[i]['refs']:
                if q == 're' and m.tab('re').live(j):
                    m.dead_refs.add('co<re')
        m.tab(k).at[i] = None
    return ok, f


def w_clear(fname, kinds):
    def f(m, bad):
        r = c(fname, 'int')
        if r != 0:
            bad(f'{fname}', f'{fname} returns {r}: {clib.err()[-300:]}')
        for k in kinds:
            for i, o in enumerate(m.tab(k).at):
                if o:
                    for q, t in m.t.items():
                        if q not in kinds:
                            for p in t.at:
                                if p and (k, i) in p.get('refs', []):
                                    m.dead_refs.add(f'{k}<{q}')
            m.tab(k).at = [None] * len(m.tab(k).at)
    return (lambda m: True), f


def w_link(k, q, call):
    """a call by which object k refers to q from then on"""
    def ok(m):
        return last(m, k) is not None and last(m, q) is not None
    def f(m, bad):
        i, j = last(m, k), last(m, q)
        r = call(i, j)
        if is_error(r, 'int'):
            bad(f'{k}:{q}:refused', f'returns {r}: {clib.err()[-300:]}')
        m.tab(k).at[i]['refs'].append((q, j))
    return ok, f


def w_use(k, call):
    def ok(m):
        return last(m, k) is not None
    def f(m, bad):
        call(m, last(m, k), bad)
    return ok, f


PROBE = {'sol': lambda i: _text('soln_name', i), 're': lambda i: _text('reactor_name', i), 'co': lambda i: _text('connector_name', i), 'rs': lambda i: _text('reactorsurface_name', i),
         'fu': lambda i: _num('func_value', 'double', i, 0.3), 'ne': lambda i: _num('reactornet_rtol', 'double', i), 'mx': lambda i: _num('mix_nPhases', 'size', i), 'do': lambda i: _num('domain_nComponents', 'size', i),
         'si': lambda i: _num('sim1D_setMaxJacAge', 'int', i, 5, 5), 'rd': lambda i: _num('rdiag_setScale', 'int', i, 1.), 'rb': None}


def _text(f, i):
    b = C.create_string_buffer(80)
    r = fn(f, I, I, I, S)(i, 80, C.cast(b, S))
    return None if is_error(r, 'int') else b.value.decode()


def _num(f, res, i, *a):
    r = c(f, res, i, *a)
    return None if is_error(r, res) else r


def w_check(m, bad):
    n = 0
    for k, t in m.t.items():
        if PROBE.get(k) is None:
            continue
        for i in range(-1, len(t.at) + (0 if k == 'sol' and 'su' in m.t else 2)):
            n += 1
            got = PROBE[k](i)
            if t.live(i) != (got is not None):
                bad(f'{k}:{"lost" if t.live(i) else "dead"}', f'{k} handle {i}: {got!r}; {"deleted or never issued" if not t.live(i) else "should be valid"}')
            elif t.live(i) and isinstance(got, str) and k != 'sol' and got != t.at[i]['n']:
                bad(f'{k}:name', f'{k} handle {i} is {got}, expected {t.at[i]["n"]}')
            elif t.live(i) and k == 'fu' and abs(got - math.sin(.3 * (i + 1))) > 1e-12:
                bad('fu:value', f'function {i}: {got}')
    return n


def new_gas(m, n):
    return c('soln_newSolution', 'int', 'h2o2.yaml', 'ohmech', 'mixture-averaged')


def use_net(m, i, bad):
    t = c('reactornet_time', 'double', i)
    r = c('reactornet_advance', 'int', i, t + 1e-8)
    has_reactor = any(q == 're' for q, _ in m.tab('ne').at[i]['refs'])
    for q, j in m.tab('ne').at[i]['refs']:
        o = m.tab('re').at[j] if q == 're' else None
        for q2, k in (o['refs'] if o else []):
            if q2 == 'rs' and m.tab('rs').at[k] and not any(q3 == 'su' for q3, _ in m.tab('rs').at[k]['refs']):
                has_reactor = False      # a surface without kinetics is an error
    if has_reactor != (not is_error(r, 'int')):
        bad('net:advance:' + ','.join(sorted(m.dead_refs)), f'returns {r}: {clib.err()[-300:]}')


W = {
    'reactors': {
        'new sol': w_new('sol', new_gas), 'new reactor': w_new('re', lambda m, n, s: c('reactor_new', 'int', 'IdealGasReactor', s, n), ['sol']), 'new net': w_new('ne', lambda m, n: c('reactornet_new', 'int')),
        'new func': w_new('fu', lambda m, n: c('func_new_basic', 'int', 'sin', 1. + int(n[2:]))),
        'new mfc': w_new('co', lambda m, n, r: c('connector_new', 'int', 'MassFlowController', 0 if m.tab('re').live(0) else r, r, n), ['re']),
        'add': w_link('ne', 're', lambda i, j: c('reactornet_addreactor', 'int', i, j)), 'time function': w_link('co', 'fu', lambda i, j: c('flowdev_setTimeFunction', 'int', i, j)),
        'advance': w_use('ne', use_net), 'del sol 0': w_del('sol', 0), 'del reactor 0': w_del('re', 0), 'del reactor 1': w_del('re', 1), 'del net 0': w_del('ne', 0), 'del func 0': w_del('fu', 0), 'del mfc 0': w_del('co', 0),
        'clear reactors': w_clear('ct_clearReactors', ['re', 'ne', 'co', 'rs']), 'clear funcs': w_clear('ct_clearFunc', ['fu']), 'clear storage': w_clear('ct_clearStorage', ['sol'])},
    'surfaces': {
        'new sol': w_new('sol', lambda m, n: new_gas(m, n) if not m.tab('su').at else -9), 'new reactor': w_new('re', lambda m, n, s: c('reactor_new', 'int', 'IdealGasReactor', s, n), ['sol']), 'new net': w_new('ne', lambda m, n: c('reactornet_new', 'int')),
        'new surf': w_new('su', lambda m, n: c('soln_newInterface', 'int', 'ptcombust.yaml', 'Pt_surf', 0, np.zeros(1, np.int32)) - len(m.tab('sol').at)),
        'new surface': w_new('rs', lambda m, n: c('reactorsurface_new', 'int', n)), 'kinetics': w_link('rs', 'su', lambda i, j: c('reactorsurface_setkinetics', 'int', i, c('soln_kinetics', 'int', j + 1))),
        'install': w_link('re', 'rs', lambda i, j: c('reactorsurface_install', 'int', j, i)), 'add': w_link('ne', 're', lambda i, j: c('reactornet_addreactor', 'int', i, j)),
        'advance': w_use('ne', use_net), 'del surface 0': w_del('rs', 0), 'del reactor 0': w_del('re', 0), 'del net 0': w_del('ne', 0), 'clear reactors': w_clear('ct_clearReactors', ['re', 'ne', 'co', 'rs']), 'clear storage': w_clear('ct_clearStorage', ['sol', 'su'])},
    'mixtures': {
        'new sol': w_new('sol', new_gas), 'new mix': w_new('mx', lambda m, n: c('mix_new', 'int')), 'add': (lambda m: last(m, 'mx') is not None and last(m, 'sol') is not None and not m.used, w_link('mx', 'sol', lambda i, j: c('mix_addPhase', 'int', i, c('soln_thermo', 'int', j), 1.))[1]),
        'use': w_use('mx', lambda m, i, bad: (setattr(m, 'used', 1), c('mix_init', 'int', i), c('mix_enthalpy', 'double', i), c('mix_setTemperature', 'int', i, 500.))),
        'equilibrate': w_use('mx', lambda m, i, bad: (setattr(m, 'used', 1), c('mix_equilibrate', 'double', i, 'TP', 1e-9, 1000, 100, 0))), 'del sol 0': w_del('sol', 0), 'del sol 1': w_del('sol', 1), 'del mix 0': w_del('mx', 0),
        'clear mix': w_clear('ct_clearMix', ['mx']), 'clear storage': w_clear('ct_clearStorage', ['sol'])},
    'onedim': {
        'new sol': w_new('sol', new_gas), 'new domain': w_new('do', lambda m, n, s: c('domain_new', 'int', 'free-flow', s, n), ['sol']),
        'new sim': w_new('si', lambda m, n, d: c('sim1D_new', 'int', C.c_size_t(1), np.array([d], np.int32)), ['do']),
        'use': w_use('si', lambda m, i, bad: (c('sim1D_value', 'double', i, 0, 0, 0), c('sim1D_setFlatProfile', 'int', i, 0, 0, 1.), c('sim1D_show', 'int', i))),
        'grid': w_use('do', lambda m, i, bad: c('domain_setupGrid', 'int', i, C.c_size_t(4), np.linspace(0, 1, 4))),
        'transport': w_link('do', 'sol', lambda i, j: c('flow1D_setTransport', 'int', i, c('soln_transport', 'int', j)) if i == 0 else 0),
        'del sol 0': w_del('sol', 0), 'del domain 0': w_del('do', 0), 'del domain 1': w_del('do', 1), 'del sim 0': w_del('si', 0), 'clear onedim': w_clear('ct_clearOneDim', ['do', 'si']), 'clear storage': w_clear('ct_clearStorage', ['sol'])},
    'paths': {
        'new sol': w_new('sol', new_gas), 'new diagram': w_new('rd', lambda m, n: c('rdiag_new', 'int')), 'new builder': w_new('rb', lambda m, n: c('rbuild_new', 'int')),
        'init': w_link('rb', 'sol', lambda i, j: c('rbuild_init', 'int', i, DIR + '/l', c('soln_kinetics', 'int', j))),
        'build': w_use('rb', lambda m, i, bad: c('rbuild_build', 'int', i, c('soln_kinetics', 'int', last(m, 'sol') or 0), 'H', DIR + '/d', last(m, 'rd') or 0, 1)),
        'write': w_use('rd', lambda m, i, bad: c('rdiag_write', 'int', i, 0, DIR + '/w')),
        'add': w_link('rd', 'rd', lambda i, j: c('rdiag_add', 'int', i, 0) * 0),
        'del sol 0': w_del('sol', 0), 'del diagram 0': w_del('rd', 0), 'del builder 0': w_del('rb', 0), 'clear paths': w_clear('ct_clearReactionPath', ['rd', 'rb']), 'clear storage': w_clear('ct_clearStorage', ['sol'])},
}
# (family, calls made before, further calls in quick and thorough)
NET = ['new sol', 'new reactor', 'new reactor', 'new net', 'add', 'new mfc', 'new func', 'time function']
START = [('reactors', ['new sol', 'new reactor'], 3, 4), ('reactors', NET, 3, 4), ('reactors', NET + ['advance'], 2, 4), ('surfaces', ['new sol', 'new reactor'], 3, 4),
         ('surfaces', ['new sol', 'new reactor', 'new net', 'add', 'new surf', 'new surface', 'kinetics', 'install'], 3, 4), ('surfaces', ['new sol', 'new reactor', 'new net', 'add', 'new surf', 'new surface', 'kinetics', 'install', 'advance'], 2, 4),
         ('mixtures', ['new sol'], 4, 5), ('mixtures', ['new sol', 'new sol', 'new mix', 'add'], 3, 4), ('onedim', ['new sol'], 4, 5), ('onedim', ['new sol', 'new domain', 'transport', 'grid', 'new sim'], 3, 4),
         ('paths', ['new sol'], 3, 4), ('paths', ['new sol', 'new diagram', 'new builder', 'init', 'build'], 3, 4)]
DEPTH = {'solutions': (3, 5), 'functions': (4, 5)}


def tasks(tier):
    out = [{'k': 'args', 'part': p, 'of': 16} for p in range(16)]
    d = 0 if tier == 'quick' else 1
    out += [{'k': 'solutions', 'first': [o], 'd': DEPTH['solutions'][d]} for o in S_OPS]
    out += [{'k': 'functions', 'first': [o], 'd': DEPTH['functions'][d]} for o in F_OPS]
    out += [{'k': f, 'before': p, 'first': [o], 'd': (q, t)[d]} for f, p, q, t in START for o in W[f]]
    return out


class Record:
    """a ctx whose calls are repeated in the parent"""
    def __init__(self):
        self.calls = []

    def __getattr__(self, n):
        return lambda *a, **k: self.calls.append((n, a))


def work(task):
    """in a process of its own, with freed memory overwritten"""
    ctx = Record()
    if task['k'] == 'args':
        arguments(task, ctx)
        return ctx.calls
    k = task['k']
    if k == 'solutions':
        r = Explorer(S_OPS, s_check, Solns, task['d'], task['first']).explore()
    elif k == 'functions':
        r = Explorer(F_OPS, f_check, Funcs, task['d'], task['first']).explore()
    else:
        def start():
            m = World(k)
            for o in task['before']:
                W[k][o][1](m, lambda *a: None)
            return m
        r = Explorer(W[k], w_check, start, task['d'], task['first']).explore()
    ctx.ev(r['ev'])
    ctx.trans(r['trans'])
    ctx.trace(r['nodes'])
    for s in sorted(r['states']):
        ctx.state((k, s))
    for key, msg in r['viol']:
        ctx.violation(f'hist:{k}:{key}', msg)
    return ctx.calls


def run(task, ctx):
    d = tempfile.mkdtemp(prefix='c28')
    try:
        env = dict(os.environ, MALLOC_PERTURB_='165', GLIBC_TUNABLES='glibc.malloc.tcache_count=0')
        r = subprocess.run([sys.executable, os.path.abspath(__file__), json.dumps(task), d], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
        try:
            calls = pickle.load(open(d + '/result', 'rb'))
        except Exception:
            ctx.violation(f'worker:{task["k"]}', f'{task}: worker ended with {r.returncode}: {r.stderr[-400:]}')
            return
        for n, a in calls:
            getattr(ctx, n)(*a)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    DIR = sys.argv[2]
    out = work(json.loads(sys.argv[1]))
    with open(DIR + '/result.tmp', 'wb') as f:
        pickle.dump(out, f)
    os.rename(DIR + '/result.tmp', DIR + '/result')
    os._exit(0)
