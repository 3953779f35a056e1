#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os, sys
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                          hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


p('C01', 'Thermodynamic properties are a function of the current state only',
  'For every phase model, after any sequence of successful state changes (temperature, pressure or density, composition, electric potential, property-pair setters, save/restore) interleaved in any order with property queries, every thermodynamic property reported by the phase equals what a newly created phase brought directly to the same temperature, pressure/density and composition reports. Querying a property never changes any state variable or the value of another property, and one phase object never affects another one.',
  ['histories', 'configurations'], 'every sequence of state-changing and querying operations, for every thermo model',
  'Tests set one state and read it; cached values keyed on temperature, composition number or pressure only go stale for particular orders of set and get calls.',
  ['src/thermo/Phase.cpp', 'src/thermo/ThermoPhase.cpp', 'src/thermo/IdealGasPhase.cpp', 'src/thermo/MixtureFugacityTP.cpp', 'src/thermo/VPStandardStateTP.cpp', 'src/thermo/HMWSoln.cpp', 'src/thermo/SurfPhase.cpp', 'src/thermo/LatticePhase.cpp', 'include/cantera/base/ValueCache.h'],
  [('cached polynomials / reference-state arrays revalidated by state number', 'updateThermo / updateStandardStateThermo of each model, ValueCache::validate'), ('state number bumped on composition change', 'Phase::compositionChanged')],
  ['ThermoPhase getters (h,u,s,g,cp,cv,P,density,chemical potentials, activities, partial molar and standard-state vectors)'],
  [('m_tlast / CachedValue', 'state at which cached arrays are valid', 'src/thermo/*.cpp'), ('m_stateNum', 'composition version', 'src/thermo/Phase.cpp')])
p('C02', 'Reaction rates are a function of the current state and settings only',
  'For homogeneous and interface kinetics, after any sequence of state changes of the participating phases, rate-multiplier changes, replacement of reactions by modified ones, derivative-setting changes and rate queries, all rate constants, rates of progress, production rates and reaction property changes equal those of a newly built mechanism with the same reactions and multipliers at the same state. A rate query never changes the state of a phase or later results.',
  ['histories', 'configurations'], 'every sequence of state/multiplier/reaction edits and rate queries',
  'The tests evaluate rates once after a state change; rate caches depend on T, P, composition version and flags, so stale data needs a particular history.',
  ['src/kinetics/BulkKinetics.cpp', 'src/kinetics/InterfaceKinetics.cpp', 'src/kinetics/Kinetics.cpp', 'include/cantera/kinetics/MultiRate.h', 'include/cantera/kinetics/ReactionData.h', 'src/kinetics/Falloff.cpp'],
  [('per-rate-type shared data updated only when state changed', 'ReactionData::update, MultiRate::update'), ('rates-of-progress valid flag', 'BulkKinetics::updateROP / invalidateCache')],
  ['Kinetics getters'], [('m_ROP_ok, ReactionData::temperature/pressure/stateNum', 'validity of cached rates', 'src/kinetics')])
p('C03', 'Transport properties are a function of state and have the required structure',
  'For every transport model, after any sequence of state changes and transport queries, viscosity, conductivities, diffusion coefficients, mobilities and fluxes equal those of a newly created object at the same state, and queries do not alter state. Binary diffusion coefficients are positive and symmetric, viscosities and conductivities are positive, and a trace-diluted mixture approaches the pure-species value.',
  ['histories', 'inputs'], 'every sequence of state changes and transport queries over a state lattice, every transport model',
  'Transport models keep separate validity flags for T-dependent, composition-dependent and per-property data; tests evaluate fixed states in one order.',
  ['src/transport/GasTransport.cpp', 'src/transport/MixTransport.cpp', 'src/transport/MultiTransport.cpp', 'src/transport/IonGasTransport.cpp', 'src/transport/DustyGasTransport.cpp', 'src/transport/HighPressureGasTransport.cpp', 'src/transport/WaterTransport.cpp'],
  [('validity flags cleared on temperature/composition change', 'update_T / update_C of each model')], ['Transport getters'])
p('C04', 'Setting a state by any supported pair reproduces that pair',
  'For every phase model and every advertised full or partial state representation, setting the state with values taken from a reachable state makes the phase report those same values back and the same composition, temperature and pressure/density as that state; saving a state vector, changing the state arbitrarily and restoring it reproduces every property. Setters that only fix two properties leave the composition unchanged, and setting an invalid value (negative temperature or density, negative pressure of a compressible phase) is rejected with an error.',
  ['inputs', 'configurations'], 'all models x all state pairs x all bases x a lattice of start and target states',
  'Pair setters are iterative solves from the current state; tests use a few start/target combinations per model.',
  ['src/thermo/ThermoPhase.cpp', 'src/thermo/Phase.cpp', 'src/thermo/PureFluidPhase.cpp', 'src/thermo/MixtureFugacityTP.cpp', 'interfaces/cython/cantera/thermo.pyx'],
  [('Newton iterations on T with bracketing', 'ThermoPhase::setState_HPorUV, setState_SPorSV'), ('native state vectors', 'Phase::saveState/restoreState')], ['two-letter/three-letter state properties, ThermoPhase::setState'])
p('C05', 'Thermodynamic identities hold for every model',
  'For every phase model at every state, the reported properties satisfy the thermodynamic definitions: u = h - P v, g = h - T s, mole-weighted partial molar properties add up to the mixture property, chemical potentials equal h_k - T s_k, heat capacities equal the temperature derivative of enthalpy (and of entropy times T), specific and molar values differ by the mean molecular weight, and compressibility/expansion coefficients equal the corresponding derivatives of volume. Reference-state species polynomials are continuous across temperature-range boundaries to the accuracy of their data and use the right range on either side.',
  ['inputs', 'configurations'], 'all models x lattice of temperature, pressure and composition (incl. pure and trace compositions)',
  'The consistency tests use 3-5 hand-picked states per model.',
  ['src/thermo', 'include/cantera/thermo'], [('per-model property formulas', 'src/thermo/*.cpp')], ['ThermoPhase getters'])
p('C06', 'Composition and mixture-ratio setters agree with each other and invert',
  'Setting a composition by mole or mass fractions given as text, mapping or array yields the same normalized nonnegative composition; mole fractions, mass fractions and concentrations always convert consistently and sum to one. For every fuel/oxidizer pair, basis and optional diluent or fraction, setting an equivalence ratio or mixture fraction and reading it back returns the value set, the stoichiometric air-fuel ratio is consistent with it, and the elements of fuel and oxidizer are mixed conservatively.',
  ['inputs'], 'all compositions on a lattice x all input forms x bases x fuel/oxidizer/diluent choices',
  'The tests use a few named mixtures; forms and bases interact combinatorially.',
  ['src/thermo/Phase.cpp', 'src/thermo/ThermoPhase.cpp', 'src/base/stringUtils.cpp', 'interfaces/cython/cantera/thermo.pyx'],
  [('normalization in setMoleFractions/setMassFractions/setConcentrations', 'src/thermo/Phase.cpp'), ('o2 balance formulas', 'ThermoPhase::setEquivalenceRatio, mixtureFraction')], ['X, Y, concentrations, set_equivalence_ratio, set_mixture_fraction, equivalence_ratio, mixture_fraction, stoich_air_fuel_ratio'])
p('C07', 'Editing a phase is all-or-nothing and keeps its tables consistent',
  'After any sequence of adding elements, adding or modifying species, adding aliases and locking/unlocking, the phase reports exactly the successfully added elements and species, in order, with matching names, indices, compositions, charges, molecular weights and thermo data, identical to a phase built in one go from the same species. An operation that is refused (duplicate species, unknown element, inconsistent charge, phase in use, mismatched replacement) raises an error and leaves every observable of the phase unchanged.',
  ['histories'], 'every sequence of edit operations up to a depth, including failing ones',
  'The tests perform single edits; partially applied failing edits and index tables after several edits are not compared.',
  ['src/thermo/Phase.cpp', 'src/thermo/ThermoPhase.cpp', 'src/thermo/MultiSpeciesThermo.cpp', 'src/thermo/Species.cpp'],
  [('checks before mutation in addSpecies', 'Phase::addSpecies, ThermoPhase::addSpecies'), ('species lock counter', 'Phase::addSpeciesLock')], ['species/element name and index queries, n_atoms, thermo properties'])
p('C08', 'A mechanism depends on its set of reactions, not on how it was assembled',
  'Adding the same reactions one by one in any order, in one batch, from objects, from text or from a file yields the same rates per reaction and the same production rates; an addition or replacement that is refused raises an error and leaves the mechanism and its rates unchanged. Undeclared duplicate reactions, and reactions declared as duplicates without a partner, are detected whatever the order, and unknown species or third bodies are refused or skipped exactly as configured.',
  ['histories', 'inputs'], 'every sequence of add / failing add / modify operations and every permutation of a reaction set',
  'Tests add reactions in one order and check one duplicate pair each.',
  ['src/kinetics/Kinetics.cpp', 'src/kinetics/BulkKinetics.cpp', 'src/kinetics/InterfaceKinetics.cpp', 'src/kinetics/KineticsFactory.cpp', 'src/kinetics/Reaction.cpp', 'include/cantera/kinetics/StoichManager.h'],
  [('validation before registration', 'Kinetics::addReaction'), ('duplicate search keyed by participants', 'Kinetics::checkDuplicates')], ['reaction rates, n_reactions, reaction()'])
p('C09', 'Rates conserve elements, mass and charge and vanish at equilibrium',
  'For every reaction mechanism (gas, surface, edge, any stoichiometry or order), net production rates conserve each element and charge at every state, net rates equal creation minus destruction and forward minus reverse progress multiplied by the stoichiometric coefficients, and irreversible reactions have zero reverse rate. For reversible reactions the ratio of forward to reverse rate constants is the equilibrium constant implied by the species thermodynamics, so that at chemical equilibrium every reversible reaction has zero net rate.',
  ['inputs', 'programs'], 'all reaction shapes up to 3 reactants/3 products with repeated species, third bodies and non-integer coefficients, on a lattice of states; all shipped mechanisms',
  'The tests check a few mechanisms; the specialised one/two/three-species code paths and position combinations are not all covered.',
  ['include/cantera/kinetics/StoichManager.h', 'src/kinetics/Kinetics.cpp', 'src/kinetics/BulkKinetics.cpp', 'src/kinetics/InterfaceKinetics.cpp'],
  [('specialised stoichiometry handlers C1/C2/C3/C_AnyN', 'include/cantera/kinetics/StoichManager.h'), ('equilibrium constants from standard chemical potentials', 'updateKc')], ['net/creation/destruction rates, rates of progress, equilibrium constants'])
p('C10', 'Every rate parameterization evaluates its documented formula',
  'For every rate type (Arrhenius, pressure-dependent Arrhenius, Chebyshev, falloff forms, chemically activated, third-body, linear Burke, Blowers-Masel, two-temperature plasma, interface, sticking, coverage-dependent, charge transfer), the rate coefficient and effective rate equal the documented mathematical expression at every temperature, pressure and composition, including exactly at, below and above table boundaries and with repeated tabulated pressures. The result does not depend on whether the parameters were given as objects or as input-file text.',
  ['inputs'], 'parameter lattice x state lattice for each rate type, incl. boundary states',
  'The tests evaluate one parameter set and one state per type.',
  ['src/kinetics/Arrhenius.cpp', 'src/kinetics/Falloff.cpp', 'src/kinetics/PlogRate.cpp', 'src/kinetics/ChebyshevRate.cpp', 'src/kinetics/BlowersMaselRate.cpp', 'src/kinetics/LinearBurkeRate.cpp', 'src/kinetics/TwoTempPlasmaRate.cpp', 'src/kinetics/InterfaceRate.cpp', 'include/cantera/kinetics'],
  [('evalFromStruct of each rate', 'include/cantera/kinetics/*Rate.h')], ['forward_rate_constants, rate objects called directly'])
p('C11', 'Analytical derivatives match the functions they differentiate',
  'For every reaction type and mechanism, the derivatives of rate constants, rates of progress and production rates with respect to temperature, pressure, concentration and composition agree with numerical differentiation of the corresponding rates wherever the library advertises them as exact, for every combination of the derivative settings; settings that ask for terms to be omitted drop exactly those terms. Requesting derivatives never changes the rates.',
  ['inputs', 'configurations'], 'reaction shapes x states x derivative settings',
  'The tests compare selected reactions at one state.',
  ['src/kinetics/BulkKinetics.cpp', 'src/kinetics/InterfaceKinetics.cpp', 'include/cantera/kinetics/StoichManager.h', 'include/cantera/kinetics/ThirdBodyCalc.h', 'include/cantera/kinetics/MultiRate.h'],
  [('sparse derivative assembly', 'StoichManagerN::derivatives, ThirdBodyCalc::derivatives')], ['*_ddT, *_ddP, *_ddC, *_ddX, *_ddCi'])
p('C12', 'Writing a phase or mechanism out and reading it back preserves it',
  'For every phase, species, reaction and transport model that can be written to YAML (in any output unit system, with or without user-supplied input data) or pickled, reading the output back gives an object with the same elements, species, thermodynamic, kinetic and transport properties at every state and the same state. Writing the re-read object again is stable.',
  ['inputs', 'configurations'], 'all shipped and test phase definitions x output unit systems x states; synthesized reactions',
  'The round-trip tests cover selected models and one unit system.',
  ['src/base/YamlWriter.cpp', 'src/base/AnyMap.cpp', 'src/kinetics/Reaction.cpp', 'src/thermo/ThermoPhase.cpp', 'src/thermo/Species.cpp', 'interfaces/cython/cantera/yamlwriter.pyx', 'interfaces/cython/cantera/solutionbase.pyx'],
  [('getParameters of every serializable class', 'src/thermo, src/kinetics, src/transport'), ('unit conversion on output', 'AnyMap::applyUnits, UnitSystem')], ['write_yaml, input_data, pickle, Solution(yaml=...)'])
p('C13', 'Unit conversions are exact, invertible and applied to all inputs',
  'Every well-formed unit expression converts to any dimensionally compatible one by the exact ratio of their definitions; conversions compose, invert, and refuse incompatible dimensions; explicit units in an input always override defaults, and activation-energy units convert through the gas constant. The same physical model written in any system of units yields identical thermodynamic, kinetic and transport properties.',
  ['inputs', 'configurations'], 'all unit names x prefixes x exponents up to a length; all default-unit-system combinations for a model using every dimensional input',
  'Tests convert a handful of pairs.',
  ['src/base/Units.cpp', 'src/base/AnyMap.cpp', 'include/cantera/base/Units.h', 'interfaces/cython/cantera/units.pyx'],
  [('unit parsing and dimension vectors', 'Units::Units(string)'), ('default units scoped to nested maps', 'AnyMap::applyUnits')], ['UnitSystem.convert*, Units, models loaded from YAML'])
p('C14', 'Structured data keeps its content through edits and YAML round trips',
  'A structured data map behaves as an ordered-insensitive mapping of typed values: after any sequence of assignments, overwrites, erasures, copies and lookups it equals a reference mapping, wrong-type and missing-key accesses raise an error without altering it, and copies are independent. Writing any nested combination of strings, numbers, booleans, vectors, matrices, maps and lists as YAML and reading it back yields equal content and types, with floating-point values preserved to the precision requested.',
  ['histories', 'inputs'], 'all operation sequences up to a depth; all nested value shapes up to a depth with adversarial scalars',
  'Tests use a few literal documents.',
  ['src/base/AnyMap.cpp', 'include/cantera/base/AnyMap.h', 'include/cantera/base/AnyMap.inl.h'],
  [('YAML emitter with quoting and type decoding', 'namespace YAML convert<AnyValue> in AnyMap.cpp')], ['AnyMap/AnyValue public API'])
p('C15', 'Malformed input is rejected with an error, never accepted or crashed on',
  'Removing any required field from a valid phase, species, thermo, transport or reaction entry, or replacing it by a value of the wrong type, wrong length, wrong dimension or an undefined reference, makes loading fail with a descriptive Cantera error (fields which are optional, free text or unused by the selected model excepted). Loading never crashes, and a failed load leaves the process able to load valid input with correct results.',
  ['fault_sequences', 'inputs'], 'every single-field deletion or corruption of a set of valid documents',
  'Only a few specific errors are tested.',
  ['src/base/AnyMap.cpp', 'src/thermo/ThermoFactory.cpp', 'src/thermo/SpeciesThermoFactory.cpp', 'src/kinetics/Reaction.cpp', 'src/kinetics/KineticsFactory.cpp', 'src/transport/TransportData.cpp'],
  [('checked accessors and explicit validation', 'AnyMap::at/operator[]/as/asVector, InputFileError')], ['Solution construction errors'])
p('C16', 'Functional algebra preserves values and derivatives',
  'For every expression built from the basic one-argument functions and the combination and modification operators, the (possibly simplified) result evaluates to the mathematical value of the expression at every argument, and its derivative object evaluates to the exact derivative wherever defined. Combining or differentiating functions never changes the operands.',
  ['inputs', 'programs'], 'all expression trees up to a depth over all functor types with special constants (0, 1, equal operands)',
  'Tests check a few hand-written combinations; simplification rules interact.',
  ['src/numerics/Func1.cpp', 'include/cantera/numerics/Func1.h', 'src/numerics/Func1Factory.cpp', 'interfaces/cython/cantera/func1.pyx'],
  [('simplifications in newSumFunction/newProdFunction/...', 'src/numerics/Func1.cpp')], ['Func1 evaluation, derivative, arithmetic operators'])
p('C17', 'Linear algebra and numerical kernels return correct results in any call order',
  'Banded and dense matrix operations (element access, multiply, factor, solve, resize, fill) give the same result as elementary dense arithmetic for every size, bandwidth and zero pattern and every order of operations, including reuse after modification; singular systems are reported rather than returning numbers. Interpolation, quadrature and polynomial-fit helpers satisfy their defining exactness conditions.',
  ['histories', 'inputs'], 'all small sizes x bandwidths x operation sequences',
  'Tests use one or two fixed matrices.',
  ['src/numerics/BandMatrix.cpp', 'src/numerics/DenseMatrix.cpp', 'src/numerics/funcs.cpp', 'src/numerics/polyfit.cpp', 'src/numerics/EigenSparseJacobian.cpp', 'src/numerics/AdaptivePreconditioner.cpp', 'include/cantera/base/Array.h'],
  [('factored flag', 'GeneralMatrix/BandMatrix::m_factored'), ('LAPACK band storage indexing', 'BandMatrix::index')], ['BandMatrix, DenseMatrix, Array2D, funcs.h'])
p('C18', 'Chemical equilibrium honours its constraints and is an equilibrium',
  'For every phase, constraint pair and solver, a successful equilibration holds the two constrained properties and all element and charge totals at their initial values and yields a state where chemical potentials of the species are linear combinations of element potentials (no reaction can lower the Gibbs energy); different solvers and different starting points agree. A failed equilibration raises an error and, for the automatic solver choice, leaves the phase in its original state.',
  ['inputs', 'configurations'], 'compositions lattice x temperatures x pressures x pairs x solvers',
  'Tests cover a few mixtures with loose comparisons.',
  ['src/equil/ChemEquil.cpp', 'src/equil/MultiPhaseEquil.cpp', 'src/equil/vcs_solve.cpp', 'src/equil/vcs_solve_TP.cpp', 'src/thermo/ThermoPhase.cpp', 'src/equil/BasisOptimize.cpp'],
  [('element potential Newton solver', 'ChemEquil::equilibrate'), ('state restored between solver attempts', 'ThermoPhase::equilibrate')], ['equilibrate and subsequent state'])
p('C19', 'Multiphase mixtures keep their bookkeeping under any operation sequence',
  'After any sequence of setting temperature, pressure, phase moles, species moles and compositions, of changing the constituent phases, and of queries, a mixture reports species moles, phase moles, element totals, volume, Gibbs energy and other extensive properties equal to the mole-weighted sums over its phases at the common temperature and pressure, with consistent species/phase/element indices. Multiphase equilibration conserves all element moles and charge.',
  ['histories', 'inputs'], 'every sequence of mixture operations up to a depth',
  'Tests exercise each setter once.',
  ['src/equil/MultiPhase.cpp', 'interfaces/cython/cantera/mixture.pyx', 'src/equil/vcs_MultiPhaseEquil.cpp', 'src/equil/MultiPhaseEquil.cpp'],
  [('lazy element totals and mole-fraction upload/download', 'MultiPhase::calcElemAbundances, uploadMoleFractionsFromPhases')], ['Mixture API'])
p('C20', 'Reactor networks conserve mass, elements and energy',
  'For every network of reactors, reservoirs, flow devices, valves, pressure controllers, walls and reacting surfaces, the time derivative and the integrated change of total mass, elements and energy of the network equals the net inflow through its boundaries: what leaves one reactor through a device enters the other, wall work and heat leave one side and enter the other, and chemistry and surface reactions conserve elements. The conserved quantities are the same for all reactor formulations (mass, mole, constant pressure, ideal gas).',
  ['configurations', 'inputs'], 'all small topologies x reactor types x device types x signs of driving forces',
  'Tests simulate a few fixed networks and compare to loose references.',
  ['src/zeroD/Reactor.cpp', 'src/zeroD/IdealGasReactor.cpp', 'src/zeroD/ConstPressureReactor.cpp', 'src/zeroD/IdealGasConstPressureReactor.cpp', 'src/zeroD/MoleReactor.cpp', 'src/zeroD/IdealGasMoleReactor.cpp', 'src/zeroD/ConstPressureMoleReactor.cpp', 'src/zeroD/IdealGasConstPressureMoleReactor.cpp', 'src/zeroD/FlowDevice.cpp', 'src/zeroD/flowControllers.cpp', 'src/zeroD/Wall.cpp', 'src/zeroD/ReactorSurface.cpp'],
  [('governing equations per formulation', 'Reactor::eval and overrides'), ('device mass flow / wall rates', 'updateMassFlowRate, Wall::expansionRate/heatRate')], ['ReactorNet state, reactor contents, flow rates'])
p('C21', 'Integrating a reactor network does not depend on how it is driven',
  'For any interleaving of advancing, single steps, queries, explicit reinitialization and tolerance/step-limit changes, time is nondecreasing and never passes the requested time, and the state at a given time agrees with a single uninterrupted integration within solver tolerance; reported time and reactor contents always correspond to each other. A change made to a reactor by the user takes effect after resynchronisation as if integration had been started from the new state.',
  ['histories'], 'every sequence of driver operations up to a depth',
  'Tests drive networks with one fixed call pattern.',
  ['src/zeroD/ReactorNet.cpp', 'src/numerics/CVodesIntegrator.cpp', 'src/numerics/IdasIntegrator.cpp', 'src/zeroD/ReactorBase.cpp', 'src/zeroD/Reactor.cpp', 'interfaces/cython/cantera/reactor.pyx'],
  [('initialized flags', 'ReactorNet::m_init/m_integrator_init'), ('interpolation of overshoot', 'CVodesIntegrator::integrate')], ['ReactorNet.advance/step/time, reactor.thermo'])
p('C22', 'Reactor state vectors, component names and contents stay in bijection',
  'For every reactor type, network and surface arrangement, component names and indices are inverse bijections over the state vector, the global vector is the concatenation of the reactor vectors, writing a state vector into the reactor and reading it back returns it, and each named component has the physical meaning of its name (mass, volume, temperature, species amount, coverage). Sensitivity parameters and advance limits address exactly the named component or reaction.',
  ['configurations', 'inputs'], 'all reactor types x chemistries x surfaces x component names x state lattice',
  'Tests check a few names.',
  ['src/zeroD/ReactorNet.cpp', 'src/zeroD/Reactor.cpp', 'src/zeroD/MoleReactor.cpp', 'src/zeroD/FlowReactor.cpp', 'src/zeroD/ConstPressureReactor.cpp'],
  [('componentIndex/componentName per type', 'src/zeroD/*Reactor.cpp')], ['component_index, component_name, get_state, sensitivity_parameter_name, set_advance_limit'])
p('C23', 'User extensions run exactly when declared and their errors surface',
  'For user-defined reactors and reaction rates, a method declared to run before, after or instead of a built-in step is called exactly once per built-in call, in that order, with its return value used as documented, for every overridable method and combination; methods not overridden behave as built in. An exception raised in user code at any call propagates to the caller with its message, and the object remains usable (an exception raised once within an integration may be recovered from by the integrator, which then still gives the correct result).',
  ['programs', 'fault_sequences'], 'every overridable method x mode x combination of two; an error injected at every call',
  'Tests override a few methods.',
  ['include/cantera/base/Delegator.h', 'include/cantera/zeroD/ReactorDelegator.h', 'interfaces/cython/cantera/delegator.pyx', 'src/kinetics/ReactionRateDelegator.cpp', 'src/extensions/PythonExtensionManager.cpp'],
  [('makeDelegate before/after/replace', 'include/cantera/base/Delegator.h')], ['ExtensibleReactor, ExtensibleRate'])
p('C24', 'Grid refinement resolves what it promises and never damages the grid',
  'For every grid, profile and refinement criteria, refinement returns a strictly increasing grid containing the old end points and fixed points, inserts midpoints exactly where a slope, curvature or spacing-ratio criterion is violated, never creates spacing below the minimum, removes only points all criteria allow, and interpolates the solution linearly. A grid satisfying all criteria is left unchanged.',
  ['inputs'], 'all small grids x profiles x criteria',
  'Tests only see refinement through whole flame solutions.',
  ['src/oneD/refine.cpp', 'src/oneD/Sim1D.cpp', 'include/cantera/oneD/refine.h'],
  [('keep/insert marking', 'Refiner::analyze'), ('grid rebuild and interpolation', 'Sim1D::refine')], ['grid and solution after refine'])
p('C25', 'One-dimensional simulations address, set and restore solution data exactly',
  'For every stack of domains, setting a value or profile for a component at a point changes exactly that entry and reads back the set value or its linear interpolant; grids, tolerances, bounds and options are kept per domain, and saving then restoring a simulation reproduces all of them. A solution reported as converged has a steady residual within tolerance and satisfies the boundary conditions, and a failed solve raises an error without corrupting later solves.',
  ['histories', 'configurations'], 'every sequence of set/resize/save/restore/solve operations up to a depth over small domains',
  'Tests run complete flames in one order.',
  ['src/oneD/OneDim.cpp', 'src/oneD/Sim1D.cpp', 'src/oneD/Domain1D.cpp', 'src/oneD/Flow1D.cpp', 'src/oneD/Boundary1D.cpp', 'src/oneD/MultiNewton.cpp', 'src/oneD/MultiJac.cpp', 'interfaces/cython/cantera/_onedim.pyx'],
  [('location of point data in the global vector', 'OneDim::resize, Domain1D::loc/index'), ('save/restore of arrays and metadata', 'Domain1D::asArray/fromArray')], ['Sim1D and flame Python API'])
p('C26', 'Arrays of states behave as lists of independent states',
  'After any sequence of appending, indexing, slicing, reshaping, state setting, extra-column editing and property reads, an array of states equals a reference list of states: setting one entry changes only it (and slices that share it as documented), every property vector equals the property of each single state, and invalid indices, shapes or components are rejected without modification. Changing the state of the phase object, or of another array that uses it, never changes what the array reports.',
  ['histories'], 'every sequence of array operations up to a depth',
  'Tests exercise each operation once.',
  ['src/base/SolutionArray.cpp', 'interfaces/cython/cantera/composite.py', 'interfaces/cython/cantera/solutionbase.pyx'],
  [('location index and active slice', 'SolutionArray::setLoc/updateState/m_active')], ['SolutionArray API'])
p('C27', 'Saved results are complete, restorable and never silently overwritten',
  'Saving an array of states to YAML or CSV in any supported basis and restoring it reproduces the states, extra columns and metadata; saving to an existing file keeps all other entries, refuses to replace an existing entry unless overwriting was requested, and a refused or failing save leaves the file unchanged. Restoring always reads the file as it currently is, however often it was rewritten.',
  ['histories', 'fault_sequences'], 'every sequence of save/overwrite/restore operations on a small set of names and files',
  'Tests save and restore once per format.',
  ['src/base/SolutionArray.cpp', 'src/oneD/Sim1D.cpp', 'src/base/AnyMap.cpp', 'src/base/Storage.cpp', 'interfaces/cython/cantera/composite.py'],
  [('overwrite checks', 'SolutionArray::writeEntry'), ('cached file invalidation', 'AnyMap::clearCachedFile')], ['SolutionArray.save/restore, write_csv/read_csv'])
p('C28', 'C interface handles are safe under any call sequence',
  'For every sequence of creating, using, copying and deleting objects through the C interface, a valid handle always refers to the object it was created for, a deleted or never-issued handle (including negative ones) yields the documented error value and a retrievable message, and no call crashes or affects unrelated objects. Buffer-filling functions never write beyond the length given and return the length needed.',
  ['histories', 'inputs'], 'every sequence of create/use/delete calls up to a depth; every accessor x every kind of invalid argument',
  'Tests call a few functions with valid handles.',
  ['src/clib/Cabinet.h', 'src/clib/ct.cpp', 'src/clib/ctreactor.cpp', 'src/clib/ctonedim.cpp', 'src/clib/ctfunc.cpp', 'src/clib/ctmultiphase.cpp', 'src/clib/ctrpath.cpp', 'src/clib/ctsurf.cpp', 'src/clib/clib_utils.h'],
  [('handle tables', 'Cabinet'), ('exception translation', 'handleAllExceptions')], ['clib functions'])
p('C29', 'Independent objects can be created and used concurrently',
  'For any interleaving of threads that create, use and destroy their own phases, mechanisms, transport managers, functions and reactors, each thread observes the same results as when run alone, and there is no data race or deadlock on the shared registries, caches and message buffers. Shared caches of input files always serve the current file content.',
  ['schedules'], 'all interleavings at lock operations up to a preemption bound of small multi-thread harnesses',
  'One OpenMP sample is run; races on lazily initialised globals need particular first-use interleavings.',
  ['src/base/application.cpp', 'include/cantera/base/FactoryBase.h', 'src/base/AnyMap.cpp', 'src/base/ValueCache.cpp', 'src/thermo/ThermoFactory.cpp', 'src/kinetics/KineticsFactory.cpp', 'src/transport/TransportFactory.cpp', 'src/numerics/Func1Factory.cpp', 'src/kinetics/solveSP.cpp'],
  [('singleton and cache mutexes', 'app_mutex, msg_mutex, dir_mutex, yaml_cache_mutex, per-factory mutexes')], ['results per thread, race detector'])
p('C30', 'Chemkin conversion preserves the mechanism',
  'For every Chemkin-format mechanism composed of supported constructs (reaction forms, rate modifiers, third bodies, duplicates, unit keywords, thermo and transport entries), the converted mechanism has the same elements, species and reactions, and evaluates to the rates and properties prescribed by the Chemkin definitions. Constructs that are malformed or unsupported are reported as errors rather than dropped.',
  ['inputs', 'programs'], 'all combinations from a grammar of reaction lines, auxiliary lines and unit keywords',
  'Tests convert a fixed list of files.',
  ['interfaces/cython/cantera/ck2yaml.py'], [('line-oriented parser', 'Parser.read_kinetics_entry, parse_nasa7_section, ...')], ['converted YAML loaded as a Solution'])
p('C31', 'Export to Chemkin and back preserves the mechanism',
  'For every gas mechanism expressible in Chemkin format, exporting it to Chemkin files and converting those back yields the same species, thermodynamics, transport data and reaction rates at every state, to the precision written. Mechanisms that cannot be expressed are refused with an error.',
  ['inputs', 'programs'], 'all single reactions from a grammar of exportable types; shipped gas mechanisms',
  'Tests round-trip a few mechanisms.',
  ['interfaces/cython/cantera/yaml2ck.py', 'interfaces/cython/cantera/ck2yaml.py'], [('Chemkin writer', 'yaml2ck build_* functions')], ['rates after the round trip'])
p('C32', 'Text forms of reactions and compositions parse to what they say',
  'Every reaction equation built from species names, coefficients, third bodies and arrow forms parses to exactly those participants, coefficients, reversibility and third body, and the equation printed for a reaction parses back to the same reaction; malformed equations are rejected. Composition strings in every accepted form parse to the mapping they denote and malformed or duplicate entries are rejected.',
  ['inputs'], 'all equations and composition strings from a token grammar up to a length',
  'Tests use a few strings.',
  ['src/kinetics/Reaction.cpp', 'src/base/stringUtils.cpp'], [('token parsing', 'parseReactionEquation, parseCompString')], ['Reaction, composition setters'])
p('C33', 'Reaction path diagrams account for every element flux',
  'For every mechanism, state and element, the flux diagram conserves the followed element: over all reactions whose atom transfers can be attributed (others are documented as ignored), the net flux reported into each species equals the net production of that element by the species, forward minus reverse flux equals net flux, and thresholds, flow types and species filters only select what is displayed.',
  ['inputs', 'configurations'], 'mechanisms x states x elements x display options',
  'Tests inspect one diagram.',
  ['src/kinetics/ReactionPath.cpp', 'src/kinetics/Group.cpp', 'interfaces/cython/cantera/reactionpath.pyx'], [('atom transfer accounting', 'ReactionPathBuilder::build')], ['ReactionPathDiagram.get_data/get_dot'])
p('C34', 'Pure-fluid saturation and two-phase states are consistent',
  'For every pure substance and temperature between the triple and critical points, saturation pressure and temperature are inverse functions, both phases have equal pressure, temperature and Gibbs energy at saturation, two-phase mixture properties are quality-weighted averages, and the reported phase and vapor fraction agree with the state however it was set. States outside the valid range are refused or flagged.',
  ['inputs', 'histories'], 'all fluids x lattice of T, P, vapor fraction x setting pair',
  'Tests use a few states of each fluid.',
  ['src/tpx/Sub.cpp', 'src/tpx', 'src/thermo/PureFluidPhase.cpp'], [('saturation solver and root finding', 'Substance::Psat, Tsat, Set')], ['PureFluid API'])
p('C35', 'Surface states keep site balance and pseudo-steady coverages are steady',
  'Coverages set in any form are normalized over the sites each species occupies, site density and species sizes are respected in concentrations, and surface reactions conserve sites. Advancing coverages in time or solving for steady coverages keeps the coverages normalized and nonnegative, does not change the composition of the adjacent bulk phases (nor their temperature and pressure, except that the steady solution is evaluated at, and leaves them at, the common temperature and pressure of the surface), depends only on the initial state given, and the steady solution has vanishing net surface production rates.',
  ['inputs', 'histories'], 'coverage lattice x temperatures x mechanisms x operation sequences',
  'Tests check a couple of coverage values.',
  ['src/thermo/SurfPhase.cpp', 'src/kinetics/ImplicitSurfChem.cpp', 'src/kinetics/solveSP.cpp', 'src/kinetics/InterfaceKinetics.cpp'],
  [('damped Newton surface solver', 'src/kinetics/solveSP.cpp'), ('coverage integration', 'src/kinetics/ImplicitSurfChem.cpp')], ['coverages, advance_coverages, advance_coverages_to_steady_state'],
  [('damp_old', 'damping memory shared between solver objects', 'src/kinetics/solveSP.cpp')])
p('C36', 'Shared model objects stay consistent through replacement and deletion',
  'For any order of creating, connecting, replacing (transport model, kinetics, reactor contents) and releasing phases, interfaces, reactors, devices, arrays and simulations, every remaining object keeps working with the components it was given and none refers to a destroyed one. While any such object uses a phase, adding species to that phase is refused, and it becomes possible again exactly when the last user is gone.',
  ['histories'], 'every order of creation and release of small object graphs',
  'Tests release objects only at interpreter exit.',
  ['src/base/Solution.cpp', 'src/base/Interface.cpp', 'src/thermo/Phase.cpp', 'src/zeroD/ReactorBase.cpp', 'src/zeroD/ConnectorNode.cpp', 'interfaces/cython/cantera/solutionbase.pyx', 'interfaces/cython/cantera/reactor.pyx'],
  [('species lock counting', 'Phase::addSpeciesLock/removeSpeciesLock'), ('change callbacks', 'Solution::registerChangedCallback')], ['object API after deletion of others'])
p('C37', 'Quantities mix conservatively',
  'Creating, scaling, adding and equilibrating quantities of phases conserves mass, moles of elements and the pair of properties declared constant; the operands of an addition are unchanged and do not share state with the result or with the underlying phase. Setting any state or amount in mass or molar terms keeps amount and composition consistent.',
  ['histories', 'inputs'], 'every sequence of quantity operations up to a depth over a small set of quantities',
  'Tests mix a few streams.',
  ['interfaces/cython/cantera/composite.py'], [('state copies per quantity', 'Quantity class')], ['Quantity API'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P))
