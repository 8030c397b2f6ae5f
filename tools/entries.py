"""The properties and how each is decided; tools/manifest.py writes properties.jsonl and MANIFEST.json from this."""

ENTRIES = [
 dict(
  id='P01', title='Recorded histories are exact tables',
  statement='A run history (of the Universe, a species or a momentum-space quantity) always equals the sequence of rows that were '
            'appended and not dropped, in order and bit for bit, whatever mix of appends, drops, reads and internal enlargements led '
            'there. Length, indexing from either end, slices, columns and iteration all read that same sequence, and the text export '
            'writes it with each column divided by its unit. Two histories never share rows, and a row of the wrong width is refused.',
  over=['histories', 'inputs'],
  for_all='every sequence of append / drop-last / read / export operations, every length (across every internal enlargement), every float including nan, inf and -0.0',
  why='No test touches the containers; an off-by-one after a particular mix of drops and enlargements only shows after hundreds of operations.',
  files=['common/utils.py'],
  mechanism=[('row storage with geometric growth', 'common/utils.py: Dynamic2DArray, DynamicRecArray')],
  observe=['len(), [], slices, columns, savetxt text'],
  technique='explicit-state exploration of all bounded operation sequences on the real containers, compared with a list model after every step',
  note='Exhaustive over all operation words up to the depth in the evidence, plus all periodic words run past many enlargements; trusts numpy.'),
 dict(
  id='P02', title='The expansion clock follows the Friedmann equation',
  statement='At every step the Hubble rate follows from the total energy density through the Friedmann equation, the scale factor from '
            'the independent variable, and the plasma temperature from the comoving temperature and the scale factor. Time advances by '
            'the relative expansion since the previous state, (a - a_old) / a, divided by the Hubble rate, the initial time is that of radiation domination at the initial temperature, and '
            'N_eff and the step size are those of the chosen linear or logarithmic mode. The state never depends on how often it was copied or read.',
  over=['histories', 'inputs', 'configurations'],
  for_all='every history of densities, comoving temperatures and steps, linear and logarithmic stepping, every starting temperature',
  why='The tests never evolve the parameter object; the clock is an accumulation over the whole history.',
  files=['common/__init__.py'],
  mechanism=[('update of t, a, T, H, N_eff from rho, x, aT', 'common/__init__.py: Params.update, Params.init_time')],
  observe=['the attributes of the parameter object after every step'],
  technique='exhaustive enumeration of bounded density/temperature/step histories on the real parameter object against a straight-line reference',
  note='All histories up to the depth in the evidence over an alphabet of densities, temperature drifts and steps; tolerance 1e-11; long periodic runs.'),
 dict(
  id='P03', title='Momentum grids and the reading of sampled distributions',
  statement='Every grid runs from its minimum to its maximum momentum in strictly increasing steps, with the declared number of samples and spacing. '
            'The distribution read at any momentum reproduces the samples at the nodes, is thermal-like (linear in energy in the logarithm of 1/f-η) between '
            'neighbouring nodes, falls exponentially beyond the last node and is thermal for a species in equilibrium. The interpreted and '
            'both compiled readers agree, and no physical sample set yields NaN, a negative or (for fermions) a value above one.',
  over=['inputs', 'configurations'],
  for_all='every grid, every physical assignment of samples (zeros, infinities at p = 0, near-degenerate), every momentum class, mass, statistics and temperature',
  why='The only test on the subject checks kinematic bounds; degenerate sample patterns and node-exact momenta are never tried.',
  files=['common/__init__.py', 'common/utils.py', 'interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp', 'particles/__init__.py'],
  mechanism=[('grids', 'common/__init__.py: LinearSpacedGrid, LogSpacedGrid, HeuristicGrid'), ('readers', 'particles.distribution, C++ distribution_interpolation and binary_find')],
  observe=['grid templates, distribution() and the compiled readers'],
  technique='exhaustive enumeration of all grids x sample assignments x query classes over alphabets, on the Python and C++ readers, against the definition',
  note='Alphabets of nodes, samples, masses and temperatures as in the evidence; tolerance 1e-8 on interpolated values.'),
 dict(
  id='P04', title='Time steppers integrate what their order promises',
  statement='The multistep (Adams-Bashforth, Adams-Moulton) steppers advance a quantity by the exact integral of the polynomial through the derivative history they '
            'use, at every order and for every history length, using the most recent entries and never more than exist; the one-step ones (Euler, Heun, backward Euler) use '
            'the rate at the ends of the step. The implicit steps solve their linear equation exactly, with no earlier derivatives they are the backward Euler step, and a zero step leaves the quantity unchanged.',
  over=['histories', 'inputs'],
  for_all='every history length from empty to longer than the highest order, every derivative value, step and stiffness, scalars and arrays',
  why='No test calls the steppers with more than one history length.',
  files=['common/integrators/__init__.py'],
  mechanism=[('tabulated multistep weights', 'common/integrators/__init__.py: adams_bashforth_correction, adams_moulton_solver, euler_correction')],
  observe=['the increment returned'],
  technique='exhaustive enumeration of derivative histories over an alphabet against weights derived by exact rational interpolation',
  note='Linear in the history, so alphabets plus all monomials decide each order; tolerance 1e-12.'),
 dict(
  id='P05', title='Quadrature is exact on the polynomials of its order',
  statement='For every configured order the one- and two-dimensional rules integrate every polynomial up to the degree of the rule exactly over every finite interval or region '
            '(either orientation, empty included), and the half-line rule does the same for exponentially weighted polynomials. '
            'The paired rules return both integrals as the single rules would, and every rule is linear in the integrand.',
  over=['inputs', 'configurations'],
  for_all='every order, monomial, interval (orientation, empty, tiny, huge), variable-bound region, fixed or adaptive setting',
  why='Tests do not call the integrators; the rules are only correct if nodes, weights and change of variables agree for every order and interval.',
  files=['common/integrators/__init__.py', 'common/integrators/gauss_legendre.py', 'common/integrators/gauss_laguerre.py', 'common/integrators/paired.py'],
  mechanism=[('change of variables and weights', 'common/integrators')],
  observe=['integrate_1D, integrate_2D, paired and half-line rules'],
  technique='exhaustive enumeration of the monomial basis x orders x intervals against closed forms (linearity closes the polynomial space)',
  note='Monomials up to degree 2n-1 (capped as in the evidence); tolerance 1e-9.'),
 dict(
  id='P06', title='Settings are read from the environment, typed, at use time',
  statement='Every documented setting has its documented default when the variable is absent; a switch is off when set to the empty string and on for any other text; '
            'a number has the type of its default and unreadable numbers are refused. A change takes effect at the next read, no setting affects another, and '
            'unknown names yield their raw text or nothing.',
  over=['configurations', 'histories'],
  for_all='every setting, value class, pair of settings and set/unset history',
  why='Tests set no environment variable.',
  files=['environment.py'],
  mechanism=[('typed lookup with defaults', 'environment.py: get')],
  observe=['environment.get and the settings visible to the rest of the code'],
  technique='exhaustive enumeration of settings x value classes x pairs x set/unset histories against a table model',
  note='All settings of the table of defaults; behaviour of consumers under the settings is covered by the checks of those parts.'),
 dict(
  id='P07', title='A species decouples once and never re-equilibrates',
  statement='A species follows the plasma temperature while the temperature is above its decoupling temperature; at the first step at or below it, it leaves equilibrium for good, '
            'its occupation numbers freeze to the thermal ones of that moment, the time is recorded and its own comoving temperature stays constant. '
            'Its regime is radiation, intermediate, dust or non-equilibrium according to equilibrium and the mass-temperature ratio alone. '
            'Every update appends exactly one row of its densities to its history and clears the collision term.',
  over=['histories', 'inputs', 'configurations'],
  for_all='every history of expansion and heating, every mass, statistics, decoupling temperature, thermal or produced out of equilibrium, charged or neutral',
  why='Decoupling is a history property: the tests never step a species.',
  files=['particles/__init__.py'],
  mechanism=[('equilibrium flag and decoupling bookkeeping', 'particles/__init__.py: AbstractParticle.update, in_equilibrium, regime, init_distribution')],
  observe=['in_equilibrium, regime, T, aT, t_decoupling, distribution, history rows'],
  technique='explicit-state exploration of the real species object under all bounded plasma histories against a reference automaton',
  note='All histories to the depth in the evidence over expansion/heating symbols that hit the decoupling boundary exactly.'),
 dict(
  id='P08', title='Thermodynamics of a species equals the integral of its occupation numbers',
  statement='Number density, energy density, pressure and entropy of every species, in every regime, equal the integrals of its occupation numbers (to the accuracy of the regime), '
            'are continuous across regime changes and scale with its degrees of freedom. Decoupled species use their sampled occupation numbers at the current scale factor. '
            'The contribution of the species to the temperature equation is the derivative of its comoving energy at fixed entropy transfer, so that a plasma without sources conserves comoving entropy.',
  over=['inputs', 'configurations', 'histories'],
  for_all='every mass/temperature ratio, statistics, comoving normalisation, regime switching factor, and every sampled distribution of the alphabet',
  why='Tests check no thermodynamic value; regime boundaries and normalisations multiply the cases.',
  files=['particles/RadiationParticle.py', 'particles/IntermediateParticle.py', 'particles/DustParticle.py', 'particles/NonEqParticle.py', 'particles/__init__.py'],
  mechanism=[('per-regime formulas', 'particles/*.py')],
  observe=['density, energy_density, pressure, entropy, numerator, denominator'],
  technique='exhaustive enumeration over regimes, statistics, mass ratios, normalisations and sampled distributions against direct quadrature',
  note='Tolerances 1e-4 (thermal) and those of the regime approximations, listed in the evidence.'),
 dict(
  id='P09', title='A declared process yields each of its crossings exactly once',
  statement='From one declared process the collision integrals generated are exactly its kinematically possible crossings with a (non-anti)particle as the followed species: every such species '
            'on every side is followed once per distinct reaction, and no impossible decay appears. Coinciding reactions are merged into one integral whose squared matrix element is the sum over them '
            '(mass terms change sign when exactly one of their two particles is crossed). The declared kind and washout temperature reach every integral, and meaningless momentum orders or kinds are refused.',
  over=['inputs', 'configurations'],
  for_all='every assignment of species, antiparticle flags and matrix elements to 2-2, 1-3, 3-1, 1-2 and 2-1 processes, every order of explicitly listed integrals',
  why='Tests build no interaction; duplicates only coincide for particular repetitions of species and flags.',
  files=['interactions/__init__.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py'],
  mechanism=[('crossing generation', 'interactions/__init__.py: CrossGeneratingInteraction'), ('merging', 'interactions/__init__.py: IntegralDeduplicator')],
  observe=['integrals of an interaction: particle, reaction, matrix elements, kind'],
  technique='exhaustive enumeration of declared processes over a species alphabet against an independent enumeration of crossings and polynomial comparison of matrix elements',
  note='Matrix elements compared after symmetrisation over identical species on one side; constant four-particle elements keep their declared value.'),
 dict(
  id='P10', title='The process library is physical and complete',
  statement='Every reaction the library of processes builds conserves electric charge and the lepton numbers it must, its squared matrix elements are the published weak-interaction ones for every selection of '
            'species, and mixing with a sterile neutrino enters as the squared angle of the flavour involved and not at all for a zero angle. Each decay of every meson or sterile neutrino involved appears exactly once, '
            'with the literature width (branching ratio over lifetime for mesons). Masses, charges, spins, statistics and lifetimes are the published ones.',
  over=['inputs', 'configurations'],
  for_all='every subset of species offered to the library, every pattern of mixing angles, sterile mass and kind of collision term',
  why='No test builds the library; a wrong sign, a doubled channel or a swapped flavour only shows for some selections of species.',
  files=['library/SM.py', 'library/NuMSM.py'],
  mechanism=[('process tables', 'library/SM.py, library/NuMSM.py'), ('species tables', 'library/SM.py, library/NuMSM.py')],
  observe=['reactions, matrix elements and kinds of the interactions returned, species constants'],
  technique='exhaustive enumeration of all selections of species and mixing patterns, each reaction set compared with an independent table of processes and with widths from exact phase space',
  note='Widths of meson decays to 3.5 %, constants to their printed accuracy; conjugate products follow the convention of the code.'),
 dict(
  id='P11', title='Angular kernels equal their defining integrals',
  statement='For all momenta the elementary kernels of four-particle reactions equal the oscillatory integrals that define them, scale with the unit of momentum and vanish where momentum cannot be conserved. '
            'Combined with energies, masses and sides they give the angular average of the matrix element for every momentum order, and for a particle at rest the limit of slow ones.',
  over=['inputs'],
  for_all='all quadruples of non-negative momenta including coinciding and boundary values, all momentum orders, sides and masses',
  why='The compiled kernels are never called by the tests; each is a case analysis over signs of momentum sums.',
  files=['interactions/four_particle/cpp/Ds.cpp'],
  mechanism=[('piecewise polynomials', 'interactions/four_particle/cpp/Ds.cpp: D1, D2, D3, Db1, Db2, D, Db')],
  observe=['values of the compiled kernels'],
  technique='exhaustive enumeration of a momentum lattice, chamber walls, orders, sides and masses on the compiled kernels against exact integer evaluation of the defining integrals',
  note='The C++ is compiled unmodified against header stand-ins; tolerance 1e-12 of the momentum scale.'),
 dict(
  id='P12', title='Collision integrals are the Boltzmann collision terms of their reactions',
  statement='For every reaction, kind of collision term, cosmological state and stepping mode, a collision integral returns at every momentum the phase-space integral of the squared matrix element times the statistical '
            'factor of that kind (gain, loss, creation, decay, vacuum decay or full), per spin state and per unit of the step variable, and the full kind also returns its coefficient of the followed distribution. '
            'Thermal distributions of one temperature are stationary, a decay creates as many of each product as it destroys mothers, and evaluation changes no distribution and is repeatable.',
  over=['inputs', 'configurations'],
  for_all='every pattern of masses, statistics, spin states and equilibrium of two to four-body reactions, matrix element, kind and momentum',
  why='Tests check integration bounds only; no collision integral is ever evaluated, and errors hide in particular mass patterns, kinds or momenta.',
  files=['interactions/four_particle/__init__.py', 'interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/__init__.py', 'interactions/three_particle/cpp/integral.cpp'],
  mechanism=[('four-particle integral', 'interactions/four_particle: FourParticleIntegral.integrate, cpp/integral.cpp integration'), ('three-particle integral', 'interactions/three_particle: ThreeParticleIntegral.integrate, cpp/integral.cpp integration_3')],
  observe=['values returned by the integrals of an interaction'],
  technique='exhaustive enumeration of a bounded alphabet of reactions, kinds and states on the real integrals, each replayed against an independent direct evaluation of the collision term',
  note='3 % (four-particle) and 1 % (three-particle) agreement; quadrature library replaced by a stand-in with the same contract.'),
 dict(
  id='P13', title='Collision integrals do not depend on threads or their scheduling',
  statement='For every number of threads and every interleaving of them, the parallel evaluation of a collision integral over a list of momenta gives bit for bit the values of a serial evaluation. '
            'The value at a momentum depends on that momentum alone, not on the other momenta evaluated with it or on their order, and all working memory is released.',
  over=['schedules', 'inputs'],
  for_all='all thread counts and interleavings, all lists and orders of momenta, for three- and four-particle reactions',
  why='A race needs one particular interleaving of threads; the tests never run the compiled code at all.',
  files=['interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp'],
  mechanism=[('parallel loops', 'interactions/four_particle/cpp/integral.cpp: integration; interactions/three_particle/cpp/integral.cpp: integration_3')],
  observe=['values returned by the compiled integration under a controlled OpenMP runtime', 'live integration workspaces'],
  technique='stateless model checking of the compiled code: preemption-bounded depth-first enumeration of all thread interleavings under a controlled OpenMP scheduler',
  note='Scheduling points are work distribution, allocation, quadrature calls and integrand evaluations; sequential consistency between them.'),
 dict(
  id='P14', title='Shortcuts of collision integrals drop nothing they should keep',
  statement='A collision integral is evaluated at exactly the grid momenta kinematically reachable for a decay product, below the configured limit for scattering, and all of them for decays; on fine grids at points as dense as '
            'configured, with linear interpolation between them, and it is zero elsewhere. A species has collisions exactly out of equilibrium and below its decoupling temperature, and a reaction is skipped exactly when its mother has decayed or was never created, both sides of a scattering are diluted away, or the sterile '
            'neutrino has decoupled (scattering) or is lighter than the temperature (decay). Identical followed particles are counted as often as consumed, and products of a short-lived species number its branching ratio times the mothers created.',
  over=['inputs', 'configurations'],
  for_all='every pattern of masses, grids, momentum limits, resolutions, state of the species involved and assignment of species to the slots of a reaction',
  why='The existing tests look at the integration bounds of two reactions; cut-offs, skip conditions and multiplicities interact in combinations no test visits.',
  files=['common/kinematics.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py'],
  mechanism=[('momentum cut-offs and interpolation', 'common/kinematics.py: grid_cutoff_4p, grid_cutoff_3p, interpolation_4p'), ('skip conditions', 'common/kinematics.py: Neglect3pInteraction, Neglect4pInteraction'),
             ('multiplicity and branching', 'common/kinematics.py: CollisionMultiplier3p, CollisionMultiplier4p, scaling')],
  observe=['momenta passed to the compiled integration', 'values returned by the integrals'],
  technique='exhaustive enumeration of configurations and condition combinations on the real integrals with the compiled integration replaced by a recorder, against independent kinematics',
  note='Evenly spaced grids; the sterile neutrino is recognised by name as in the code; multiplicities apply to reactions with the sterile neutrino and to decay products, except charged products of self-conjugate mothers.'),
 dict(
  id='P15', title='The kinetic step solves the implicit equation of all reactions',
  statement='In each step a decoupled species changes by the step size times the solution of the implicit Adams-Moulton equation whose source is the sum of the collision terms of all its reactions, whose coefficient is the sum of their '
            'coefficients of its occupation numbers, and whose history is that of its recorded collision terms; without reactions it does not change. Occupation numbers never become negative, invalid values of the term count as '
            'zero, every step is recorded once and starts without collision terms. Species in equilibrium are not stepped, and a massive species whose density has fallen below the threshold relative to its initial one is gone for good.',
  over=['histories', 'inputs'],
  for_all='every sequence of collision terms of every kind, every statistics and distribution, stiff and soft steps',
  why='The result depends on the history of steps and on combinations of reaction kinds; no test makes a kinetic step.',
  files=['particles/__init__.py', 'common/kinematics.py', 'common/integrators/__init__.py'],
  mechanism=[('collision step', 'particles/__init__.py: calculate_collision_integral, update_distribution'), ('decay of a species', 'common/kinematics.py: has_decayed')],
  observe=['occupation numbers and recorded collision terms after each step'],
  technique='exhaustive enumeration of sequences of collision terms up to a depth on the real species, each step compared with an independently derived implicit Adams-Moulton solution',
  note='Collision terms are prescribed by stub integrals; constant step size within a history.'),
 dict(
  id='P16', title='Oscillations redistribute collision terms without loss',
  statement='At every state of the Universe the oscillation probabilities are those of time-averaged three-flavour mixing with the vacuum angles or, with matter effects, '
            'with the angles in the thermal plasma of the present temperature, scale factor and momentum and the sign of the chosen mass hierarchy; they are symmetric and '
            'those of each flavour add up to one. Once any of the oscillating species has decoupled, each of them is evolved with the collision terms of all weighted by these '
            'probabilities, so that no neutrinos are created or destroyed at any momentum, in whichever order the species are listed. Before that, and for every other species, collision terms are left as they are.',
  over=['inputs', 'histories', 'configurations'],
  for_all='every temperature, scale factor, momentum and hierarchy, every pattern of decoupled species, every history of collision terms',
  why='The only unit test adds up one row of the vacuum map; mixing through an evolving Universe, matter effects and partial decoupling are untested.',
  files=['evolution.py', 'library/SM.py'],
  mechanism=[('mixing probabilities', 'library/SM.py: leptons.oscillations_map'), ('matter strength and mixing', 'evolution.py: Universe.oscillation_parameters, update_distributions')],
  observe=['the probability map', 'recorded collision terms and distributions after every step'],
  technique='exhaustive enumeration of matter strengths on the real map against averaged mixing from the mixing matrix, and of all bounded histories of collision terms and decoupling patterns through real Universe steps',
  note='Collision terms are scripted; angles in matter modulo the quadrant; alphabets and depths as in the evidence.'),
 dict(
  id='P17', title='The Universe evolves all species together and conserves energy',
  statement='The recorded history of a Universe is the one obtained by advancing, in every step, all species to the same instant, finding all collision terms before any '
            'distribution changes, and advancing the comoving temperature with the Adams-Bashforth (or Euler) formula over the derivatives of the steps made so far, which take from the plasma '
            'exactly the energy given to decoupled species; comoving entropy stays constant without collisions. It ends with the first state at or below the final temperature, is the same '
            'when the run is continued in several pieces, and a run that loses its temperature is not reported as finished. Universes of one process do not influence each other, '
            'and the step monitor sees the state at the beginning of every step exactly once.',
  over=['histories', 'schedules', 'configurations', 'inputs'],
  for_all='every set of species and couplings, every plan of final temperatures, linear and logarithmic steps, both temperature schemes, every interleaving of the steps of two Universes',
  why='The evolution scripts under tests/ are hours-long runs judged by eye; the stable tests never run a single step.',
  files=['evolution.py', 'particles/NonEqParticle.py', 'common/__init__.py', 'common/kinematics.py'],
  mechanism=[('main loop', 'evolution.py: Universe.evolve, make_step, integrand'), ('exchange of energy', 'particles/*: numerator, denominator')],
  observe=['rows of the recorded history', 'distributions and densities of the species', 'calls of the step monitor', 'exit status'],
  technique='exhaustive enumeration of bounded scenarios run through the real loop against a straight-line reference, and of all interleavings of the steps of two real Universes against solo runs',
  note='Species twins are used in the reference; sets, plans, steps and interleavings as in the evidence.'),
 dict(
  id='P18', title='Files of a run hold its true history at any moment',
  statement='A new Universe empties exactly its own output folder (however it is written), touches nothing outside of it and, without a folder, writes no files at all. The tables hold the complete history '
            'in the announced units at every multiple of the export interval and at the end, the log all that was printed, and the nuclear code is started once, at the end, '
            'on the complete rate table. Should the process die, be interrupted or fail to write at any point, every table and log on disk still is a beginning of the true one, and the run is not reported as finished.',
  over=['crashes', 'histories', 'configurations'],
  for_all='every number of steps, export interval and prior folder content; death, interruption or write failure at every file operation, with buffers lost, kept or torn',
  why='No test runs a Universe with a folder, let alone kills it.',
  files=['evolution.py', 'common/utils.py', 'kawano.py'],
  mechanism=[('exports', 'evolution.py: Universe.__init__, evolve, export, save'), ('log', 'common/utils.py: Logger'), ('nuclear code', 'kawano.py: run')],
  observe=['files in and around the output folder', 'exit status', 'terminal output'],
  technique='exhaustive fault injection: real runs in child processes, one for every plan and for every (file operation, kind of fault)',
  note='Every crash point of the plans in the evidence; children work as an unprivileged user in scratch folders; the nuclear program is a stand-in.'),
 dict(
  id='P19', title='Nuclear rates are those of the true neutrino and electron distributions',
  statement='For any temperatures, scale factor and neutrino distribution the six proton-neutron conversion rates equal the phase-space integrals over the actual electron and neutrino distributions: '
            'reaction and reverse are in detailed balance in equilibrium, the normalisation of the scale factor drops out, and a free neutron decays at unit rate. '
            'A Universe keeps one row (time, scale factor, temperature and its time derivative, density, expansion rate, rates) per state from 10 MeV downwards, '
            'computed from its own species whatever other Universes do in the same process.',
  over=['inputs', 'histories', 'schedules'],
  for_all='temperatures from 8 keV to 10 MeV, neutrino temperatures, scale factors, sampled distributions, starting points, time variables and interleavings of two Universes',
  why='No test evaluates a single rate; the normalisation of the scale factor only matters for Universes that do not start at a = 1/T.',
  files=['kawano.py', 'evolution.py'],
  mechanism=[('rates', 'kawano.py: _rate1 ... _rate6, baryonic_rates'), ('table', 'evolution.py: Universe.init_kawano, save')],
  observe=['the six rates', 'rows of the rate table'],
  technique='exhaustive enumeration of a grid of plasma states, of all samples of a small alphabet and of all interleavings of two Universes on the real code, against independently integrated rates',
  note='Grids and alphabets in the evidence; sampled distributions are compared within the accuracy of the fixed quadrature.'),
 dict(
  id='P20', title='The QCD transition conserves entropy and swaps exactly the right species',
  statement='At any point of any run the QCD transition replaces all quarks and gluons by the given hadrons and the given quark interactions by the hadronic ones, touching no other species or interaction '
            'and keeping species ordered, the heaviest first. Scale factor and time do not change, the cubed conformal temperature changes inversely to the relativistic degrees of freedom in equilibrium '
            '(7/8 for fermions), and density and expansion rate become those of the new plasma. The new state replaces the last one of the history, which then continues '
            'as the evolution of the new set of species; filters of particles and interactions remove exactly what is named.',
  over=['histories', 'configurations', 'inputs'],
  for_all='sets of quarks, hadrons and other species, moments of the transition, time variables, numbers of steps before and after, interaction lists',
  why='No test makes a transition.',
  files=['evolution.py', 'common/__init__.py', 'common/utils.py'],
  mechanism=[('transition', 'evolution.py: Universe.QCD_transition'), ('degrees of freedom', 'common/__init__.py: Params.entropic_dof_eq'), ('filters', 'common/utils.py: particle_filter, interaction_filter, particle_orderer')],
  observe=['species, interactions, parameters and history of the Universe'],
  technique='exhaustive enumeration of species sets, transition moments and interaction lists on real Universes, in lockstep with a written-out reference',
  note='Alphabets of species, steps and lists in the evidence.'),
 dict(
  id='P21', title='Semi-analytic BBN estimates mark decoupling and deuterium exactly once',
  statement='For any sequence of states shown to the monitor, neutron decoupling is the first state at which the latest row of the rate table has reactions that destroy neutrons more than ten times faster, '
            'or more than ten times slower, than those that produce them; deuterium generation is the first state at or below 65 keV. '
            'Both are remembered as they were, whatever the Universe (or another one) does later, and the time of decay, neutron-to-proton ratio and helium fraction follow from them once, as soon as both are known, '
            'in whichever order they came.',
  over=['histories', 'schedules'],
  for_all='sequences of states with any rates and temperatures, rows present or missing; interleavings of two Universes',
  why='No test calls the monitor; its outcome depends on the whole history.',
  files=['semianalytic.py', 'kawano.py', 'evolution.py'],
  mechanism=[('monitor', 'semianalytic.py: step_monitor'), ('rate table', 'common/utils.py: DynamicRecArray')],
  observe=['the remembered states and the estimates'],
  technique='explicit-state exploration of the real monitor over all sequences of a small alphabet of states up to a depth, in lockstep with an automaton; real runs as conformance traces',
  note='Alphabets and depths in the evidence.'),
 dict(
  id='P22', title='Short-lived species pass on exactly what was created of them',
  statement='In every step the collision term of a decoupled short-lived species is what its reactions create, spread over a Maxwell distribution of the same number if the species thermalises, '
            'less for each decay channel a number equal to the branching ratio times the number created (all spin states counted), so that nothing piles up and the products of a chain of decays follow in the same step. '
            'During the step other reactions see what is left of its thermal population plus what the step creates; after it only the former remains: '
            'the thermal occupation numbers of decoupling, decayed with the lifetime, or none for a species that never was thermal.',
  over=['histories', 'inputs', 'configurations'],
  for_all='sequences of steps with any creations, decays and scatterings; species by statistics, spin states, lifetime, thermal history and thermalisation; chains of real decays',
  why='No test contains a short-lived species; errors only show in numbers and energy lost over many steps.',
  files=['common/kinematics.py', 'particles/__init__.py', 'interactions/three_particle/__init__.py', 'evolution.py'],
  mechanism=[('bookkeeping', 'common/kinematics.py: Icoll_fast_decay, scaling'), ('background', 'particles/__init__.py: DistributionParticle.update_distribution')],
  observe=['collision terms', 'distributions during and after a step', 'numbers created'],
  technique='exhaustive enumeration of sequences of steps over an alphabet through the real species, in lockstep with written-out balances; chains of real collision integrals',
  note='Depths and alphabets in the evidence; the collision terms of single reactions are inputs except in the chains.'),
 dict(
  id='P23', title='Sterile neutrinos are set up from their own mass and mixing alone',
  statement='For every mass and mixing angle the temperature of decoupling follows from the weak rate and the relativistic degrees of freedom of the mass range (10.75, 14.25 or 61.75, changing above the muon mass and '
            'above the QCD scale), distinguishing relativistic, intermediate and non-relativistic decoupling. The momentum grids of it and of its products reach the largest momentum up to the configured '
            'scale factor and are as fine as the spread of two-body decay products or the configured resolution, whichever is finer. Nothing depends on sterile neutrinos asked about earlier in the process, '
            'and scattering ends at one fifteenth of the temperature of decoupling exactly for the relativistic ones, at 1 MeV for the others.',
  over=['inputs', 'configurations', 'histories'],
  for_all='masses of 0.6 MeV to 3 GeV including both sides of every threshold, mixing angles, settings, sequences of questions about several sterile neutrinos',
  why='No test evaluates any of it; the remembered kind of decoupling depends on the history of the process.',
  files=['common/kinematics.py', 'environment.py'],
  mechanism=[('decoupling', 'common/kinematics.py: decoupling_temperature_relativistic, decoupling_temperature'), ('grids', 'common/kinematics.py: grid_resolution_*, grid_params_*'),
             ('end of scattering', 'common/kinematics.py: Neglect4pInteraction')],
  observe=['temperatures, resolutions, grids', 'whether a scattering is evaluated'],
  technique='exhaustive enumeration of a lattice of masses, angles and settings and of all short sequences of questions against published formulas on the real code',
  note='Lattices in the evidence.'),
 dict(
  id='P24', title='Physics does not depend on the choice of units',
  statement='Units and constants have their published values and agree with each other, and nothing physical depends on which number stands for one electronvolt: with any other such number the library of particles and '
            'matrix elements, the set-up of sterile neutrinos, momentum grids and ranges, thermodynamics, collision integrals, short-lived species, histories of whole Universes (linear or logarithmic steps), '
            'nuclear rates, estimates and exported files are the same in the units they announce.',
  over=['configurations', 'inputs', 'histories'],
  for_all='numbers standing for one electronvolt, from 2^-31 to 2^47 times the default (more in the thorough tier), times scenarios that cover the parts of the code that handle dimensional quantities',
  why='Every test uses one system of units, in which a forgotten or superfluous conversion is hidden by the numbers chosen.',
  files=['common/__init__.py', 'common/kinematics.py', 'library/SM.py', 'library/NuMSM.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'particles/__init__.py', 'evolution.py',
         'kawano.py', 'semianalytic.py'],
  mechanism=[('units', 'common/__init__.py: UNITS, CONST'), ('dimensional defaults', 'common/kinematics.py, library/SM.py, library/NuMSM.py'), ('exports', 'common/utils.py: DynamicRecArray; kawano.py: heading')],
  observe=['every quantity in its announced unit', 'momenta evaluated', 'exported files', 'values of units and constants'],
  technique='exhaustive enumeration of systems of units times scenarios on the real code, each in a process of its own loaded with the other electronvolt; all quantities compared with the default system and with published values',
  note='The systems of units are powers of two apart, so rounding is the same and comparisons are nearly exact; scenarios in the evidence.'),
 dict(
  id='P25', title='The evolution has no hidden memory',
  statement='What a time step does is decided by the visible state of the Universe - parameters, distributions, temperatures and recorded histories of the species, settings - and by nothing else: a Universe that has lived '
            'through any sequence of steps, evaluations, changes of its state or of the step size continues exactly as one built anew in a fresh process and put into the same state; evaluating collision terms without '
            'making a step, or evolving another Universe in the process, changes nothing.',
  over=['histories', 'configurations'],
  for_all='sequences of up to 2-3 happenings out of {step, evaluation of collision terms, heating, distributions replaced, distributions changed in place, a change of one in a million, another step size, near-disappearance of heavy species, another Universe}, '
          'times Universes with every kind of reaction, linear and logarithmic steps',
  why='A test evolves a Universe once from its beginning; quantities kept from an earlier evaluation (cached reactions, matrix elements, rates, patterns) are right the first time and wrong only after the state has changed in a particular way.',
  files=['evolution.py', 'particles/__init__.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'interactions/boltzmann.py', 'common/kinematics.py', 'kawano.py', 'common/__init__.py'],
  mechanism=[('cached reactions and elements', 'interactions/four_particle/__init__.py: initialize, creaction, cMs; interactions/three_particle/__init__.py: integrate'), ('step', 'evolution.py: Universe.make_step, integrand'),
             ('state of species', 'particles/__init__.py: update, update_distribution; common/kinematics.py: has_decayed, store_energy')],
  observe=['parameters after the next step', 'distributions, collision terms and densities after the next step', 'rows recorded', 'nuclear rates'],
  technique='explicit-state exploration of all sequences of happenings on real Universes with the real compiled integrals; every state reached is recreated in a process that has computed nothing and the next steps are compared',
  note='The tree of histories is explored by forking the process at every node; the state is carried over generically (whatever is data), so new attributes need no change of the check.'),
]
