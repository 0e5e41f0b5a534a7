prop('P01', 'Every parameter the code consults can be set by the user',
     'Every run-time parameter that any part of the code consults is a registered parameter of the same type, so a value given in a parameters file or through the scripting interface always reaches the code that uses it. No consulted parameter silently reads as zero or empty, no real-valued parameter is truncated to an integer, and the value of one parameter is never stored as if it were another.',
     ['configurations', 'inputs'], 'every parameter name consulted anywhere in the code, every parameters file',
     'The tests set a few dozen of about 300 parameters; a misspelt or wrongly typed key reads as the default zero and the run goes on.',
     ['src/Common/Parameters.cpp', 'src/Common/Simulation.cpp', 'src/Ic/', 'src/Common/SimUnits.cpp'],
     [('registry of defaults', 'Parameters::SetDefaultValues'), ('typed lookup maps', 'Parameters::intparams/floatparams/stringparams')],
     'params', 'libTooling fact extraction + interprocedural key/type agreement between registrations and consultations',
     'Decides the property for every literal key in every function of the build; keys computed at run time are counted and not decided.')

prop('P02', 'Each smoothing kernel is one consistent function of position',
     'For each kernel class (M4, quintic, Gaussian) in 1, 2 and 3 dimensions: the kernel w0 is normalised to unit volume integral (the Gaussian up to its truncation), w1 is its derivative, womega is the derivative with respect to h that the grad-h terms need, the softened gravity functions wgrav, wpot and wzeta are the force, potential and grad-h term of a mass distributed as w0 (Newtonian at the edge of the kernel, force equal to minus the gradient of the potential), the functions of s-squared agree with those of s, and every function is continuous at its knots and zero outside the support. The tabulated kernel fills each table from the function of the same name and looks it up with the same spacing it was filled with, never outside the table.',
     ['inputs', 'configurations'], 'every separation s >= 0, every kernel class, every dimension',
     'Tests run one or two kernels at the separations that occur in one set-up; a wrong coefficient in one branch changes results by less than the tolerances.',
     ['src/Headers/SmoothingKernel.h', 'src/Common/M4Kernel.cpp', 'src/Common/QuinticKernel.cpp', 'src/Common/GaussianKernel.cpp', 'src/Common/TabulatedKernel.cpp'],
     [('kernel functions', 'SmoothingKernel<ndim>::w0, w1, womega, wzeta, wgrav, wpot'), ('tabulation', 'TabulatedKernel<ndim>::initializeTable, tableLookup')],
     'kernels', 'abstract interpretation (value numbering with polynomial normal forms, per knot interval) and symbolic differentiation/integration of the normal forms',
     'Identities are decided on the normal form of each branch, for all s; the tabulated kernel up to its interpolation error.')
prop('P03', 'Units: names, constants, scales and conversions agree',
     'Every unit name means the SI value it names, is known to the conversion and to the plot label alike, and an unknown name is rejected; every physical constant has its accepted value. The scale of every derived quantity (velocity, density, pressure, energy, luminosity, opacity, temperature, ...) is the product of the length, mass and time scales its dimension requires, with the time unit chosen so that G=1; each quantity takes its own input and output unit parameters; its cgs factor is exact; and the helper conversions between input, code, output, SI and cgs units are the ones their names state.',
     ['inputs', 'configurations'], 'every unit name of every quantity, every combination of unit parameters',
     'Tests use dimensionless units almost throughout and never read a converted value of most quantities.',
     ['src/Common/SimUnits.cpp', 'src/Headers/SimUnits.h', 'src/Headers/Constants.h'],
     [('unit tables', 'SimUnit::SIUnit, LatexLabel'), ('scales', 'SimUnits::SetupUnits')],
     'units', 'abstract interpretation of SIUnit/LatexLabel/SetupUnits to algebraic normal forms compared with dimensional products and reference tables',
     'Names and scales are decided for every string; measured constants to the tolerance of published adjustments. Electromagnetic quantities and dust are checked for names and own parameters only.')
prop('P04', 'Gravity: every force is the gradient of the potential added with it',
     'In every loop that sums gravity over particles, stars, perturbers or tree cells (direct, kernel-softened, star-gas, perturber, monopole, quadrupole, fast multipole and external potentials), the acceleration each partner adds is the gradient, with respect to the position of the object receiving it, of the potential added in the same step (grad-h terms apart; the external potentials up to the factor one half of the energy convention); the jerk added is the time derivative of that acceleration, and the second and third derivatives of the acceleration in the Hermite schemes are those of the Newtonian pair force, summed over all partners rather than overwritten. Cell potentials are m/|r-R| plus a trace-free quadrupole, and the fast-multipole expansion is the Taylor series of the same potential.',
     ['inputs', 'configurations'], 'all positions, velocities, masses and smoothing lengths; every neighbour, gravity and integration option',
     'Tests compare a few set-ups with loose tolerances; jerk, snap, multipole and periodic terms are barely visible in them.',
     ['src/GradhSph/GradhSph.cpp', 'src/MeshlessFV/MfvCommon.cpp', 'src/Nbody/', 'src/Headers/NeighbourSearch.h', 'src/Headers/ExternalPotential.h'],
     [('pair force loops', 'GradhSph::ComputeSph*GravForces, MfvCommon::Compute*GravForces, Nbody*::CalculateDirect*Forces'), ('cell forces', 'ComputeCellMonopoleForces, ComputeCellQuadrupoleForces, FastMultipoleForces'), ('external', 'ExternalPotential::AddExternalPotential')],
     'gravity', 'abstract interpretation of each loop body to algebraic normal forms; the per-iteration increments are differentiated and compared',
     'Exact for every input up to constants that only guard a division by zero; the numerical content of the Ewald tables is opaque (its force and potential are taken as a pair).')
prop('P05', 'Pair exchanges conserve momentum, fluxes and energy',
     'In every loop that sums interactions over pairs (hydrodynamic and gravitational forces of grad-h and SM2012 SPH, meshless gravity, star-star and star-gas-symmetric N-body forces, meshless Godunov fluxes), the force each partner of a pair feels is equal and opposite to the force on the other: m_i a_i = -m_j a_j exactly, including viscosity, grad-h and periodic (Ewald) terms. The work done by SPH pair forces is what the internal energies of the pair gain, and artificial conductivity only moves energy between them. What a perturber of a sub-system receives from a star (the perturber acceleration and jerk arrays) is the reaction to what it gives the star. The mass, momentum and energy flux (dQ, dQdt) that a meshless particle loses through a face is what its neighbour gains.',
     ['inputs', 'configurations'], 'every pair of particles or stars, every option of viscosity, conductivity, gravity and boundary',
     'Tests compare profiles with loose tolerances; a term that is not symmetric in the pair leaks momentum or energy slowly and passes.',
     ['src/GradhSph/GradhSph.cpp', 'src/SM2013/SM2012Sph.cpp', 'src/MeshlessFV/MfvMuscl.cpp', 'src/MeshlessFV/MfvRungeKutta.cpp', 'src/MeshlessFV/MfvCommon.cpp', 'src/Nbody/'],
     [('pair forces', 'ComputeSphHydroForces, ComputeSphHydroGravForces, ComputeSphGravForces, CalculateDirect*GravForces'), ('fluxes', 'MfvMuscl/MfvRungeKutta::ComputeGodunovFlux')],
     'conserve', 'abstract interpretation of each loop body to algebraic normal forms; the increment of one partner is compared with that of the other, or with itself under exchange of the two',
     'Exact for every input, given opaque kernels, equation of state, slopes and Riemann solution; energy with P=(gamma-1) rho u.')
prop('P06', 'Integration schemes are consistent, exact to their order and restart cleanly',
     'In every time integration scheme (SPH leapfrog KDK and DKD, meshless, N-body leapfrog KDK and DKD, Hermite 4, Hermite 4 TS, Hermite 6 TS): within a step, positions and velocities are Taylor polynomials, in the time elapsed since the start of the step, of the state saved there (position is the integral of velocity; the DKD schemes drift with the saved velocity until the end of the step), and internal energy follows its saved rate. The corrected velocity is exact when the acceleration varies with time as a polynomial of degree 2p-1 and a corrected position for degree 2p-2, where p is the number of force derivatives the scheme uses; the higher derivatives it reconstructs are exact for cubic accelerations. At the end of a step every saved quantity the scheme starts from (position, velocity, acceleration and its derivatives, internal energy and its rate, integer and physical time, step size) is refreshed from the current value and the end-of-step mark is cleared. Force evaluation is requested exactly when the whole step (half of it in DKD schemes) has elapsed. A step shortened by the timestep limiter ends at the current time and its physical size equals its integer size times the base step. A meshless particle that exchanges nothing keeps its mass and thermal energy and moves with its acceleration; what it exchanged (dQ) is added to its conserved quantities exactly once.',
     ['inputs', 'histories', 'configurations'], 'every state, step size, step level and sequence of steps; every scheme',
     'Tests run few schemes for few steps with tolerances that hide an order of accuracy, and never shorten steps.',
     ['src/Hydrodynamics/SphLeapfrogKDK.cpp', 'src/Hydrodynamics/SphLeapfrogDKD.cpp', 'src/MeshlessFV/MfvIntegration.cpp', 'src/Nbody/NbodyLeapfrogKDK.cpp', 'src/Nbody/NbodyLeapfrogDKD.cpp', 'src/Nbody/NbodyHermite4.cpp', 'src/Nbody/NbodyHermite4TS.cpp', 'src/Nbody/NbodyHermite6TS.cpp'],
     [('predictors', 'AdvanceParticles'), ('correctors', 'CorrectionTerms, EndTimestep'), ('flags and limiter', 'SetActiveParticles, CheckTimesteps')],
     'integrators', 'abstract interpretation of one iteration of each particle loop to algebraic normal forms, split by branch outcome; compared with Taylor series and polynomial test accelerations',
     'Exact rational arithmetic over symbolic states. Step size selection (the Courant condition etc.) and round-off are outside.')
prop('P07', 'Equations of state describe one gas consistently',
     'For every equation of state: the pressure is (gamma-1) rho u, the entropic function P/rho^gamma and the temperature (gamma-1) mu_bar u, where u is the specific internal energy the class itself returns; the sound speed squared is gamma P/rho when the internal energy is evolved and P/rho when it is prescribed; the internal energy returned for a given pressure is the one that gives that pressure back. Isothermal gas has temp0 everywhere, barotropic gas temp0 (1+(rho/rho_bary)^(gamma-1)), the second barotropic form switches continuously at rho_bary, polytropic gas has P = Kpoly rho^eta_eos. The equations of state wrapped around another one for ionising radiation reduce to it for gas that is not ionised. Each gas_eos name builds its own class. What an equation of state is shown of a particle (position, velocity, density, internal energy, pressure, ionisation) is that particle; primitive and conserved state vectors built for a Riemann solver describe the same gas; and whenever thermal properties of a particle are recomputed, internal energy, sound speed and pressure are refreshed together from the current density and the new internal energy.',
     ['inputs', 'configurations'], 'every density, internal energy, pressure and ionisation; every choice of the thermal parameters; every equation of state',
     'Tests use two or three equations of state with one gamma, mu_bar=1 and gamma=eta, where most of these relations cannot fail.',
     ['src/Thermal/', 'src/Headers/EOS.h', 'src/Hydrodynamics/Hydrodynamics.cpp', 'src/GradhSph/GradhSph.cpp', 'src/MeshlessFV/MeshlessFV.cpp', 'src/SM2013/SM2012Sph.cpp'],
     [('equations of state', 'EOS<ndim>::Pressure, EntropicFunction, SoundSpeed, Temperature, SpecificInternalEnergy, InternalEnergyFromPressure'), ('refresh', 'ComputeThermalProperties')],
     'eos', 'abstract interpretation of constructors and methods to algebraic normal forms, compared branch by branch',
     'Exponents are decided at three rational values each, everything else exactly. The contents of the radws opacity table and the gas inside ionised regions of the external ionisation code are outside.')
prop('P08', 'Riemann solvers and face states of the meshless schemes obey the Euler equations',
     'In one, two and three dimensions, for a face of any orientation and velocity: between equal states the HLLC and exact solvers return the physical flux of mass, momentum and energy through the moving face (with zero_mass_flux, pressure alone, and the face velocity becomes that of the contact). HLLC returns the flux of the left or right state outside the outermost waves, between them the flux its jump conditions require on either side of the contact (isothermal gas: the HLL average for mass and momentum); its wave speeds are mirror symmetric and each takes into account the acoustic speed of its own state. The exact solver samples a self-similar solution whose every jump conserves mass, momentum and energy and whose fans are simple waves, its pressure iteration is Newton\'s method, and its flux is that of the sampled state with tangential velocity taken upwind. The rotation matrices are orthogonal, inverse to each other and take the x-axis to the face normal; the small-matrix inverse inverts. The time derivative of primitive variables is that of the Euler equations. In the meshless schemes (mfvmuscl, mfvrk) the two states handed to the solver are the same function of the two particles, the face velocity is common, the normal points from the first state to the second, flux towards the neighbour leaves the particle, and the states are extrapolated over the step by the Euler equations so that the fluxes are centred in time. Mass, velocity and internal energy are recovered from the conserved quantities.',
     ['inputs', 'configurations'], 'every pair of gas states, face normal and face velocity; every combination of exact/HLLC, zero mass flux, isothermal',
     'Shock tube tests are one-dimensional with a static frame and tolerances of several percent; most branches of the solvers, and every tangential or frame term, never run.',
     ['src/Headers/RiemannSolver.h', 'src/Hydrodynamics/RiemannSolver.cpp', 'src/Hydrodynamics/FV.cpp', 'src/MeshlessFV/', 'src/Headers/InlineFuncs.h'],
     [('solvers', 'HllcRiemannSolver::ComputeFluxes, HLL_Speeds; ExactRiemannSolver::ComputeFluxes, ComputeStarRegion, SampleExactSolution; ComputeRotationMatrices, RotateVector'), ('faces', 'MfvMuscl/MfvRungeKutta::ComputeGodunovFlux, FV::CalculatePrimitiveTimeDerivative, MeshlessFV::UpdateArrayVariables')],
     'riemann', 'abstract interpretation of the solvers to algebraic normal forms, split by branch outcome; fluxes compared with the physical flux and the jump conditions, the sampled solution with the weak form of the equations',
     'gamma = 7/5. Which branch applies for given numbers is decided at representative values of the wave speeds; the choice of slope limiter is outside (slopes are opaque).')
prop('P09', 'Parallel loops are free of data races',
     'For any number of OpenMP threads and any schedule: memory that several threads can reach is written only by the thread that owns the element (the particle, cell, star, sink or table row of its iteration, or its own per-thread buffer), inside a critical or atomic section, or as a declared reduction. What one thread writes into a shared variable or a per-thread buffer is read by other threads only after a barrier or under the same lock, and private copies of variables are set before they are used.',
     ['schedules', 'configurations'], 'every thread count, loop schedule and interleaving; every parallel region of the code',
     'The tests are built without OpenMP; even with it, a race shows only under particular interleavings and as a change of a result that is within tolerances.',
     ['src/Tree/HydroTree.cpp', 'src/GradhSph/GradhSphTree.cpp', 'src/MeshlessFV/MeshlessFVTree.cpp', 'src/Common/Simulation.cpp', 'src/Nbody/', 'src/Hydrodynamics/', 'src/Thermal/', 'src/Common/Dust.cpp'],
     [('parallel regions', 'every function with an OpenMP parallel directive, and everything it calls')],
     'races', 'interprocedural effect analysis (access paths with classified indices) of every OpenMP region of the OpenMP configuration',
     'Sound up to aliases created outside the functions analysed; entries of an index list run over by the parallel loop are taken to be distinct, and cells to share no particle. Conflicting reads of particles of other cells within one loop are not decided.')
prop('P10', 'Snapshots and restarts give back the state that was written',
     'In the column, seren_form and seren_unform formats (and seren_unform in MPI runs), in 1D, 2D and 3D: the reader consumes exactly the sequence of values that the writer of the same format produces, for any number and types of particles and stars, and puts each value back into the member it was written from: position, velocity, mass, smoothing length, density and internal energy of every live particle (seren formats: also original id and gas, cdm or dust type), position, velocity, mass and smoothing length of every star (seren formats: also radius) and, on a restart, time, step and snapshot counters, mean mass and the times of the last snapshots; dead particles are neither written nor counted. Every dimensional quantity is written in its own output unit and converted to code units exactly once, and the header readers and the tables of contents (number, components, count and unit of the arrays, also in seren_lite files) agree with what is written. Each format name selects the matching writer and reader; the restart file names the format and file of a snapshot completed before, a restart reads that one, and the snapshot counter and the next snapshot time continue from it.',
     ['inputs', 'histories', 'configurations'], 'every state, number and type of particles, stars and sinks, unit choice and restart',
     'Tests write snapshots but hardly read them back, never with dead particles, scaled units or a restart, and compare only a few fields.',
     ['src/Common/SimulationIO.hpp', 'src/Common/Simulation.cpp', 'src/Common/SimulationIC.hpp', 'src/Headers/'],
     [('writers', 'Simulation<ndim>::WriteColumnSnapshotFile, WriteSerenFormSnapshotFile, WriteSerenUnformSnapshotFile, WriteSerenLiteSnapshotFile'), ('readers', 'Simulation<ndim>::Read*SnapshotFile, Read*HeaderFile, ConvertToCodeUnits'), ('restart', 'SimulationBase::Output, RestartSnapshot, Simulation::GenerateIC')],
     'snapshots', 'constant propagation through writers to the sequence of values (with member and scale) in the file; the reader is run abstractly over that sequence',
     'Text precision, file system failures and column files of MPI runs are outside. Readers that seek or branch on data in ways constant propagation cannot follow are left undecided (counted in the evidence).')
prop('P11', 'Every cell of a tree describes exactly the particles below it',
     'After the tree is stocked (KD-tree, Oct-tree, brute-force tree), in 1D, 2D and 3D: a leaf cell holds, from its first to its last particle, the number of live particles and of active ones, the mass, centre of mass and mean velocity of those that gravitate (zero mass for types without gravity), the largest smoothing length and sound speed, and boxes that bound the positions (bb), the kernel volumes r -/+ kernrange*h (hbox) and the velocities (vbox) of all of them; an inner cell holds the sums, mass-weighted means, extremes and bounding boxes of its children that hold particles. Centre and radius of any cell with particles (massless ones too) are those of its box, and its opening distance covers both that radius and the largest smoothing length over the opening angle. Quadrupole moments (multipole quadrupole or fast_quadrupole) are the trace-free second moments about the centre of mass, moved to the centre of mass of the parent by the parallel-axis theorem, and enter the quadrupole potential with the coefficient of the Taylor series; the smallest acceleration and largest potential factor of the opening criteria are those of the particles. Dead particles are dropped from the list of a leaf and every live one stays linked. Refreshing smoothing lengths or active counters after a step gives the same values as stocking; between stockings cells, boxes and centres move with the velocity of the cell; leaf cells that are not to be stocked (pruned trees) keep their content.',
     ['inputs', 'histories', 'configurations'], 'every set of particles, types, masses and distribution over cells; every tree class, serial and MPI code',
     'Tests compare tree forces with direct sums at a few percent for one equal-mass distribution; wrong boxes or moments of a few cells, dead or massless particles and the Oct-tree never show.',
     ['src/Tree/KDTree.cpp', 'src/Tree/OctTree.cpp', 'src/Tree/BruteForceTree.cpp', 'src/Tree/Tree.cpp', 'src/Headers/TreeCell.h'],
     [('stocking', 'KDTree::StockCellProperties, OctTree::StockTree, BruteForceTree::StockTreeProperties'), ('refresh', 'UpdateHmaxValues, UpdateActiveParticleCounters, ExtrapolateCellProperties'), ('moments', 'MultipoleMoment, ComputeCellQuadrupoleForces')],
     'cells', 'abstract interpretation of the stocking functions for one leaf and one inner cell; loops over particles and children are folds whose step is compared, case by case, with that of the defining sum, extreme or moment',
     'The assignment of particles to cells (tree construction), the eigenvalue in the eigenvalue opening criterion and pruned-tree selection are outside.')
prop('P12', 'Neighbour and gravity walks of the tree find every particle they must',
     'Every walk of a tree (gather, gather/scatter, with ghosts, for gravity and for stars), in 1D, 2D and 3D, starts at the root, goes on to the first child of a cell it opens and to the next cell otherwise, always ends, and passes over a cell only when it is empty or when its position, radius, boxes and largest smoothing length prove that none of its particles is within range: gather searches of the range asked for, scatter searches also of the kernel range of the particles found, with the nearest periodic image where images count. It lists every particle from the first to the last of each leaf cell it reaches, once, except dead ones and those proved to be out of range; in gravity walks every remaining cell with particles is either opened or enters exactly once, as a multipole when the opening criterion allows or as its particles. The neighbour manager then puts each candidate on the list its distance and type call for: hydrodynamical neighbour, smoothed gravity, direct gravity, or none, judged by its own type and smoothing length, dropping it only when dead, out of range of both without gravity, or counted from the other side. A list too small for the result is never written past its end but reported, not searched further, and every caller tests for that, enlarges the list and everything else of that size, and searches again.',
     ['inputs', 'histories', 'configurations'], 'every tree, position, smoothing length and distribution of particles, all three dimensions, every capacity of the lists',
     'Tests run smooth set-ups in which wrong pruning loses a few neighbours of a few particles; lists hardly ever overflow, dead particles and mixed types hardly occur.',
     ['src/Tree/Tree.cpp', 'src/Tree/HydroTree.cpp', 'src/Headers/NeighbourManager.h', 'src/Headers/GhostNeighbours.hpp', 'src/GradhSph/GradhSphTree.cpp', 'src/MeshlessFV/MeshlessFVTree.cpp', 'src/Nbody/Sinks.cpp', 'src/Common/Dust.cpp', 'src/Feedback/Supernova.cpp'],
     [('walks', 'Tree::Compute{Gather,}NeighbourList, ComputeNeighbourAndGhostList, ComputeGravityInteractionAndGhostList, ComputeStarGravityInteractionList'), ('lists', 'NeighbourManager::_EndSearch, TrimNeighbourLists'), ('overflow', 'every caller of a search that returns -1')],
     'walks', 'path enumeration of one step of each walk over normal forms of its tests: the facts on each path that passes over a cell or particle must imply separation; typestate of the overflow result in every caller',
     'Relies on the cells being right (P11) and on the opening criterion and image functions themselves (P04, P13). The walks that select cells and particles to export to other MPI processes are outside.')

prop('P13', 'Periodic and mirror boundaries: wrapping, images and ghosts are exact',
     'In 1D, 2D and 3D and for every combination of boundary kinds: a particle that leaves the box through a periodic edge is shifted by exactly one box size in that direction, through a mirror or wall edge is reflected about the edge in position and reversed in velocity and acceleration of that direction, and nothing else about it changes; particles inside and at open edges are not touched. A separation of more than half of the box in a periodic direction becomes that of the nearest image, and in other directions stays. Two boxes of which some image has a point in common are found to overlap. The images made of a particle for a cell are exact: position shifted by one box size or reflected about the edge, velocity, acceleration, primitive variables, gradients and the gradient matrix with the sign of each direction they are reflected in, scalars unchanged, flags naming the edges; each is made once, none at an open or wall edge, there is room for all of them, and every image inside the reach of the cell or whose own range reaches the cell is among them. Stored ghosts are made for every particle within the range of the kernel of a periodic or mirror edge (also by its end of life for the given velocity), in every direction that has one and of the ghosts of earlier directions too; each is the exact image, inactive, names its original, is counted, and stays the image of its original when refreshed. Edges, kinds, size and half size of the box come from the parameters of that name and direction.',
     ['inputs', 'configurations'], 'every boundary kind on each side and direction, each order of the position relative to the edges, box sizes, cell boxes and smoothing lengths symbolic or by their order',
     'Tests use one or two boundary settings and mostly one dimension; corners, single mirror edges, ghosts of ghosts and the signs of gradients are not sampled.',
     ['src/Headers/GhostNeighbours.hpp', 'src/Headers/DomainBox.h', 'src/Headers/Particle.h', 'src/Hydrodynamics/Hydrodynamics.cpp', 'src/Hydrodynamics/Ghosts.cpp', 'src/Tree/HydroTree.cpp', 'src/Tree/Tree.cpp', 'src/Common/Integration.cpp', 'src/Common/Simulation.cpp'],
     [('wrap', '*::CheckBoundaries'), ('nearest', 'NearestPeriodicVector, PeriodicDistanceCorrection, ApplyPeriodicDistanceCorrection'), ('images', 'GhostNeighbourFinder::Construct*Ghosts*'), ('ghosts', 'CheckBoundaryGhostParticle, CopyHydroDataToGhosts, SearchBoundaryGhostParticles, GenerateBoundaryGhostParticles'), ('box', 'ProcessParameters')],
     'bounds', 'value numbering of each function under a complete enumeration of the orders of its inputs relative to the edges; the formulas it leaves in the particles are compared with those of the exact image',
     'The order cases use one representative for each order; the formulas compared are symbolic. When ghosts are refreshed, and with what lifetime, is outside; so are MPI ghosts.')

prop('P14', 'Density and smoothing length agree; meshless gradients are exact',
     'Every routine that finds a smoothing length (grad-h and SM2012 SPH, meshless schemes; 1D, 2D, 3D) leaves the particle with values that belong together: the density is the kernel-weighted mass of the neighbours at the accepted h (meshless: the particle mass times the sum of the kernel), SM2012 energy density likewise; h is accepted as converged only when it differs from h_fac (m/rho)^(1/ndim), with the density at this very h, by less than h_converge relative to h, whatever the units and whatever the particle held before; an h that agrees is accepted. The bounds of the bisection always hold the solution and get narrower in every pass. Success is reported only for an h up to the one the neighbours were gathered for. The stored power of h, kernel range, grad-h factor (1/(1 + h/(ndim rho) sum of m dW/dh)) and gravity correction zeta (without stars) are those of the accepted h; inside sinks SPH uses 1 and 0. A particle is marked as a potential minimum exactly when no neighbour within its kernel has a deeper potential. The equation of state sees the new density. The meshless gradient estimate is exact for quantities that vary linearly in space (well-conditioned neighbour positions); its largest signal velocity and neighbour level cover every neighbour.',
     ['inputs', 'histories'], 'all neighbour positions and masses, units, initial guesses and left-over values, passes of the iteration',
     'Tests start from relaxed, order-unity set-ups, where a wrong tolerance, a stale value or a wrong bound still converges to nearly the same density; gravity corrections and sink markers are not compared.',
     ['src/GradhSph/GradhSph.cpp', 'src/SM2013/SM2012Sph.cpp', 'src/MeshlessFV/MfvCommon.cpp', 'src/Headers/Sph.h'],
     [('smoothing lengths', 'GradhSph::ComputeH, SM2012Sph::ComputeH, MfvCommon::ComputeH'), ('gradients', 'MfvCommon::ComputeGradients')],
     'density', 'value numbering of one generic pass of the iteration and of all that follows it; the formulas are compared with the reference ones by identity testing at fixed sets of values',
     'Formulas are compared at finitely many generic values with an arbitrary function as kernel; that the fixed-point phase itself converges is not claimed. Terms of stars, and what the Cullen and Dehnen switch computes, are outside.')
