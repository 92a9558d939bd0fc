TR = "Sampled, not exhaustive: seeded search over inputs, rank and thread counts, schedules, message delays and blocking sends. Trusts the simulator's MPI / OpenMP semantics and the reference oracle in sim/host; "
prop("C01", "sys", "Particles are conserved and owned by exactly one process",
 "At every step, on every process layout and message schedule, each particle that was created exists on exactly one process with unchanged identity, radius, length, group and mobility flag, and a finite position and unit orientation. After distribution it lies inside the box in every periodic direction, its recorded owner is the process it lives on, and global indices run contiguously in process order without gaps. Redistribution changes a position only by whole periods.",
 ["schedules", "inputs", "configurations", "histories"], "every particle set, box, periodicity, number of processes and threads, message timing and number of steps (moves shorter than a box length)",
 "The unit tests never run the particle system: migration, periodic wrap and ownership are only exercised by example programs that cannot be built with the test suite.",
 ["Sylinder/SylinderSystem.cpp", "FDPS/domain_info.hpp", "FDPS/particle_system.hpp", "FDPS/ps_defs.hpp"],
 [("domain decomposition", "SylinderSystem::decomposeDomain, PS::DomainInfo::decomposeDomain"), ("particle exchange", "SylinderSystem::exchangeSylinder, PS::ParticleSystem::exchangeParticle"), ("periodic wrap", "SylinderSystem::applyBoxBC"), ("global indexing", "SylinderSystem::updateSylinderMap, updateSylinderRank")],
 ["particle containers of every process after start-up, distribution and stepping"],
 TR + "assumes moves shorter than a box length per step.")
prop("C03", "sys", "Every close pair is found once, across processes and periodic images",
 "In every step, for every pair of particles and every periodic image of the pair whose surfaces are closer than the sum of their contact buffers, exactly one contact is recorded, whichever processes and threads the particles are handled by, and none is recorded for any other pair or image. Its gap, contact points and normal describe the shortest segment between the two particles, and its indices address the two particles.",
 ["inputs", "schedules", "configurations"], "every particle set (spheres, short and long rods, mixed radii, collision-size ratios), box, periodicity, process and thread count and schedule",
 "Tests cover the distance function for single pairs and one fixed two-species search, never the distributed search with imported periodic images.",
 ["Sylinder/SylinderSystem.cpp", "Sylinder/SylinderNear.hpp", "FDPS/tree_for_force_utils.hpp", "FDPS/tree_for_force_impl.hpp", "FDPS/domain_info.hpp", "Constraint/ConstraintCollector.hpp"],
 [("near-pair search", "CalcSylinderNearForce::operator(), FDPS tree walk and particle import"), ("search radius", "SylinderNearEP::getRSearch"), ("contact collection", "SylinderSystem::collectPairCollision, ConstraintBlockPool")],
 ["contact records of every process after each step"], TR + "separations within 1e-7 of the recording threshold may fall either side; touching axes are skipped.")
prop("C04", "sys", "Every particle end near a boundary gets exactly the right wall contact",
 "In every step, each particle end (or centre, for sphere-like particles) that is outside a configured wall, tube or spherical shell, or closer to it than its recording distance, has exactly one wall contact with the inward normal, signed gap and lever arm of that end; no other wall contacts exist. This does not depend on process and thread count or schedule.",
 ["inputs", "schedules", "configurations"], "every boundary set (walls, tubes, shells; inside or outside), particle set, process and thread count and schedule",
 "The boundary test checks projections of single points; no test runs the wall-contact collection or its thread-parallel loop.",
 ["Sylinder/SylinderSystem.cpp", "Boundary/Boundary.cpp", "Boundary/Boundary.hpp"],
 [("wall contact collection", "SylinderSystem::collectBoundaryCollision"), ("projection", "Boundary::project implementations")],
 ["wall contact records of every process after each step"], TR + "distances within 1e-7 of the recording threshold may fall either side.")
prop("C06", "sys", "Every link acts in every step, wherever its particles live",
 "In every step each configured link appears as exactly one two-sided constraint with the configured stiffness between the plus end of its first and the minus end of its second particle, measured to the nearest periodic image, wherever the two particles live; there is no other two-sided constraint. Link tables stay equal to the configured links on every process.",
 ["inputs", "schedules", "histories", "configurations"], "every link set, particle motion across processes and periodic boundaries, process and thread count and schedule",
 "No test creates links; finding a partner on another process goes through a directory lookup whose result depends on ownership and timing.",
 ["Sylinder/SylinderSystem.cpp", "Trilinos/ZDD.hpp", "Constraint/ConstraintCollector.hpp"],
 [("partner lookup", "SylinderSystem::collectLinkBilateral, updateSylinderMap, ZDD"), ("link tables", "SylinderSystem::setLinkMapFromFile")],
 ["two-sided constraint records and link tables of every process"], TR + "linked centres exactly half a period apart may use either image.")
prop("C02", "sys", "A step's result does not depend on how many processes and threads run it",
 "The same particles, prescribed forces and velocities, boundaries and links, stepped without Brownian motion, give the same particles with the same velocities and rotations up to what the constraint solver's tolerance allows, for every number of processes and threads and every schedule; steps without constraint forces also give the same positions and orientations to rounding.",
 ["schedules", "configurations", "inputs"], "every pair of process and thread layouts and schedules of the same system",
 "A test runs one layout; equality over layouts needs the whole distributed step and control over message and thread order.",
 ["Sylinder/SylinderSystem.cpp", "Constraint/ConstraintSolver.cpp", "Constraint/ConstraintCollector.cpp", "Constraint/BCQPSolver.cpp", "Trilinos/TpetraUtil.cpp"],
 [("one step", "SylinderSystem::prepareStep, runStep"), ("constraint solve", "ConstraintSolver::solveConstraints")],
 ["particle velocities, rotations and positions after each step of both runs"], TR + "layouts are compared until the first step with constraint forces (afterwards the states differ by the solver tolerance).")
prop("C05", "sys", "Constraint forces balance and satisfy the contact and link relations",
 "In every step the contact and link force and torque of each particle equal the sum over its recorded constraints of multiplier times normal at the contact point; contact multipliers are never negative. When the solver reports a residual below its tolerance, the velocities the particles really get satisfy, within that tolerance, gap rate at least zero for every contact, zero where a contact has force, and gap rate plus force over stiffness zero for every link whose pulling force is below its limit of 1e8. This holds for every process and thread count and schedule.",
 ["inputs", "schedules", "configurations"], "every set of overlapping particles, walls and links with prescribed and Brownian velocities, monolayer or not, both solvers, every layout and schedule",
 "Solver tests use random matrices; no test ties multipliers, forces and velocities back to the constraints of a distributed particle system.",
 ["Constraint/ConstraintSolver.cpp", "Constraint/ConstraintCollector.cpp", "Constraint/ConstraintOperator.cpp", "Constraint/BCQPSolver.cpp", "Sylinder/SylinderSystem.cpp"],
 [("constraint problem", "ConstraintSolver::setup, solveConstraints"), ("matrix and write-back", "ConstraintCollector::buildConstraintMatrixVector, writeBackGamma"), ("forces and velocities", "SylinderSystem::saveForceVelocityConstraints")],
 ["constraint records, particle forces and velocities, the solver's reported residual"], TR + "relations are only required of steps whose solver reports convergence.")
prop("C13", "sys", "Particles move exactly as forces, velocities and configuration prescribe",
 "In every step each particle's force and torque are the prescribed ones plus contact and link contributions, its velocity is its mobility times its force plus the prescribed and the Brownian velocity, and its position and orientation advance by that velocity over one time step (an exact rotation, unit length kept). Immovable particles move only by prescribed velocities, a fixed system does not move, and in a monolayer all motion that is prescribed or Brownian stays in the layer and particles start the step in it. Values set for a particle reach that particle wherever it lives.",
 ["inputs", "schedules", "configurations", "histories"], "every particle set with prescribed forces and velocities, every layout, schedule and number of steps",
 "No test steps the particle system.",
 ["Sylinder/SylinderSystem.cpp", "Sylinder/Sylinder.cpp", "Util/EquatnHelper.hpp"],
 [("velocity sum", "SylinderSystem::calcMobMatrix, calcVelocityNonCon, sumForceVelocity"), ("explicit step", "SylinderSystem::stepEuler, Sylinder::stepEuler")],
 ["particle records before and after each step"], TR + "angular velocities below 1.2e-7 may be ignored by the orientation update.")
prop("C07", "sys", "Added particles and links get unique numbers and join on every process",
 "When processes add their own sets of particles between steps, every added particle gets a number no other particle has, all new numbers are consecutive above the highest in use, the numbers returned to a process are those of its own particles in order, and no existing particle changes. Links added afterwards are in the link tables of every process exactly once. In the following steps all old and new particles exist once with their properties, start where they were put, and every old and new link acts.",
 ["inputs", "schedules", "histories", "configurations"], "every set of additions by every process (including none, many, repeated), every layout, schedule and time of the addition",
 "No test adds particles or links to a running system.",
 ["Sylinder/SylinderSystem.cpp"],
 [("numbering", "SylinderSystem::addNewSylinder, getMaxGid"), ("link distribution", "SylinderSystem::addNewLink")],
 ["returned numbers, particle records and link tables of every process"], TR + "each link is added by one process.")
prop("C11", "sys", "Reported global statistics equal those of the whole particle set",
 "On every layout, the reported particle volume and volume fraction, polar and nematic order, contact and link stress (in units of number density times thermal energy, wall contacts left out) and the local and global bounding boxes equal the values computed serially from all particles and constraints of all processes.",
 ["inputs", "schedules", "configurations"], "every particle set, box position, process layout (including processes without particles) and schedule",
 "No test computes any statistic of a particle system.",
 ["Sylinder/SylinderSystem.cpp", "Constraint/ConstraintCollector.cpp", "Sylinder/SylinderNear.hpp"],
 [("reductions", "SylinderSystem::calcVolFrac, calcOrderParameter, calcConStress, calcBoundingBox"), ("stress sums", "ConstraintCollector::sumLocalConstraintStress, writeBackGamma"), ("stress of one contact", "CalcSylinderNearForce::collideStress")],
 ["statistics lines of the log, returned bounding boxes, particle and constraint records"], TR + "values are compared at the six digits they are reported with.")
prop("C12", "sys", "Thermal motion has the prescribed size and is independent and repeatable",
 "Thermal velocities along and across the axis and thermal rotations have zero mean and variance 2 kT / dt times the mobility, do not correlate with each other or from step to step, and no two particles or steps share random numbers, on every layout. The same seed, layout and configuration give the same thermal velocities on every schedule; another seed gives others.",
 ["schedules", "inputs", "configurations", "histories"], "every particle set, seed, temperature (small), layout and schedule",
 "Statistical and cross-thread independence is a property of the whole stream assignment; the tests draw from one generator.",
 ["Sylinder/SylinderSystem.cpp", "Util/TRngPool.hpp", "Sylinder/Sylinder.cpp"],
 [("thermal velocity", "SylinderSystem::calcVelocityBrown"), ("stream splitting", "TRngPool")],
 ["thermal velocities of every particle in every step"], TR + "the TRNG library is replaced by a stand-in with exact stream splitting; thresholds of 6.5 to 9 standard deviations.")
prop("C14", "sys", "Every parallel run finishes without race, deadlock or abort",
 "For every mix of features (file or generated start, links, boundaries, monolayer, thermal and prescribed motion, additions, statistics, snapshots), process and thread count, schedule, message timing and buffering, the program neither deadlocks nor aborts nor runs forever, every message and collective is matched, no two threads access the same data without synchronisation when one writes, and every particle stays finite.",
 ["schedules", "inputs", "configurations", "fault_sequences"], "every configuration, layout and schedule; sends may block until received; messages may be delayed arbitrarily",
 "Races and deadlocks depend on schedules and message timing which tests cannot choose.",
 ["Sylinder/SylinderSystem.cpp", "Constraint/ConstraintCollector.cpp", "Constraint/BCQPSolver.cpp", "Sylinder/SylinderNear.hpp", "FDPS/particle_system.hpp", "FDPS/domain_info.hpp", "FDPS/tree_for_force_impl_force.hpp", "MPI/CommMPI.hpp"],
 [("message exchange", "FDPS exchange and import, ZDD, Tpetra imports, collectives of SylinderSystem"), ("thread-parallel loops", "all OpenMP regions of SimToolbox and FDPS")],
 ["completion of every process, simulator's race and message-matching checks, particle records"], TR + "race detection covers compiled SimToolbox and FDPS code, not the installed libraries.")
na("N01", "Closest distance between two line segments is correct",
 "For every two segments the reported minimal distance and closest points are those of exact geometry.", ["inputs"], "every pair of segments, including degenerate and parallel ones", "Tests sample random segments only.",
 ["Collision/DCPQuery.hpp"], [("closest point query", "DCPQuery")], ["returned distance and points"],
 "a pure function of its arguments: no schedule, clock, I/O or fault can influence it (its results are cross-checked indirectly by C03)")
prop("C08", "sys", "A crash at any point leaves a complete snapshot to restart from",
 "If all processes stop at an arbitrary file operation, possibly in the middle of a write, then as soon as one snapshot has been completed the files left behind let the program restart, on any number of processes: it comes up with a snapshot that is complete and at least as recent as the last one all processes had finished, with all its particles, links, step and snapshot number. If no snapshot was completed, no restart file claims one unless it is whole.",
 ["crash_points", "schedules", "inputs", "configurations"], "every file operation (and every byte of a write) as the crash point, every layout before and after, every schedule and message timing",
 "Tests never write or read snapshots, and cannot stop all processes at chosen file operations.",
 ["Sylinder/SylinderSystem.cpp", "Sylinder/Sylinder.hpp", "Util/IOHelper.hpp"],
 [("snapshot order", "SylinderSystem::writeResult, writeTimeStepInfo"), ("restart", "SylinderSystem::reinitialize, setInitialFromVTKFile, setLinkMapFromFile")],
 ["files after the crash, particles, links and counters after the restart"], TR + "completed writes survive the crash (process crash, not power loss).")
prop("C09", "sys", "A restarted run continues as if it had not been interrupted",
 "Restarting from the last snapshot, on the same or another number of processes and threads, gives the particles, sizes, groups, velocities, orientations and links of that step, continues step and snapshot numbers and the writing schedule, leaves saved files unchanged, uses random numbers not used before, and without Brownian motion follows the uninterrupted run to the precision of the snapshot (compared until constraint forces act).",
 ["histories", "schedules", "configurations", "inputs"], "every run length and snapshot interval, layout before and after the restart, schedule",
 "No test restarts anything.",
 ["Sylinder/SylinderSystem.cpp", "Sylinder/Sylinder.hpp", "Sylinder/Sylinder.cpp"],
 [("restart", "SylinderSystem::reinitialize, setInitialFromVTKFile, setLinkMapFromFile"), ("snapshot content", "Sylinder::writeVTP, writeAscii")],
 ["particles, links, counters and files of the restarted and the uninterrupted run"], TR + "snapshots store most fields in single precision and no spin about the axis.")
prop("C10", "sys", "Snapshots are written on schedule and hold the state of all processes",
 "Snapshots are numbered consecutively from zero and written exactly every timeSnap/dt steps (whole multiples up to rounding, at least one step). Each one's files hold exactly the particles and constraints every process owned in that step, with positions, axes, sizes, velocities, forces, gaps and multipliers as they were; the parallel index file names exactly the pieces of all processes; the text file holds every particle and every link once. This holds on every layout and when write calls transfer less than asked.",
 ["inputs", "schedules", "configurations", "fault_sequences"], "every particle and link set, time step and interval, layout, schedule and short writes",
 "No test writes or reads a snapshot.",
 ["Sylinder/SylinderSystem.cpp", "Sylinder/Sylinder.hpp", "Constraint/ConstraintCollector.cpp", "Util/IOHelper.hpp", "Util/Base64.cpp", "FDPS/particle_system.hpp"],
 [("schedule", "SylinderSystem::getIfWriteResultCurrentStep, writeResult"), ("binary files", "Sylinder::writeVTP, ConstraintCollector::writeVTP, IOHelper, B64Converter"), ("text file", "SylinderSystem::writeAscii, PS::ParticleSystem::writeParticleAscii")],
 ["bytes of every file, particle and constraint records of the step"], TR + "full disks and failing writes are not injected: the program checks no write.")
prop("C15", "exch", "The data directory answers with what was last registered for an id",
 "For any distribution of ids over processes, a lookup of any ids on any process (repeated, in any order, none at all) returns for each registered id exactly the data registered for it last, wherever it was registered; later registrations from other processes replace earlier ones, ids not registered again keep their data, several directories in a row do not mix, and nothing behind the answers is overwritten.",
 ["inputs", "schedules", "histories"], "every id set, owner, data type size, question list, number of rounds, process count and message schedule",
 "The test registers one fixed id pattern and asks once per process count.",
 ["Trilinos/ZDD.hpp"], [("directory", "ZDD::buildIndex, ZDD::find")], ["answers on every process"],
 TR + "an id is registered by one process per round. The Zoltan library is the installed one on simulated MPI.")
prop("C16", "exch", "Exchanged items and points arrive exactly once at their destination",
 "All-to-all exchange delivers every item to the process it is addressed to exactly once, unchanged and labelled with its sender, whatever the destinations, item sizes, empty processes and repeated rounds; points distributed from the root are all held once, in order, evenly, and collecting them on the root or on all processes returns the concatenation in process order, and a dump of points holds each of them once; sorting an array by tag keeps every tag with its data and orders the tags.",
 ["inputs", "schedules", "histories"], "every destination pattern (all to one, one to all, empty), item size, number of rounds, process and thread count and message schedule",
 "The exchange and point utilities have no stable test; the sort test uses one array.",
 ["MPI/CommMPI.hpp", "Util/PointDistribution.cpp", "Util/SortUtil.hpp"], [("exchange", "CommMPI::exchangeAllToAllV"), ("points", "distributePts, collectPts, collectPtsAll, dumpPoints"), ("sort", "sortDataWithTag")], ["received items, points and arrays of every process"], TR + "no faults beyond message timing and blocking sends.")
prop("C17", "mix", "Every pair of two particle systems interacts once, on every layout",
 "When two different particle systems interact, every target meets every source, and every periodic image of it, closer than the larger of their search radii exactly once and none farther, its result contains those pairs and no others and is stored at the index of the target, and moving particles into the box and to their processes neither loses nor duplicates any, for every box and periodicity, however few particles there are per process, wherever they sit (also on the faces of the box), and over repeated rounds with changing particle numbers.",
 ["inputs", "schedules", "configurations", "histories"], "every two sets of particles, search radii, box, periodicity, process and thread count, schedule and sequence of rounds",
 "The test runs one random system on the processes it is given and compares within that layout.",
 ["MPI/MixPairInteraction.hpp", "FDPS/tree_for_force_impl.hpp", "FDPS/tree_for_force_utils2.hpp", "FDPS/domain_info.hpp", "FDPS/particle_system.hpp"], [("mixed system", "MixPairInteraction::updateSystem, updateTree, computeForce"), ("neighbour search across processes and images", "FDPS TreeForForce::calcForceAll"), ("decomposition and exchange", "FDPS DomainInfo::decomposeDomainAll, ParticleSystem::exchangeParticle, adjustPositionIntoRootDomain")], ["pairs evaluated, results and particles of every process"], TR + "search radii stay below 0.45 of the shortest box length; pairs within rounding of the search radius may go either way.")
prop("C18", "exch", "Random streams of threads and processes are independent and repeatable",
 "Every thread of every process draws from its own stream: no two streams share a subsequence or correlate, uniform numbers lie in [0,1), uniform, normal and log-normal numbers have the prescribed moments, the same seed and layout give the same numbers on every schedule, and another seed gives other numbers.",
 ["schedules", "configurations", "inputs"], "every seed, process and thread count, drawing order and schedule",
 "The test draws from one process and looks at averages by eye.",
 ["Util/TRngPool.hpp"], [("stream splitting", "TRngPool::TRngPool, getU01, getN01, getLN")], ["every number drawn"], TR + "the TRNG library is replaced by a stand-in with exact stream splitting.")
prop("C19", "exch", "Distributed maps, vectors and dumps hold every entry once, in place",
 "Maps from local sizes are contiguous in process order, joined maps place block two behind block one, maps from explicit indices hold those indices, vectors hold the numbers given in place with the norm of the whole, and dumped vectors and matrices read back as the whole object, for every process count and local size including none, also when file writes transfer less than asked.",
 ["inputs", "schedules", "configurations", "fault_sequences"], "every local size (including zero), process count, message schedule and short write",
 "The test prints maps of one fixed size for inspection.",
 ["Trilinos/TpetraUtil.cpp", "Trilinos/TpetraUtil.hpp"], [("maps", "getTMAPFromLocalSize, getTMAPFromTwoBlockTMAP, getTMAPFromGlobalIndexOnLocal"), ("vectors", "getTVFromVector, getTVFromTwoBlockTV"), ("dumps", "dumpTV, dumpTCMAT")], ["indices, entries, norms and dumped files"], TR + "the Tpetra library is the installed one or the simulator's build on simulated MPI, as listed in DESIGN.md.")
prop("C20", "qp", "The bound-constrained solvers return what they report, on any layout",
 "For every strictly convex problem with lower and upper bounds (either, both, none, equal), initial guess (also infeasible) and iteration limit, both solvers return a vector within the bounds whose residual is the one they report (the last iterate's, or the best one's for the accelerated solver); if it is below the tolerance, the vector is that close to the solution. Well-conditioned problems are solved within the iteration limit. All processes see the same history, on every layout and schedule.",
 ["inputs", "schedules", "configurations"], "every strictly convex problem, bounds, guess, tolerance, iteration limit, distribution (also processes without rows) and schedule",
 "The self test solves one random problem and prints the history; nothing compares the returned vector with the report or the solution.",
 ["Constraint/BCQPSolver.cpp"], [("solvers", "BCQPSolver::solveAPGD, solveBBPGD"), ("projection and residual", "BCQPSolver::boundProjection, checkProjectionResidual")], ["returned vectors and iteration histories"],
 TR + "convergence is required only for smallest eigenvalue above 0.3 and tolerance above 1e-5 of the right-hand side.")
prop("C21", "qp", "The complementarity solvers return what they report, on any layout",
 "For every positive definite linear complementarity problem, initial guess and iteration limit, the solvers return a non-negative vector whose minimum-map residual is the one they report (last iterate's, or the best one's for the accelerated solver; for the Newton solver no worse than a reported value below tolerance); if it is below the tolerance, the vector is that close to the solution. Well-conditioned problems are solved by the gradient solvers within the iteration limit. All processes see the same history, on every layout and schedule.",
 ["inputs", "schedules", "configurations"], "every positive definite problem, guess, tolerance, iteration limit, distribution and schedule",
 "The test solves one random problem and prints the history; nothing compares the returned vector with the report or the solution.",
 ["Collision/CPSolver.cpp"], [("solvers", "CPSolver::LCP_APGD, LCP_BBPGD, LCP_mmNewton"), ("minimum map", "CPSolver::minXY, hMinMap, clipZero")], ["returned vectors and iteration histories"],
 TR + "convergence is not required of the Newton solver (it stops at stagnation).")
prop("C22", "qp", "The constraint operator applies the matrix product it stands for",
 "On every distribution of constraints and particles over processes (including none on some) and every schedule, applying the constraint operator gives alpha (D^T M D + K^-1) X + beta Y for every column, applying the collision operator gives alpha D^T M D X + beta Y, the force and velocity it leaves are D gamma and M D gamma, and repeated applications do not influence each other.",
 ["inputs", "schedules", "configurations", "histories"], "every constraint matrix, mobility, compliance, number of columns, factors, distribution and schedule",
 "No test applies the operators.",
 ["Constraint/ConstraintOperator.cpp", "Collision/CPSolver.hpp"], [("operator", "ConstraintOperator::apply, CPMatOp::apply")], ["operator results, forces and velocities"], TR + "the matrix kernels are Tpetra's.")
prop("C23", "sys", "A run starts with exactly the configured particles",
 "Started from a position file, a run holds every particle and link of the file exactly once, with its attributes, folded into the periodic box, whatever comments, blank lines and process layout; started without one, it holds the configured number of particles, numbered from zero, of the configured size, spread uniformly over the initial box or its circular cross-section, with the configured or uniformly random directions and the configured random lengths. Collision sizes and buffers are the configured or default ones, a missing required entry stops the run, the same seed starts the same and another seed another run.",
 ["inputs", "configurations", "schedules"], "every position file, configuration, seed, process and thread count and schedule",
 "Tests never start a particle system; the configuration reader is only exercised by examples.",
 ["Sylinder/SylinderSystem.cpp", "Sylinder/SylinderConfig.cpp", "Util/YamlHelper.hpp", "Util/EquatnHelper.hpp", "Util/GeoUtil.hpp"],
 [("start from a file", "SylinderSystem::setInitialFromFile, setLinkMapFromFile"), ("start from the configuration", "SylinderSystem::setInitialFromConfig, setInitialCircularCrossSection, getOrient"), ("configuration", "SylinderConfig::SylinderConfig, readConfig")], ["particles and links of every process after the start, exit of the run"], TR + "distributions are judged at 6.5 standard deviations or more; sylinderLength is taken as the mean of the logarithm when lengths are random, as the code does.")
prop("C24", "sys", "Killed and restarted at will, the program still completes the run",
 "However often the main program is killed, at any file operation, and started again, on any number of processes, it continues from the newest complete snapshot, never from an older one, and once it is left alone it finishes after exactly the steps timeTotal asks for, also when a finished run is continued with a larger timeTotal. The snapshots found then are numbered without gaps, of the scheduled steps, each whole and with every configured particle and link once and unchanged, none altered after it was finished; immovable particles are where they were put, and every life that saved something has its own random seed.",
 ["crash_points", "histories", "schedules", "configurations", "inputs"], "every sequence of crashes and restarts, crash point, layouts and schedule",
 "Nothing runs the main program, let alone several times.",
 ["Sylinder/SylinderSystem_main.cpp", "Sylinder/SylinderSystem.cpp", "Sylinder/Sylinder.hpp", "Util/IOHelper.hpp"],
 [("main loop", "main in SylinderSystem_main.cpp"), ("restart", "SylinderSystem::reinitialize"), ("snapshots", "SylinderSystem::writeResult, getIfWriteResultCurrentStep, writeTimeStepInfo")], ["every file left behind after each life of the program"], TR + "completed writes survive the crash (process crash, not power loss).")

prop("C25", "sys", "Constraints a caller adds to a step act like the built-in ones",
 "Constraints that the calling program adds between preparing and running a step, between any two particles or between a particle and a fixed point, one- or two-sided, rigid or with their own stiffness, stay in the pool exactly once and unchanged except for their multiplier, and act in that step together with contacts and links: forces balance, one-sided ones never pull, and when the solver reports convergence each satisfies its gap or link relation. They act in that step only. This holds on every process and thread layout, wherever the two particles live.",
 ["inputs", "schedules", "configurations", "histories"], "every set of added constraints and particles, process and thread count and schedule",
 "No test adds constraints; the assembly from per-thread queues with rows for remote particles is only exercised by a parallel run.",
 ["Sylinder/SylinderSystem.hpp", "Sylinder/SylinderSystem.cpp", "Constraint/ConstraintCollector.cpp", "Constraint/ConstraintSolver.cpp"],
 [("constraint pool", "SylinderSystem::getConstraintPoolNonConst, prepareStep"), ("assembly", "ConstraintCollector::buildConstraintMatrixVector"), ("solution", "ConstraintSolver::solveConstraints, writebackGamma")],
 ["constraint records and particle velocities and forces after each step"], TR + "added constraints leave the lower multiplier bound at its default zero.")

prop("C26", "sys", "A full disk or failing writes never cost the last complete snapshot",
 "If the disk fills up, or writing or creating an output file fails, at any moment of a run on any layout, the program may go on or stop with an error (it does not hang or crash), but the restart file always names a complete snapshot, one at least as new as the last that was complete before the failure: all its files are there and whole, with every particle and link. With room again, the program continues from that snapshot with exactly the saved state (or starts anew if none had been completed) on any number of processes, over whatever the failure left behind, and the snapshots it writes are whole.",
 ["fault_sequences", "schedules", "configurations", "histories"], "every moment and kind of write failure, layout, schedule and history",
 "No test writes a file on a full disk or restarts from one.",
 ["Sylinder/SylinderSystem.cpp", "Sylinder/Sylinder.hpp", "Constraint/ConstraintCollector.cpp", "Util/IOHelper.hpp", "FDPS/particle_system.hpp"],
 [("snapshots", "SylinderSystem::writeResult, writeAscii, writeVTK"), ("restart file", "SylinderSystem::writeTimeStepInfo"), ("file errors", "IOHelper::openFile, closeFile")], ["files after the failing run; state and files of the run that follows"], TR + "what was written before the failure stays; reading does not fail.")

