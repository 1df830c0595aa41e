import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,hook=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':hook}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':qt},'why_tests_cant':why,'anchors':a})
NOT="The six existing tests only compare physical constants; no test starts a simulation. "
H='phase-boundary hooks of the main loop (PICOPIC_SIM_HOOKS)'
p('C01','Every macroparticle is kept exactly once while moving between domains and nodes',
 'While a simulation advances, every macroparticle that does not leave the simulated area exists exactly once, in the domain and on the node that covers its position, with its identity, specie and weight unchanged. No macroparticle is lost, duplicated or handed to a domain that does not contain it, including moves across corners and across process borders. Only beam particles that cross the outer ends of the area may disappear.',
 ['schedules','configurations','histories'],'for every decomposition, team size, process count, thread interleaving and message order, at every time step',
 NOT+'Losses need a particle crossing a particular border (side, corner, process) under a particular interleaving of the moving threads.',
 ['src/SMB.cpp','src/domain.cpp','src/specieP.cpp','src/beamP.cpp'],[('hand-over of runaway particles between domains','src/SMB.cpp advance_particles / particles_runaway_collector'),('MPI exchange of particles','src/SMB.cpp send/recv of runaway particles'),('reflection and removal at walls','src/specieP.cpp, src/beamP.cpp reflect')],
 ['particle lists of all domains of all nodes after injection and after the push'],H)
p('C02','Results do not depend on thread schedule or team size; no data races',
 'Running the same job with any number of threads and any interleaving of them gives the same fields, currents, particles and stored data as running it with one thread. No two threads access the same memory concurrently with at least one of them writing, except through synchronisation.',
 ['schedules','configurations'],'for every thread interleaving at memory-access granularity and team sizes 1 to 8',
 NOT+'A race shows only in particular interleavings, which a test neither chooses nor repeats.',
 ['src/SMB.cpp','src/domain.cpp','src/math/rand.cpp'],[('parallel loops over domains with barriers between exchange phases','src/SMB.cpp'),('per-thread random number generators','src/math/rand.cpp')],
 ['state at each phase boundary; every memory access inside parallel regions'],H)
p('C03','Splitting the area into domains does not change the physics or the results',
 'A job split into any admissible number of domains gives, step by step, the same electric and magnetic fields, currents and particle motion as the same job in a single domain, up to floating-point rounding. The data stored by the probes agree too, including along domain borders and corners.',
 ['configurations','inputs','histories'],'for every admissible decomposition, geometry, plasma, beam and probe set, at every step',
 NOT+'Border errors depend on the position of particles and probes relative to the domain borders, over many configurations.',
 ['src/SMB.cpp','src/domain.cpp','include/math/grid.hpp','src/current/currentVB.cpp','src/maxwellSolver/maxwellSolverYee.cpp','src/specieP.cpp'],[('overlay exchange of fields, currents and weighed moments between neighbour domains','src/SMB.cpp *_overlay'),('per-domain solvers','src/maxwellSolver, src/current, src/pusher')],
 ['fields, currents and particles at phase boundaries; stored frames'],H)
p('C04','Splitting the job over MPI nodes does not change the physics or the results',
 'A job split over any admissible number of message-passing nodes gives, step by step, the same fields, currents, particle motion and stored data as the same job run by one undivided process, up to floating-point rounding.',
 ['configurations','schedules','histories'],'for every node count, decomposition, message timing and probe set, at every step',
 NOT+'The tests do not build the message-passing mode at all.',
 ['src/SMB.cpp','src/PiCoPiC.cpp','src/cfg.cpp','src/outEngine/outEngineHDF5.cpp'],[('exchange of border grids and particles between neighbour nodes','src/SMB.cpp under ENABLE_MPI'),('splitting of configuration per node','src/cfg.cpp, src/PiCoPiC.cpp')],
 ['fields, currents and particles of all nodes at phase boundaries; the shared data file'],H)
p('C05','Message exchange between nodes always makes progress',
 'A multi-node job always finishes: whatever the delivery order, node speed or buffering of sends, no set of nodes waits for each other forever. Every message sent is received by the operation it was meant for with the size it was sent with, and none is left over at the end.',
 ['schedules','configurations'],'for every message order, node stall and choice of buffered or rendezvous sends',
 NOT+'Deadlocks depend on whether the MPI library buffers a send and on relative node speed.',
 ['src/SMB.cpp','src/PiCoPiC.cpp'],[('ordering of sends and receives between neighbours, collective calls','src/SMB.cpp'),('collective file operations','src/outEngine/outEngineHDF5.cpp')],
 ['all message-passing calls of all nodes'],None)
p('C06','Every scheduled frame is stored exactly once, in its place',
 'For every configured probe, each time step that is due by its schedule stores exactly one complete frame at the index that corresponds to that step, in the dataset documented for this probe, and steps that are not due store nothing. After a complete run the dataset holds exactly the scheduled number of frames and none of them was altered later.',
 ['configurations','inputs','histories','schedules'],'for every probe set, schedule, time step and decomposition',
 NOT+'The error shows at particular step numbers (rounding of time) or particular overlaps of probe and domain.',
 ['src/outController.cpp','src/outWriter.cpp','src/outEngine/outEngineHDF5.cpp','include/outWriter.hpp'],[('schedule test and frame offset','src/outWriter.cpp, src/outController.cpp'),('splitting of a probe between domains','src/outController.cpp'),('slab writing','src/outEngine/outEngineHDF5.cpp')],
 ['all storage operations, final data file'],H)
p('C07','Stored values are the values of the simulation at that step',
 'Each value stored for a field or current probe equals the value which the simulation held for that cell and component at the end of the step the frame belongs to, for every probe shape and whichever domains or nodes the probe crosses.',
 ['configurations','inputs','histories'],'for every component, shape, position, schedule and decomposition',
 NOT+'A transposed, shifted or stale frame is still a well-formed file.',
 ['src/outWriter.cpp','src/outController.cpp','src/outEngine/outEngineHDF5.cpp','include/math/grid.hpp'],[('copying of grid regions to slabs','src/outEngine/outEngineHDF5.cpp write_*'),('offsets of domain parts of a probe','src/outController.cpp')],
 ['stored frames against grids at the output phase'],H)
p('C08','Pausing and resuming does not change the results',
 'A pause request, at any instant, leads the program to release its data file and wait; after a resume request it continues and finishes with exactly the same simulated states and stored data as a run that was never paused. Repeated or stray pause and resume requests do not break this.',
 ['fault_sequences','schedules','histories'],'for every instant and sequence of pause and resume requests, on every node',
 NOT+'A signal may arrive inside any memory access or storage operation.',
 ['src/PiCoPiC.cpp','src/algo/common.cpp','src/outController.cpp'],[('signal handlers and waiting loop','src/PiCoPiC.cpp'),('reopening of the data file','src/PiCoPiC.cpp, src/outController.cpp')],
 ['states and data file of the run, compared with the undisturbed run'],H)
p('C09','Termination requests end the program promptly with a readable data file',
 'When the program is told to terminate, at any instant, it ends within a bounded number of further time steps, reports an unsuccessful status unless all the work had been completed, and leaves the data file closed. Every frame completed before stays readable and equal to that of an undisturbed run.',
 ['fault_sequences','crash_points','schedules'],'for every instant (also within a storage operation or a pause), termination signal and node',
 NOT+'The outcome depends on the instant of the signal.',
 ['src/PiCoPiC.cpp'],[('termination handlers and end-of-step exit','src/PiCoPiC.cpp')],
 ['exit statuses, steps after the request, final data file'],H)
p('C10','A failed operation never ends as silent success',
 'If the storage fails (cannot create, open, extend, write, flush or close; disk full; partial write), a directory cannot be created or memory is exhausted, the program does not report success with missing or damaged results: it either recovers completely or ends every node of the job with an unsuccessful status. Frames stored before the failure stay intact.',
 ['fault_sequences','crash_points'],'for every single or persistent failure at every storage operation or allocation, on one or several nodes',
 NOT+'Failures at each individual operation cannot be sampled by tests without fault injection.',
 ['src/outEngine/outEngineHDF5.cpp','src/PiCoPiC.cpp','src/algo/common.cpp'],[('exception handlers of storage operations','src/outEngine/outEngineHDF5.cpp'),('fatal-error handler and job abort','src/PiCoPiC.cpp')],
 ['exit statuses, stored data compared with the fault-free run'],H)
p('C11','Results of an earlier run are never overwritten',
 'When a data file already exists at the configured place, whatever its state, a new run neither changes nor removes it and ends with an unsuccessful status on all nodes.',
 ['configurations','histories'],'for every existing file state, configuration and process count',
 NOT+'Nothing starts the program in a used directory.',
 ['src/outEngine/outEngineHDF5.cpp','src/PiCoPiC.cpp'],[('exclusive creation of the data file','src/PiCoPiC.cpp')],
 ['existing file before and after, exit status'],None)
p('C12','Beams are injected exactly by their schedule',
 'Each beam injects particles in exactly those time steps that belong to one of its bunches, given start time, bunch length, distance, amount and velocity, with the same number of particles in each such step, and none before, between or after the bunches. Injected particles appear at the entrance of the area within the beam radius, with the beam velocity and with the weight of their share of the configured density, whatever the decomposition.',
 ['configurations','inputs','schedules'],'for every beam setting, decomposition and thread interleaving',
 NOT+'Bunch borders fall between time steps in configuration-dependent ways.',
 ['src/beamP.cpp','src/SMB.cpp','src/cfg.cpp'],[('bunch counter and per-step portion','src/beamP.cpp inject')],
 ['particle lists before and after injection of every step'],H)
p('C13','Plasma population stays constant and inside the area',
 'Plasma species keep their particle number, identities and weights during the whole run, because all walls reflect them: every particle stays inside the simulated area with finite position and velocity below the speed of light, and its recorded cell is the one that contains it.',
 ['configurations','inputs','histories','schedules'],'for every plasma, geometry, decomposition and step',
 NOT+'Escapes happen for rare fast particles near walls and corners.',
 ['src/specieP.cpp','src/domain.cpp','src/pusher/pusherBoris.cpp','src/SMB.cpp'],[('reflection','src/specieP.cpp reflect'),('cell binding','src/specieP.cpp bind_cell_numbers')],
 ['particle lists at every step'],H)
p('C14','Memory safety in every run',
 'No run of an admissible configuration reads or writes outside allocated objects, uses released memory, releases memory twice or crashes, in any thread interleaving, node count or log verbosity.',
 ['configurations','schedules','inputs'],'for every admissible configuration, interleaving and process count',
 NOT+'Out-of-range accesses depend on particle positions and probe shapes and usually stay unnoticed.',
 ['src','include'],[('grid index arithmetic with overlay shift','include/math/grid.hpp'),('ownership of particles and probes','src/SMB.cpp, src/specieP.cpp')],
 ['every memory access and allocation of the program'],None)
p('C15','The data file describes the job which produced it',
 'The data file of every run carries the complete configuration the run was given, unchanged in every value, together with the software version, build options and the comment, so that the results can be interpreted and the run repeated.',
 ['configurations','inputs'],'for every configuration, build variant and process count',
 NOT+'No test reads a data file.',
 ['src/outEngine/outEngineHDF5.cpp','src/cfg.cpp'],[('metadata attributes','src/outEngine/outEngineHDF5.cpp write_metadata'),('configuration echo','src/cfg.cpp cfg2str')],
 ['attributes of the final data file'],None)
p('C16','Results do not depend on memory garbage or the wall clock',
 'Given the configuration and the random seeds, the simulated states and the stored data are a function of these only: previous contents of memory, its addresses and the wall-clock time have no influence.',
 ['fault_sequences','configurations'],'for every initial heap content and clock jump',
 NOT+'Uninitialised values usually happen to be zero in a test.',
 ['src','include'],[('initialisation of grids, particles and counters','include/math/grid.hpp, src/specieP.cpp')],
 ['states at each phase and stored data of two runs'],H)
p('C17','Fields advance by the field equations in every cell',
 'In every time step the electric and the magnetic field of every cell become exactly what the Yee leap-frog form of Maxwell\'s equations in cylindrical coordinates gives for the fields before the step and the current density: the interior, the axis, the first column of cells, conducting walls and absorbing layers (whose conductivity grows towards the wall by the configured limits) included, whatever the values of the fields and the division of the area.',
 ['inputs','configurations','histories'],'for every field and current content of the grids, geometry, absorbing layers, decomposition, process count, at every step',
 NOT+'A wrong sign, index or factor in one component gives plausible fields; it needs fields with every component present, in every cell class.',
 ['src/maxwellSolver/maxwellSolverYee.cpp','src/SMB.cpp','include/maxwellSolver.hpp','include/geometry.hpp'],[('calc_field_e, calc_field_h','src/maxwellSolver/maxwellSolverYee.cpp'),('absorbing layer conductivity','src/maxwellSolver/maxwellSolverYee.cpp set_sigma')],
 ['field grids before and after the field phase of each step'],H)
p('C18','Every particle moves by the equation of motion in the fields at its place',
 'In every time step each macroparticle gets the velocity and position which its charge, mass, previous velocity and the electric and magnetic (with external) field interpolated to its position give by the particle pusher chosen at build time (adaptive or relativistic Boris, Vay, Higuera-Cary), with rotation back to the plane of the cylinder and mirror reflection at the axis and, for the plasma, at the walls. Its previous position is kept for the current deposition.',
 ['inputs','configurations','histories','schedules'],'for every particle position (also next to borders, walls and the axis), velocity, species and field content, with each pusher, decomposition and interleaving',
 NOT+'A pusher off by a factor or a sign in one term still moves particles smoothly.',
 ['src/pusher/pusherBoris.cpp','src/pusher/pusherVay.cpp','src/pusher/pusherHC.cpp','include/maxwellSolver.hpp','src/maxwellSolver/maxwellSolverYee.cpp','src/maxwellSolver/externalFields.cpp','src/specieP.cpp','src/beamP.cpp'],[('velocity update','src/pusher'),('field interpolation','include/maxwellSolver.hpp get_field_*'),('move, rotation, reflection','src/specieP.cpp')],
 ['particles before and after the push of each step, field grids between'],H)
p('C19','The current density is exactly the charge carried by the moving particles',
 'With the Villasenor-Buneman scheme the current density of each cell after the deposition of a step is exactly the charge which the macroparticles carried through that cell\'s faces while moving straight from their previous to their new positions, volume weighted in cylindrical geometry, so that charge is conserved at every node, plus the azimuthal current of their rotation. Particles crossing several cells, moving strictly along one axis or staying in place are treated the same.',
 ['inputs','configurations','schedules','histories'],'for every movement of every particle (within a cell, through one or two borders, along an axis), decomposition and interleaving',
 NOT+'Mistakes concern one of many crossing cases and are hidden in the sum over particles.',
 ['src/current/currentVB.cpp','src/SMB.cpp','src/domain.cpp'],[('splitting of trajectories by cell borders','src/current/currentVB.cpp'),('overlay exchange of currents','src/SMB.cpp current_overlay')],
 ['particles after the push and the current grids after the deposition of each step'],H)
p('C20','Stored moments are those of the particles',
 'Each stored value of density, momentum, energy and temperature of a specie equals the value given by its macroparticles at that step: density is their volume-weighted number per volume, momentum the weighted mean momentum (relativistic for fast particles), energy the kinetic energy of the mean absolute momentum in electron-volts and temperature the same after subtracting the directed motion. This holds for any probe shape, across domains and nodes, and does not depend on which other probes are stored at the same step.',
 ['inputs','configurations','histories'],'for every specie, beam, probe set, schedule, decomposition and step',
 NOT+'Needs an independent calculation from the particles for the same step.',
 ['src/specieP.cpp','include/algo/weighter.hpp','src/outController.cpp','src/SMB.cpp','src/phys/rel.cpp'],[('weighting to the grid','include/algo/weighter.hpp'),('moments and their normalisation','src/specieP.cpp calc_*, normalize_*'),('when they are refreshed','src/outController.cpp')],
 ['particles at the output phase; stored frames'],H)
p('C21','The initial plasma has the configured density, extent and temperature',
 'Before the first step every plasma specie fills each domain with its share of the configured macroparticle amount; the weights add up to the configured density times the volume, grow in proportion to the radius, every particle is inside the area its domain fills (half a cell inside of the walls), evenly spread for the flat and random distributions, and velocities correspond to the configured temperature by the chosen distribution (thermal, rectangular, eigen) without drift.',
 ['inputs','configurations'],'for every density, temperature, species set, geometry, decomposition, process count and build variant',
 NOT+'The distribution code is not run by any test.',
 ['src/specieP.cpp','src/cfg.cpp','src/SMB.cpp','src/math/rand.cpp','src/math/maxwellJuettner.cpp'],[('placement','src/specieP.cpp *_placement'),('weights','src/specieP.cpp set_weight'),('velocities','src/specieP.cpp *_velocity_distribution'),('shares of the macroparticle amount','src/cfg.cpp weight_macro_amount')],
 ['particle lists before the first step'],H)
p('C22','A configuration which cannot be used is never simulated',
 'When the configuration file is missing, torn at any place, lacks a required value or has one of a wrong type, or asks for something the program rules out (a probe of an unknown component, of an unknown shape or outside of the area, two species or beams of one name, an odd amount of domains above one, no electrons, an unknown external field profile), every process ends with an unsuccessful status before simulating a step and without creating a data file.',
 ['crash_points','fault_sequences','inputs'],'for every place the file may be torn at, every required value and each rule, with one or several nodes',
 NOT+'Depends on where the file is damaged.',
 ['src/cfg.cpp','src/PiCoPiC.cpp','src/maxwellSolver/externalFields.cpp','lib/picojson'],[('reading, parsing and checking of the configuration','src/cfg.cpp')],
 ['exit statuses, steps made and files created'],None)
p('C23','Storing results does not influence the simulation',
 'Which probes are configured, how often they are stored and how verbose the log is has no effect on the simulated fields, currents and particles, nor on the data of any other probe. Storing never changes the simulated state, and in a time step fields are changed by the field solution only, particles by injection and their advance only.',
 ['configurations','histories'],'for every pair of probe sets over the same simulation, decomposition and process count',
 NOT+'Needs two complete runs which differ in their probes only.',
 ['src/outController.cpp','src/outWriter.cpp','src/SMB.cpp','src/domain.cpp','src/specieP.cpp','src/PiCoPiC.cpp'],[('output phase','src/outController.cpp operator()'),('moments calculated on demand','src/specieP.cpp calc_*, src/domain.cpp weight_*')],
 ['states at each phase and stored data of two runs'],H)
p('C24','A run simulates exactly the configured time in equal steps',
 'A run makes exactly the steps which the configured time holds (at t = 0, step, 2*step, ... up to the configured end), however long it is; the simulated time grows by exactly one step per step on every process, and injection of beams and storing of frames follow it until the end.',
 ['configurations','histories'],'for every end time, step length, run length, process count and thread schedule',
 NOT+'The main loop is not run by the tests; drift of the step counter needs long runs.',
 ['src/PiCoPiC.cpp','src/outController.cpp','src/beamP.cpp','include/timeSim.hpp'],[('main loop condition and clock','src/PiCoPiC.cpp'),('step number from time','src/outController.cpp')],
 ['clock at each phase, amount of steps, frames'],H)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
L={}
M={'version':1,'setup_cmd':'python3 check.py --setup','hooks':{'guard':'PICOPIC_SIM_HOOKS','enable':'sim/build.sh compiles /repo/src with -DPICOPIC_SIM_HOOKS (phase-boundary calls in the main loop)','source_commits':['c87976530ae901db7cd62dc75734fde6e35a6275']},'checks':[],'not_applicable':json.load(open('/verif/sim/na.json'))}
for x in P:
    M['checks'].append({'property':x['id'],'quick_cmd':'python3 check.py %s quick'%x['id'],'thorough_cmd':'python3 check.py %s thorough'%x['id'],'technique':'deterministic simulation with seeded schedules and fault injection','level':'exploration',
     'level_note':NOTES[x['id']] if 'NOTES' in globals() else 'Held on every seeded simulated run of this check; real program code over simulated OpenMP, MPI, HDF5, signals, clock and heap, on small grids. Seeded search, not a proof.','evidence_file':'evidence/%s.json'%x['id']})
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
