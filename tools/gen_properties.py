import json  # regenerates /verif/properties.jsonl
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["core/src/"+f for f in files],mechanism=[dict(name=n,where="core/src/"+w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where="core/src/"+w) for n,m,w in state]
    assert len(title)<=80,title
    P.append(d)

p("C01","The blocks always tile the domain exactly once, in space-filling-curve order",
"After any sequence of refinement, coarsening and load-balancing steps, on any number of processes, the blocks owned by all processes together cover the domain with no gap and no overlap. The local and global block counts and the global numbering agree with that set, and blocks are numbered consecutively across processes in Morton (Z-curve) order. Position, size, level and domain-boundary flags reported for a block are consistent with the cell of the hierarchy it occupies.",
["histories","inputs","configurations"],"every dimension (2D/3D), periodicity, coarse-grid shape, minimum level, marker history and number of processes",
"The unit tests replay a handful of fixed refinement patterns on one or three processes; the invariant quantifies over all histories, coarse grids and process counts.",
["amr/AMRmesh.h","amr/AMRmesh_hashmap_new.cpp","amr/LightOctree_storage.h","amr/LightOctree_hashmap.h","morton_utils.h"],
[("adapt / adaptGlobalRefine / loadBalance rebuild the leaf list","amr/AMRmesh_hashmap_new.cpp"),("Morton encoding and ordering","morton_utils.h"),("global index offsets","amr/AMRmesh_hashmap_new.cpp")],
["AMRmesh::getNumOctants/getGlobalNumOctants/getGlobalIdx/getCoordinates/getLevel/getSize/getBound","LightOctree::getCorner/getLevel/getBound"],
[("leaf storage","logical coordinates and level of each local and ghost block","amr/LightOctree_storage.h")])

p("C02","Adaptation does what the markers ask and keeps neighbours within one level",
"Every block marked for refinement is split, a complete family is merged only when all its members are marked for coarsening, and any further splitting (or refusal to merge) happens only where it is needed so that blocks sharing a face, edge or corner - also across periodic boundaries - differ by at most one level. The resulting set of blocks is the same whatever the number of processes and however blocks were distributed before the step.",
["histories","inputs","configurations"],"every 2:1-balanced mesh, every marker assignment, every periodicity and distribution over processes",
"Existing tests apply a few hand-picked markers and only check a boolean balance flag; closure effects that chain across several blocks, periodic wraps and process borders are not sampled.",
["amr/AMRmesh_hashmap_new.cpp","amr/AMRmesh.h"],
[("marker 2:1 propagation with ghost marker exchange","amr/AMRmesh_hashmap_new.cpp: adapt"),("family coarsening rule","amr/AMRmesh_hashmap_new.cpp: adapt")],
["set of (level,position) of all blocks after adapt"])

p("C03","Ghost blocks and neighbour queries agree with the geometry of the mesh",
"On every process, a neighbour query for any owned block in any direction (faces, edges, corners) returns exactly the blocks of the global mesh that touch it in that direction, with periodic wrap-around where configured and nothing outside non-periodic boundaries. Blocks owned by another process and returned this way are present in the ghost layer with the right position, size and level, and looking up the block at a position returns the block containing it.",
["histories","inputs","configurations"],"every mesh reachable by adapt/load-balance histories, every direction offset, every process count",
"Tests compare a few queries on fixed meshes; corner/edge neighbours at level jumps, periodic wraps and process borders for arbitrary partitions are unsampled.",
["amr/LightOctree_hashmap.h","amr/LightOctree_storage.h","amr/AMRmesh_hashmap_new.cpp","amr/LightOctree_base.h"],
[("hash map lookup of same/coarser/finer neighbour","amr/LightOctree_hashmap.h: findNeighbors"),("ghost discovery and exchange","amr/AMRmesh_hashmap_new.cpp: updateGhosts")],
["LightOctree::findNeighbors/isBoundary/getiOctFromPos","AMRmesh::getNumGhosts and ghost accessors"])

p("C04","Load balancing spreads blocks evenly and moves every block's data with it",
"Load balancing never changes the set of blocks or their order, and leaves block counts that differ by at most one between processes, or, when families are kept together, never splits a sub-tree of the requested depth between processes while staying as even as that allows. After it, each block still carries exactly the cell data and particles it had before, whichever process now owns it.",
["histories","configurations"],"every mesh, current distribution, process count, family depth and number/order of data fields",
"Tests load-balance one mesh once with one data layout on three processes.",
["amr/AMRmesh_hashmap_new.cpp","amr/AMRmesh.h","amr/UserDataLB.h","UserData_fields.h","UserData_particles.h","mpi/ViewCommunicator.cpp"],
[("partition of the Morton curve","amr/AMRmesh_hashmap_new.cpp: loadBalance"),("transfer map for user data","amr/AMRmesh_hashmap_new.cpp / mpi/ViewCommunicator.h"),("field / particle exchange","UserData_fields.h / UserData_particles.h: exchange_loadbalance")],
["AMRmesh::loadBalance / loadBalance_userdata","field and particle values per block after the call"])

p("C05","Cell loops visit every cell once, with exact cell geometry",
"A loop over cells visits each cell of each owned block exactly once (ghost loops: each ghost cell once), whatever the block size, the number of blocks processed per group and the number of threads; patch loops present each block with its own cells. The size and centre reported for cells tile the physical domain exactly, and looking up the cell at a position returns the cell that contains it.",
["inputs","configurations","schedules"],"every block shape, group size, physical box, mesh, dimension and thread count",
"Tests use one block size and group size; off-by-one errors only show for block counts not divisible by the group size or anisotropic boxes.",
["foreach_cell/AMRBlockForeachCell.h","foreach_cell/AMRBlockForeachCell_group.h","foreach_cell/AMRBlockForeachCell_scratch.h","foreach_cell/ForeachCell.h","foreach_cell/AMRBlockForeachCell_CellArray.h"],
[("iteration over groups of blocks","foreach_cell/AMRBlockForeachCell_group.h"),("cell metadata","foreach_cell/AMRBlockForeachCell.h: CellMetaData")],
["ForeachCell::foreach_cell/foreach_ghost_cell/foreach_patch/reduce_cell","CellMetaData::getCellSize/getCellCenter/getCellFromPos"])

p("C06","Looking up the neighbour of a cell gives the cells that really touch it",
"For every cell and every offset of at most the supported stencil width, the neighbour lookup says whether the neighbour region is outside the domain or filled by a cell of the same size, a larger one, or several smaller ones, and designates exactly those cells, through block, level, periodic and process borders. Values read through it are therefore the values of the physically adjacent cells.",
["inputs","configurations","histories"],"every cell, offset, block shape, level jump, periodicity and process border",
"Tests check some face neighbours on one mesh; the combinations of offset, level difference and sub-cell parity are not enumerated.",
["foreach_cell/AMRBlockForeachCell_CellArray.h","foreach_cell/ForeachCell_utils.h"],
[("neighbour index computation across blocks","foreach_cell/AMRBlockForeachCell_CellArray.h: getNeighbor_ghost"),("smaller neighbours and siblings","foreach_cell/ForeachCell_utils.h")],
["CellIndex::getNeighbor_ghost, level_diff, is_boundary, foreach_smaller_neighbor, foreach_sibling"])

p("C07","Named fields and particle attributes behave like a dictionary of arrays",
"For any sequence of creating, renaming/moving, overwriting and deleting fields, particle arrays and particle attributes, writing values, re-sizing at mesh changes and redistributing over processes, each live name gives back exactly the values last stored under it, names never alias or leak into one another, and requests for names that do not exist are refused.",
["histories"],"every operation sequence on the container, with any number, naming and order of fields and attributes",
"Tests run one fixed create/move/delete script; index re-use and column permutations depend on the whole history.",
["UserData.h","UserData_fields.h","UserData_particles.h","userdata_utils.h","FieldManager.h","particles/ParticleArray.h"],
[("name to column index map","UserData_fields.h"),("attribute map","UserData_particles.h"),("redistribution","UserData_fields.h / UserData_particles.h: exchange_loadbalance, distributeParticles")],
["UserData getField/getAccessor/has_field/getEnabledFields, particle accessors"])

p("C08","Ghost exchange gives every ghost cell its owner's value; reduction adds back",
"After a ghost exchange every ghost cell that a stencil of the requested width can read holds exactly the owner's current value for that cell, for every variable, and no owned value changes. The reverse operation adds each process' ghost contributions to the owner's cell exactly once, so the global sum is conserved.",
["inputs","configurations","histories"],"every mesh, partition, block shape, stencil width, number of variables and process count",
"Tests use one mesh on 1 or 3 processes and one block size.",
["mpi/GhostCommunicator.h","mpi/GhostCommunicator_partial_blocks.cpp","mpi/GhostCommunicator_full_blocks.h","mpi/ViewCommunicator.h","mpi/ViewCommunicator.cpp"],
[("face-masked cell lists","mpi/GhostCommunicator_partial_blocks.cpp"),("pack / send / unpack","mpi/ViewCommunicator.h")],
["GhostCommunicator::exchange_ghosts / reduce_ghosts","ViewCommunicator::exchange_ghosts / reduce_ghosts"])

p("C09","Remapping data after adaptation conserves totals and preserves constants",
"When the mesh is adapted, cells of unchanged blocks keep their values bit for bit, cells of a refined block take the value of the cell they subdivide, and cells of a merged block take the mean of the cells they replace. Hence the volume integral of every field is conserved and constant fields stay constant, for any process count.",
["histories","inputs","configurations"],"every adaptation step on every mesh, block shape, set of fields and process count",
"The unit test adapts one mesh once with one field.",
["amr/MapUserData_mean.cpp","amr/MapUserData_base.h","amr/CellIndexRemapper.h"],
[("old-to-new cell index remapping","amr/CellIndexRemapper.h"),("mean / copy","amr/MapUserData_mean.cpp")],
["field values before and after adapt + remap"])

p("C10","Finite-volume updates conserve mass, momentum and energy",
"On a periodic domain without source terms, one hydrodynamic update leaves the domain integrals of mass, momentum components and total energy (and of the magnetic field for MHD) unchanged up to rounding: for the first-order scheme on any adaptive mesh, and for the second-order schemes on meshes of a single level. With gravity or cooling off, no combination of solver, time-step, block size or process count breaks this.",
["inputs","configurations"],"every smooth or discontinuous admissible state, scheme, Riemann solver, adaptive mesh, block shape and process count",
"One conservativity test exists for one blast set-up with fixed meshes and solver.",
["hydro/HydroUpdate_euler.cpp","hydro/HydroUpdate_hancock.cpp","hydro/HydroUpdate_RK2.cpp","hydro/HydroUpdate_hancock_oneneighbor.cpp","hydro/HydroUpdate_utils.h","hydro/CopyGhostBlockCellData.h","RiemannSolvers.h"],
[("flux matching at level jumps","hydro/HydroUpdate_euler.cpp"),("one flux per interface","hydro/HydroUpdate_hancock.cpp"),("ghost patch fill","hydro/CopyGhostBlockCellData.h")],
["sum of conserved fields times cell volume before and after update"])

p("C11","Uniform flow stays uniform; mirrored problems give mirrored results",
"Every hydrodynamic and MHD update leaves a uniform state exactly uniform (to rounding) on any mesh with periodic or absorbing boundaries. Permuting the axes of a problem, or mirroring it, and then updating gives the same result as updating first and then permuting or mirroring.",
["inputs","configurations"],"every admissible state, mesh, scheme, Riemann solver, block shape and axis permutation/reflection",
"Tests never run a rotated or mirrored copy of a problem, and only check aggregate conservation.",
["hydro/HydroUpdate_euler.cpp","hydro/HydroUpdate_hancock.cpp","hydro/HydroUpdate_RK2.cpp","hydro/HydroUpdate_utils.h","hydro/CopyGhostBlockCellData.h","RiemannSolvers.h","states/State_hydro.h"],
[("direction-swapped flux evaluation","hydro/HydroUpdate_utils.h"),("slope reconstruction","hydro/HydroUpdate_hancock.cpp")],
["per-cell state after update, compared between transformed runs"])

p("C12","Results do not depend on the split over processes, threads and groups",
"Running the same problem with a different number of processes, threads, blocks per group, or load-balancing frequency produces the same mesh and the same cell values at the same time and iteration, up to floating-point rounding of reductions.",
["configurations","schedules","inputs"],"every problem set-up and every pair of parallel configurations",
"Tests run each configuration separately and never compare configurations with each other.",
["DyabloTimeLoop.h","foreach_cell/ForeachCell.h","mpi/GhostCommunicator.h","amr/AMRmesh_hashmap_new.cpp","compute_dt/Compute_dt_hydro.cpp"],
[("ghost exchange before every stencil kernel","DyabloTimeLoop.h"),("global reductions","compute_dt/Compute_dt_hydro.cpp")],
["cell-by-cell comparison of final states of complete runs of the executable"])

p("C13","Riemann fluxes and state conversions are consistent with the physical equations",
"Converting a state between conservative and primitive form and back is the identity for every admissible state, and for equal left and right states every Riemann solver returns the exact physical flux of that state. Mirroring the two states mirrors the flux, supersonic states give the upwind flux, and fluxes are finite for all admissible pairs.",
["inputs"],"every pair of admissible hydro and MHD states, adiabatic index and solver",
"Unit tests convert a couple of states and check no flux property.",
["RiemannSolvers.h","states/State_hydro.h","states/State_MHD.h","states/State_GLMMHD.h","states/State_Ops.h","utils_hydro.h"],
[("approx/HLLC/HLLD/GLM solvers","RiemannSolvers.h"),("primToCons/consToPrim","states/State_hydro.h")],
["riemann_* functions, primToCons/consToPrim"])

p("C14","The time step is the largest one the stability limits of all cells allow",
"The time step returned equals the minimum over all cells of all processes of the configured stability bound (CFL factor divided by the sum over axes of fastest signal speed over cell size; the analogous diffusive, particle-crossing and expansion bounds), hence it is positive, the same on every process, and no cell violates its bound.",
["inputs","configurations"],"every admissible state, mesh, box shape, CFL factor and process count",
"No test checks a time step against an independent evaluation of the bound, nor the dependency on anisotropic cells.",
["compute_dt/Compute_dt_hydro.cpp","compute_dt/Compute_dt_parabolic.cpp","compute_dt/Compute_dt_particle_velocity.cpp","compute_dt/Compute_dt_cosmology.cpp","compute_dt/Compute_dt.h"],
[("max-reduction over cells and MPI reduction","compute_dt/Compute_dt_hydro.cpp")],
["value of dt stored by the time-step components"])

p("C15","Boundary conditions act as specified on every side of the domain",
"A reflecting side lets no mass or energy through, so a box with reflecting sides conserves mass and total energy and behaves like one half of a mirror-symmetric periodic box; an absorbing side behaves as if the boundary cell were repeated outside; a periodic side connects the two ends of the domain. Each axis follows its own setting only.",
["inputs","configurations"],"every combination of conditions per side, state, mesh, scheme and dimension",
"The unit test checks a few boundary fluxes on one uniform mesh.",
["boundary_conditions/BoundaryConditions.h","hydro/CopyGhostBlockCellData.h","hydro/HydroUpdate_euler.cpp"],
[("ghost state construction per side","boundary_conditions/BoundaryConditions.h"),("periodicity taken from configuration","amr/AMRmesh.cpp")],
["domain integrals and cell values after an update"])

p("C16","The gravity solver solves the discrete Poisson equation and derives its force",
"After a self-gravity solve, the stored potential satisfies the discrete Poisson equation for the current density to the requested relative residual, on any adaptive mesh and process count, whatever potential it started from; the force is minus the discrete gradient of that potential. The point-mass field equals its closed form in every cell.",
["inputs","configurations","histories"],"every density field, mesh, boundary type, tolerance, starting potential and process count",
"The unit test solves one density set-up and compares with one analytical profile at loose tolerance.",
["gravity/GravitySolver_cg.cpp","gravity/GravitySolver_point_mass.cpp","gravity/GravitySolver_analytical.tpp"],
[("preconditioned conjugate gradient","gravity/GravitySolver_cg.cpp: update_gravity_field"),("force from potential","gravity/GravitySolver_cg.cpp")],
["fields gphi,gx,gy,gz after update_gravity_field"])

p("C17","Particles are never lost, duplicated or separated from their attributes",
"After redistribution, mesh adaptation with load balancing, or any move inside the domain, every particle exists exactly once over all processes, carries the attributes it was given, and is stored on the process that owns the block containing its position.",
["histories","configurations"],"every particle cloud, attribute set, mesh history and process count",
"The unit test distributes one regular particle set once.",
["UserData_particles.h","particles/ParticleArray.h","particles/ForeachParticle.h","mpi/ViewCommunicator.cpp"],
[("owner lookup by position","amr/LightOctree_hashmap.h: getDomainFromPos"),("particle exchange","UserData_particles.h: distributeParticles")],
["particle positions and attributes gathered over processes"])

p("C18","Particle deposition conserves mass and particle motion follows the field",
"Depositing particles on the mesh (nearest cell, or cloud-in-cell on a periodic domain) adds to the density integral exactly the total particle mass, on adaptive meshes and any process count, and each contribution goes to cells the particle's cloud overlaps. Moving particles in a uniform field reproduces uniform acceleration exactly, and a particle leaving a periodic domain re-enters at the equivalent position.",
["inputs","configurations"],"every particle cloud, mesh, box, field, time step and process count",
"No test covers deposition or motion on an adaptive mesh.",
["particles/ParticleUpdate_CIC_density.cpp","particles/ParticleUpdate_NGP_density.cpp","particles/ParticleUpdate_CIC_move.cpp","particles/ParticleUpdate_NGP_move.cpp","particles/ParticleUpdate_tracers_move.cpp"],
[("cloud weights and level-jump handling","particles/ParticleUpdate_CIC_density.cpp"),("ghost reduction","mpi/GhostCommunicator.h: reduce_ghosts"),("periodic wrap","particles/ParticleUpdate_CIC_move.cpp")],
["density field integral and particle positions/velocities after update"])

p("C19","Refinement criteria mark exactly the blocks they define, within the level limits",
"For each refinement criterion, a block is marked for refinement if and only if at least one of its cells exceeds the refinement threshold, and for coarsening if and only if all of its cells are under the coarsening threshold; marks never ask to go beyond the configured minimum and maximum levels.",
["inputs","configurations"],"every state, mesh, threshold pair, level limits, block shape and process count",
"No test evaluates the markers of any criterion.",
["refine_condition/RefineCondition_helper.h","refine_condition/RefineCondition_mass.cpp","refine_condition/RefineCondition_pseudo_gradient.cpp","refine_condition/RefineCondition_second_derivative_error.cpp","refine_condition/RefineCondition_downflows.cpp"],
[("per-block maximum of cell criteria","refine_condition/RefineCondition_helper.h"),("level clamping","refine_condition/RefineCondition_helper.h: set_markers")],
["mesh obtained by adapting after mark_cells"])

p("C20","A restarted run continues exactly like the uninterrupted one",
"A checkpoint stores the whole simulation state: restarting from any checkpoint, on the same or a different number of processes, restores the same mesh, every field and particle with its attributes, the time, iteration and scalar data; continuing gives the same results as a run that was never stopped. A tiled restart of a periodic box (equal power-of-two coarse grid along every axis, no particles, one process per tile) gives exact copies of the checkpointed state side by side.",
["crash_points","configurations","histories"],"every checkpoint iteration, problem set-up, set of fields/particles and pair of process counts",
"The restart test checks one small field layout on the same process count.",
["io/IOManager_checkpoint.cpp","init/InitialConditions_restart.cpp","init/InitialConditions_tiled_restart.cpp","utils/io/HDF5ViewWriter.h","DyabloTimeLoop.h"],
[("checkpoint writer","io/IOManager_checkpoint.cpp"),("restart reader and redistribution","init/InitialConditions_restart.cpp")],
["restored mesh/fields/particles/scalars; final output of continued runs"])

p("C21","Output files describe exactly the mesh, fields and particles of the simulation",
"Each snapshot contains every cell of the global mesh exactly once with its true corner coordinates and connectivity and, for each requested field, the value held by that cell (in the requested precision), and every particle with its attributes; the companion index files reference existing datasets with the right dimensions. The content does not depend on the number of processes except for order.",
["inputs","configurations"],"every mesh, field selection, precision, block shape and process count",
"No test reads an output file back.",
["io/IOManager_hdf5.cpp","utils/io/HDF5ViewWriter.h"],
[("collective dataset writes with per-process offsets","utils/io/HDF5ViewWriter.h"),("XDMF description","io/IOManager_hdf5.cpp")],
["HDF5 datasets and XDMF text of the files"])

p("C22","Configuration values are read as written and every run records what it used",
"For any parameter file, each typed request returns the value written under that section and key (or the given default when absent), malformed values and unknown enumeration names are refused instead of silently replaced, and a default is remembered so later requests agree. The recorded configuration, read back, yields the same values for every parameter.",
["inputs"],"every syntactically valid or malformed parameter file and sequence of typed requests",
"No test exercises the configuration reader.",
["utils/config/ConfigMap.h","utils/config/named_enum.h","utils/config/inih/ini.cpp"],
[("INI line parser","utils/config/inih/ini.cpp"),("typed value cache and output","utils/config/ConfigMap.h")],
["ConfigMap::getValue/hasValue/output, named_enum conversions"])

p("C23","The run stops and writes output exactly when the configuration says",
"A run ends at the requested end time (reached exactly, never overshot) or after the requested number of iterations, whichever comes first. Snapshots and checkpoints are written at every iteration or time interval requested, including the first and last states, time increases strictly, and the record of time steps is consistent with the reported times.",
["inputs","configurations"],"every combination of end time, iteration limit, output/checkpoint frequencies and slices",
"No test runs the time loop.",
["DyabloTimeLoop.h"],
[("interval triggers","DyabloTimeLoop.h: Interval_trigger"),("dt clipping and loop condition","DyabloTimeLoop.h")],
["set of files written, times and iterations recorded in them"])

p("C24","Diffusion and cooling exchange energy and momentum with the right balance",
"On a periodic domain, explicit heat conduction changes only energy and conserves its integral on adaptive meshes, viscosity conserves momentum on single-level meshes and leaves rigid translation untouched, and both match the discrete diffusion operator, independent of the process count. The cooling/heating term changes only the total energy, and never mass or momentum.",
["inputs","configurations"],"every admissible state, coefficient, mesh, box shape, dimension and process count",
"No test covers parabolic terms or cooling.",
["parabolic/ParabolicUpdate_explicit.cpp","parabolic/ParabolicTerm_thermal_conduction.h","parabolic/ParabolicTerm_viscosity.h","cooling/CoolingUpdate_FF.cpp"],
[("symmetric interface fluxes","parabolic/ParabolicTerm_thermal_conduction.h"),("stress tensor","parabolic/ParabolicTerm_viscosity.h")],
["field integrals and values before/after update"])

p("C25","The cosmological clock is monotonic and consistent in both directions",
"Conversion between expansion factor and time is strictly monotonic over the tabulated range, including both ends, conversion there and back is the identity up to the table accuracy, and it agrees with direct integration of the Friedmann equation. Steps in time and in expansion factor are consistent with each other.",
["inputs"],"every admissible cosmology, starting expansion factor and query point",
"No test covers the cosmology tables.",
["Cosmo.h","compute_dt/Compute_dt_cosmology.cpp","DyabloTimeLoop.h"],
[("table construction and interpolation","Cosmo.h")],
["CosmoManager conversions"])

p("C26","Initial conditions fill every cell of a mesh refined by their own criterion",
"For each built-in problem the initial mesh respects the minimum and maximum level and neighbour balance and is refined exactly where the problem's own criterion asks for it; every cell then holds the problem's formula evaluated at its centre. The result does not depend on the process count, and particle problems create exactly the configured particles.",
["inputs","configurations"],"every built-in problem, level range, parameter choice, block shape and process count",
"Tests only use initial conditions as a starting point and never compare them with the formula.",
["init/InitialConditions_analytical.h","init/AnalyticalFormula_tools.h","init/InitialConditions_blast.cpp","init/InitialConditions_simple_particles.cpp","init/InitialConditions_particle_grid.cpp","init/InitialConditions_grafic_fields.cpp"],
[("level by level refinement","init/InitialConditions_analytical.h"),("formula evaluation","init/InitialConditions_blast.cpp")],
["mesh and fields after init"])
p("C27","Gravity accelerates the gas by exactly its mass and heats nothing",
"For every hydro and MHD scheme, one step under gravity (a constant acceleration or an acceleration stored per cell) leaves mass unchanged and adds to the total momentum mass times acceleration times time step on any periodic mesh, with level jumps and on any process count; each cell gains momentum from the acceleration of that very cell, and gravity changes only its kinetic, not its internal energy (to the order of the scheme). Uniform gas falls freely. With the well-balanced option gas in hydrostatic balance stays at rest, a closed box loses no mass, and on a mesh of one level the energy of the gas plus its energy in the gravity field is constant.",
["inputs","configurations"],"every admissible state, acceleration, scheme, step size, mesh, dimension and process count",
"No test runs a scheme with gravity.",
["hydro/HydroUpdate_utils.h","hydro/HydroUpdate_base.h","hydro/HydroUpdate_euler.cpp","hydro/HydroUpdate_RK2.cpp","hydro/HydroUpdate_hancock.cpp","hydro/HydroUpdate_hancock_oneneighbor.cpp","legacy/MusclBlockGodunovUpdateFunctor.h"],
[("gravity source and well-balanced fluxes","hydro/HydroUpdate_utils.h"),("legacy prediction and correction","legacy/MusclBlockGodunovUpdateFunctor.h")],
["conserved fields before/after update with and without gravity"])
p("C28","An interrupted run stops cleanly after the current step and can be continued",
"When any one or several processes of a run receive SIGINT at any moment of the time loop, all processes end the run together after the step in progress (or the next one when the signal arrives while the processes already agreed to go on), the final state is written as output and checkpoint exactly as the uninterrupted run has it at that iteration, and continuing from this checkpoint gives the results of a run that was never interrupted.",
["crash_points","schedules","configurations"],"every step and point in a step at which the signal arrives, every subset of processes, problem set-up and process count",
"No test runs the time loop or sends a signal.",
["DyabloTimeLoop.h","io/IOManager_checkpoint.cpp","init/InitialConditions_restart.cpp"],
[("signal handler and collective decision to stop","DyabloTimeLoop.h: run, interrupt_handler"),("final output and checkpoint","DyabloTimeLoop.h: run")],
["iteration of the last checkpoint and output, its content, result of the continued run"])
p("C29","Array exchanges and collective operations transfer exactly what they describe",
"Given any description of an exchange (for each process, which of its objects go to which processes, by map, by sizes and list, or by target of every object), every process receives copies of exactly the objects sent to it, ordered by source and within a source in the order of the description, for arrays of every rank, distributed dimension, layout and element type, without changing the sender; the reverse reduction adds every copy to its original exactly once. Every collective operation and message of MpiComm gives on every process and every element type what the operation is defined to give, on all processes or on part of them.",
["inputs","configurations"],"every exchange pattern (empty, one-sided, repeated, to oneself), array shape, distributed dimension, type, operation and process count",
"Tests exchange one array of one pattern on the mesh's own ghost pattern; the collective wrappers have no tests of their own.",
["mpi/ViewCommunicator.h","mpi/ViewCommunicator.cpp","utils/mpi/MpiComm.h","utils/mpi/MpiComm_mpi.tpp"],
[("exchange pattern and packing","mpi/ViewCommunicator.h, mpi/ViewCommunicator.cpp: private_init_*, exchange_ghosts, reduce_ghosts"),("operations","utils/mpi/MpiComm_mpi.tpp")],
["received arrays, arrays after reduction, results of operations"])
p("C30","Results depend on neither the units nor the number of unused dimensions",
"Expressing the same problem in other units of length, velocity, density (and hence time, pressure, magnetic field, gravity constant, viscosity, conductivity) gives the same solution in these units, and the same time steps, for hydrodynamics, MHD, constant and local gravity, self-gravity, viscosity and conduction. A problem that does not vary along z gives in 3D, on blocks of any depth, what it gives in 2D.",
["inputs","configurations"],"every state, mesh with level jumps, scheme, Riemann solver, unit system and depth along z",
"Tests run in one unit system only and never compare a 2D run with the 3D run of the same problem.",
["hydro/HydroUpdate_euler.cpp","hydro/HydroUpdate_hancock.cpp","hydro/HydroUpdate_hancock_oneneighbor.cpp","hydro/HydroUpdate_utils.h","RiemannSolvers.h","compute_dt/Compute_dt_hydro.cpp","parabolic/ParabolicUpdate_explicit.cpp","gravity/GravitySolver_cg.cpp"],
[("dimensionally consistent updates","hydro/*: update, parabolic/*: update, gravity/*: update_gravity_field"),("time step kernels","compute_dt/*"),("2D and 3D branches of kernels","hydro/HydroUpdate_utils.h")],
["conserved variables, gravitational potential and acceleration after an update, dt"])
p("C31","The schemes converge to exact solutions at the order they claim",
"On flows whose exact solution is known (an advected density profile, sound waves, Alfven waves, shock tubes) along any axis, in 2D and 3D, every update scheme and Riemann solver approaches the exact solution as cells get smaller: smooth flows with second order (first order in time for the explicit Euler schemes), also when half of the domain has a finer level (with a first-order error at the interface), and shock tubes with waves at the right places.",
["inputs","configurations"],"every scheme, Riemann solver, wave, direction, amplitude, state, adiabatic index and box",
"Tests compare at most one shock tube with stored numbers; the order of accuracy is never measured.",
["hydro/HydroUpdate_euler.cpp","hydro/HydroUpdate_RK2.cpp","hydro/HydroUpdate_hancock.cpp","hydro/HydroUpdate_hancock_oneneighbor.cpp","legacy/HydroUpdate_legacy.cpp","RiemannSolvers.h"],
[("slopes, half-step predictor and Runge-Kutta stages","hydro/HydroUpdate_*.cpp"),("fluxes","RiemannSolvers.h")],
["error against the exact solution on two resolutions"])
p("C32","A run is reproducible and not changed by observing it",
"Running the same parameter file again on the same number of processes gives the same mesh, clock, fields and particles (the same bits with one thread). Writing output or checkpoints at any iterations or times, choosing the variables and number format of output, logging, and adding passive tracer particles change nothing in the mesh, clock, fields and other particles of the run.",
["configurations","histories"],"every configuration of the run, every choice of output, checkpoint and log intervals and variables, with or without tracers",
"No test runs the time loop; a result that depends on uninitialised memory or on when files are written shows only when runs are compared.",
["DyabloTimeLoop.h","io/IOManager_hdf5.cpp","io/IOManager_checkpoint.cpp","particles/ParticleUpdate_tracers_move.cpp"],
[("triggers and writers","DyabloTimeLoop.h: step, run"),("writers leave the state alone","io/IOManager_*.cpp: save_snapshot"),("passive tracers","particles/ParticleUpdate_tracers_move.cpp")],
["final checkpoint of the runs"])
p("C33","Each step of a run applies every configured process exactly once",
"A step of the time loop takes the smallest time step of all configured limits (cut at the end time); computes gravity from the gas and, when deposited, the particles at the start of the step; moves the particles and assigns them to their owners; applies the hydro scheme and then viscosity, conduction and cooling, each once, to the state at the start of the step; advances the clock; adapts the mesh and balances the load at the configured iterations. Its result is that of the configured operators applied one by one with complete ghost data.",
["configurations","histories"],"every combination of operators, time step limits, refinement, frequencies, start values and process counts, over several steps",
"Operators are tested alone; no test runs the time loop, so an operator skipped, repeated or fed with the wrong state goes unnoticed.",
["DyabloTimeLoop.h"],
[("sequence of operators","DyabloTimeLoop.h: step"),("choice of operators","DyabloTimeLoop.h: constructor"),("replacement of the density for the gravity of particles","DyabloTimeLoop.h: step")],
["final checkpoint of a run"])
p("C34","Timers account exactly for the time spent in each named section",
"For any sequence of starting, stopping, nesting and repeating named sections, each timer reports exactly the time during which it ran, filed under the section it was first requested in; starting a running timer, stopping one that is not the innermost, and reading a running one are refused and change nothing; several timer trees do not disturb each other. The printed summary and the list agree with these times, with the rest of every section under 'other'; timers.txt of a run has one labelled row of these times for every process.",
["histories","configurations"],"every sequence of operations on the tree of timers, every passage of time, every run and number of processes",
"Timers have no tests; a wrong time looks as plausible as a right one.",
["utils/monitoring/Timers.cpp","utils/monitoring/Timers.h","utils/monitoring/OpenMPTimer.cpp","DyabloTimeLoop.h"],
[("tree of timers and summary","utils/monitoring/Timers.cpp"),("accumulated time","utils/monitoring/OpenMPTimer.cpp"),("timers.txt","DyabloTimeLoop.h: timer_file")],
["elapsed times, list of timers, printed summary, timers.txt"])
p("C35","A configuration that cannot be honoured is refused before anything is written",
"A parameter file that names an initial condition, scheme, solver, kernel, criterion, backend, Riemann solver or boundary type that does not exist, gives a value that cannot be read as its type, restarts from a missing file, has a line that is no setting, or combines settings the code declares incompatible (type of gravity and solver, self-gravity in 2D, two-dimensional problems in 3D, well-balanced MHD, diffusion or cooling without hydrodynamics, blocks with a depth in 2D, a coarse grid that does not fit the levels, restart_enabled without restart), ends with an error before the first snapshot instead of running something else; the same file without that setting runs.",
["inputs","configurations"],"every valid configuration with one name or value spoiled in any way or one pair of settings made incompatible",
"Tests build components with valid names only and never run the program with a wrong file.",
["dyablo_main.cpp","utils/misc/RegisteringFactory.h","utils/config/ConfigMap.h","utils/config/named_enum.h","DyabloTimeLoop.h","amr/AMRmesh.cpp"],
[("choice by name","utils/misc/RegisteringFactory.h: make_instance; utils/config/named_enum.h: from_string"),("refused combinations","gravity, hydro, init (constructors); amr/AMRmesh.cpp: parse_parameters; DyabloTimeLoop.h: constructor")],
["exit status of the program, files written"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
