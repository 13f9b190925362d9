"""What each check runs.  count = number of generated cases of the job; shards split it over processes."""


def J(np, count, threads=1, shards=1, **k):
    return dict(np=np, count=count, threads=threads, shards=shards, **k)


PLAN = {}

PLAN["C01"] = dict(
    driver="drv_mesh",
    rule="a case = mesh configuration (dimension, coarse grid, periodicity, level range) plus a history of marker/"
         "adapt/global-refine/load-balance steps; non-trivial when the final mesh has at least two levels; "
         "distinct by the drawn choices",
    quick=[J(1, 4000, shards=3), J(2, 3500), J(3, 2500), J(4, 2000), J(5, 1200)],
    thorough=[J(1, 150000, shards=4), J(2, 100000, shards=2), J(3, 80000, shards=2), J(4, 60000), J(6, 30000), J(1, 5000, mode="asan", shards=2), J(3, 4000, mode="dbg")])
PLAN["C02"] = dict(PLAN["C01"], rule="a case = mesh history ending in one adapt with drawn markers, compared octant by octant to a reference "
                   "2:1-balance algorithm; non-trivial when a split or merge was forced or refused by the balance rule; distinct by the drawn choices")
PLAN["C03"] = dict(PLAN["C01"], rule="a case = mesh history, then every local block x every direction of the neighbour query and random positions "
                   "compared to a brute-force search of the gathered mesh; non-trivial when a neighbour of another level or of another process was involved")
PLAN["C02"]["quick"] = PLAN["C03"]["quick"] = [J(1, 2000, shards=2), J(2, 1600), J(3, 1300), J(4, 1000), J(5, 600)]
PLAN["C04"] = dict(PLAN["C01"], rule="a case = mesh history carrying random fields, then a load balance of drawn family depth; non-trivial when at "
                   "least one block changed owner (on one process: when the mesh has two levels)")
_CELLS_Q = [J(1, 3000, shards=2), J(1, 2000, threads=3), J(2, 2500), J(3, 2000), J(4, 1500)]
_CELLS_T = [J(1, 150000, shards=3), J(1, 60000, threads=3), J(2, 100000, shards=2), J(3, 80000), J(5, 40000), J(1, 5000, mode="asan", shards=2), J(2, 3000, mode="dbg")]
PLAN["C05"] = dict(
    driver="drv_cells", quick=_CELLS_Q, thorough=_CELLS_T,
    rule="a case = adapted mesh, block size, group size, thread count, physical box and positions; visit counts, reductions, patch temporaries, "
         "cell size/centre and position look-ups compared to the hierarchy; non-trivial when a process owns at least 2 blocks of at least 2 cells")
PLAN["C06"] = dict(
    driver="drv_cells",
    quick=[J(1, 1200, shards=2), J(1, 800, threads=2), J(2, 1200), J(3, 1000)],
    thorough=[J(1, 60000, shards=3), J(2, 50000, shards=2), J(3, 40000, shards=2), J(4, 20000), J(1, 2000, mode="asan", shards=2)],
    rule="a case = adapted mesh with per-cell values; every cell x every offset up to the stencil width is looked up and compared to a geometric "
         "search of the gathered mesh (status, designated cells, values read, iteration over smaller cells); non-trivial when blocks of different level touch")
PLAN["C08"] = dict(
    driver="drv_cells",
    quick=[J(1, 1500), J(2, 4000), J(3, 3000), J(4, 2500), J(5, 1500)],
    thorough=[J(2, 150000, shards=2), J(3, 100000, shards=2), J(4, 80000, shards=2), J(6, 40000), J(2, 3000, mode="asan"), J(3, 3000, mode="dbg")],
    rule="a case = adapted mesh distributed over processes, several fields in shuffled storage, ghost width and communicator kind; every readable ghost "
         "cell is compared to its owner's value and reduced sums to the reference; non-trivial when at least one process has ghosts and a cell needs exchange (np=1: always trivial exchange, checked for no change)")
PLAN["C09"] = dict(
    driver="drv_cells",
    quick=[J(1, 2500, shards=2), J(1, 1500, threads=2), J(2, 3000), J(3, 2500), J(4, 2000)],
    thorough=[J(1, 120000, shards=2), J(2, 100000, shards=2), J(3, 80000, shards=2), J(4, 60000), J(5, 30000), J(1, 3000, mode="asan"), J(2, 3000, mode="dbg")],
    rule="a case = mesh with random, constant and extreme fields, adapted with drawn markers (families may be split over processes) and remapped, 1-3 cycles; "
         "every new cell is compared to the value derived from the old mesh; non-trivial when at least one block was split or merged")
PLAN["C07"] = dict(
    driver="drv_data",
    quick=[J(1, 12000, shards=2), J(1, 4000, threads=2), J(2, 8000), J(3, 6000), J(4, 4000)],
    thorough=[J(1, 500000, shards=3), J(2, 300000, shards=2), J(3, 200000, shards=2), J(4, 100000), J(1, 6000, mode="asan", shards=2), J(2, 3000, mode="asan"), J(2, 5000, mode="dbg")],
    rule="a case = 1-25 operations on a UserData (new / write / move / delete of fields and particle attributes, refused requests, mesh changes, load balance, particle "
         "redistribution) checked after each one against a model dictionary; non-trivial when at least one live entry was renamed, replaced or deleted")
PLAN["C17"] = dict(
    driver="drv_data",
    quick=[J(1, 5000), J(1, 3000, threads=3), J(2, 8000), J(3, 6000), J(4, 5000), J(5, 3000)],
    thorough=[J(1, 50000), J(2, 200000, shards=2), J(3, 150000, shards=2), J(4, 120000), J(6, 50000), J(2, 4000, mode="asan"), J(3, 4000, mode="dbg")],
    rule="a case = one or two particle arrays with identified particles (anywhere, exactly on block walls, next to domain faces, created unevenly) and 1-6 "
         "move / adapt / load-balance / redistribute steps; non-trivial when particles changed process (np=1: when there are particles)")
PLAN["C17"]["quick"] = [J(1, 3000), J(1, 1500, threads=3), J(2, 5000), J(3, 3500), J(4, 2500), J(5, 1500)]
_HY_T = [J(1, 40000, shards=3), J(1, 10000, threads=3), J(2, 30000, shards=2), J(3, 20000), J(4, 10000), J(1, 800, mode="asan", shards=2)]
PLAN["C10"] = dict(
    driver="drv_hydro", quick=[J(1, 2400, shards=2), J(1, 600, threads=2), J(2, 1200), J(3, 1000)], thorough=_HY_T,
    rule="a case = periodic adapted mesh, distribution over processes, state (random, smooth, jump, uniform), scheme, solver, gamma, step size and one or two steps; totals before and after "
         "are compared in extended precision; non-trivial when the initial state varies in space",
    assumptions=["second-order patch schemes (hancock) claim conservation on single-level meshes only", "cases where the positivity floor acted are skipped and labelled",
                 "patch schemes next to level jumps need blocks of at least 4 cells (documented limit of getNeighbor_ghost)"])
PLAN["C11"] = dict(
    driver="drv_hydro", quick=[J(1, 2200, shards=2), J(1, 500, threads=2), J(2, 1100), J(3, 900)], thorough=_HY_T,
    rule="a case = adapted mesh, state, scheme, sides and a symmetry (axis exchange, mirror, periodic shift), or a uniform state; both problems are run and compared cell by cell; every case with an "
         "evolving or a uniform state counts as non-trivial unless the positivity floor acted",
    known=[dict(prop="C11_glm", what="GLM schemes damp psi between the axis sweeps (HydroUpdate_utils.h euler_update), so exchanging x and y changes the result (GLMMHDUpdate_euler, 2D, 8x8 cells)")])
PLAN["C13"] = dict(
    driver="drv_hydro", quick=[J(1, 600000, shards=6)], thorough=[J(1, 60000000, shards=8), J(1, 200000, mode="asan", shards=2)],
    rule="a case = solver (hllc, five_waves, hlld, with and without GLM), gamma and a pair of admissible states over 8 decades (independent, equal, small jump, contact, supersonic); flux against consistency, "
         "mirror, upwind, contact and linearised oracles, and conversion round trips; non-trivial when the states differ",
    assumptions=["the floors smallr/smallp are set low enough not to act (default floors: known finding)"],
    known=[dict(prop="C13_floor", what="hllc with the default floors uses smallc=sqrt(smallp*gamma/smallr)=1.18 as a lower bound of the sound speed, so a supersonic flow with a smaller sound speed is not upwinded (rho=1 u=0.9 p=0.01|0.02)")])
PLAN["C14"] = dict(
    driver="drv_hydro", quick=[J(1, 4000, shards=2), J(1, 1500, threads=3), J(2, 1800), J(3, 1800)],
    thorough=[J(1, 150000, shards=3), J(2, 80000, shards=2), J(3, 80000, shards=2), J(4, 40000), J(1, 2000, mode="asan", shards=2)],
    rule="a case = adapted distributed mesh, state, kernel (hydro / MHD / parabolic / particles / cosmology) and CFL numbers; the returned step is compared to the minimum over all cells computed from the gathered "
         "state; non-trivial when the state varies or particles exist")
PLAN["C15"] = dict(
    driver="drv_hydro", quick=[J(1, 2400, shards=2), J(1, 600, threads=2), J(2, 1200), J(3, 1000)], thorough=_HY_T,
    rule="a case = adapted mesh with drawn conditions on every side, state, scheme; mass and energy budget of closed and open sides, equality with a mirror-image periodic box, equality with a domain extended by "
         "repeated cells; non-trivial when the state varies",
    known=[dict(prop="C15_corner", what="HydroUpdate_hancock: ghost cells beyond a wall and beside the block are mirrored in both axes (BoundaryConditions.h getBoundaryValue), a closed box of 2x2 blocks gains mass")],
    assumptions=["MHD: only mass is claimed at reflecting sides (the field is not mirrored)", "hancock: cells touching a wall and, sideways, another block are excluded (known finding)"])
PLAN["C18"] = dict(
    driver="drv_particles",
    quick=[J(1, 5000), J(1, 1500, threads=3), J(2, 2500), J(3, 2000), J(4, 1500)],
    thorough=[J(1, 200000, shards=2), J(1, 40000, threads=3), J(2, 100000, shards=2), J(3, 80000), J(4, 60000), J(2, 4000, mode="asan"), J(2, 4000, mode="dbg")],
    rule="a case = adapted mesh, distributed particles (anywhere, next to walls, at cell centres, exactly on walls, clustered) and one deposition or one motion kernel with uniform or random field; deposited mass per cell, "
         "per region and in total, and every velocity and position are compared to a geometric reference; non-trivial when there are particles and a cloud covers a level jump, a particle leaves the box or several processes share the work",
    assumptions=["cloud-in-cell needs a periodic domain (the code has no rule for clouds over a wall)", "deposition starts from a new rho_g field, as in the time loop", "displacements stay below one box length"])
PLAN["C16"] = dict(
    driver="drv_gravity",
    quick=[J(1, 900, shards=2), J(1, 250, threads=2), J(2, 400), J(3, 320)],
    thorough=[J(1, 20000, shards=3), J(1, 4000, threads=3), J(2, 8000, shards=2), J(3, 6000), J(4, 4000), J(1, 200, mode="asan", shards=2)],
    rule="a case = adapted 3D mesh, sides (periodic, absorbing, closed), density (random, blob, smooth, 8 decades, uniform), starting potential (zero, random, large, constant), tolerance, cosmology on or off; the stored potential is put "
         "into an independent discrete Poisson operator and the force compared to its gradient; or a point-mass field compared to its closed form; non-trivial when the force is not zero",
    assumptions=["the caller exchanged the ghosts of the starting potential, as the time loop does", "with closed sides the source may or may not have its mean removed"])

PLAN["C19"] = dict(
    driver="drv_refine",
    quick=[J(1, 3000, shards=2), J(1, 800, threads=2), J(2, 2000), J(3, 1800)],
    thorough=[J(1, 120000, shards=3), J(1, 10000, threads=3), J(2, 40000, shards=2), J(3, 40000), J(4, 20000), J(1, 1500, mode="asan", shards=2)],
    rule="a case = adapted mesh, one of the five criteria, fields (smooth, spikes, noise, steps, uniform), thresholds placed between values that occur; the indicator of every cell is recomputed from its definition and the mesh after "
         "adapting compared to the one expected from the marks; non-trivial when at least one block is refined or coarsened",
    assumptions=["marks are observed through the adapted mesh (C02 decides adaptation itself)", "even block sizes", "cells exactly at a threshold are not generated"])

PLAN["C24"] = dict(
    driver="drv_diffusion",
    quick=[J(1, 2000, shards=2), J(1, 500, threads=2), J(2, 1300), J(3, 1200)],
    thorough=[J(1, 60000, shards=3), J(1, 8000, threads=3), J(2, 25000, shards=2), J(3, 20000), J(4, 10000), J(1, 1000, mode="asan", shards=2)],
    rule="a case = adapted mesh, conduction (constant or layered conductivity), viscosity or cooling, fields (random, smooth, uniform velocity and temperature, rare peaks), coefficients, time step; every cell is compared to the operator "
         "recomputed from its definition and integrals to zero; non-trivial when the operator is not zero everywhere",
    assumptions=["viscosity is decided with periodic sides; at a level jump the neighbour is the mean of the smaller cells or the larger cell itself", "block size 4 where the mesh has several levels, as for every patch scheme"])

PLAN["C20"] = dict(
    driver="drv_io",
    quick=[J(1, 1500), J(2, 1500), J(3, 1500), J(4, 1000), J(1, 120, driver="drv_run", prop="C20_run"), J(2, 120, driver="drv_run", prop="C20_run"), J(3, 60, driver="drv_run", prop="C20_run")],
    thorough=[J(1, 60000), J(2, 60000, shards=2), J(3, 60000, shards=2), J(4, 40000), J(5, 20000), J(2, 1500, mode="asan"),
              J(1, 3000, driver="drv_run", prop="C20_run"), J(2, 3000, driver="drv_run", prop="C20_run"), J(3, 1500, driver="drv_run", prop="C20_run"), J(4, 600, driver="drv_run", prop="C20_run")],
    rule="a case = adapted mesh, fields, particle arrays and attributes, scalars, distribution over processes; a checkpoint is written on one number of processes and read on another; blocks, cells, particles and scalars are "
         "compared bitwise as sets; or a whole run and one stopped and continued from a checkpoint on another number of processes, compared at the end; non-trivial when the mesh has several levels, the number of processes changes or a run is continued",
    assumptions=["fields, particles and time are compared bitwise; which process holds a particle right after the restart component is not claimed"])
PLAN["C21"] = dict(
    driver="drv_io",
    quick=[J(1, 700), J(2, 600), J(3, 600), J(4, 400)],
    thorough=[J(1, 60000), J(2, 60000, shards=2), J(3, 60000, shards=2), J(4, 40000), J(5, 20000), J(2, 1500, mode="asan")],
    rule="a case = adapted mesh, fields, particles, list of written variables, precision; the HDF5 file is read back and every cell (corners, value of each variable) and particle compared to the state; the XMF file must describe the HDF5 "
         "file (sizes, names, types); non-trivial when the mesh has several levels or several processes write",
    assumptions=["order of cells and particles in the file is free", "the time in the XMF file has 6 digits"])
PLAN["C22"] = dict(
    driver="drv_config",
    quick=[J(1, 30000, shards=2, mode="chk"), J(2, 10000, mode="chk"), J(3, 5000, mode="chk")],
    thorough=[J(1, 1000000, shards=3, mode="chk"), J(2, 300000, mode="chk", shards=2), J(3, 100000, mode="chk"), J(1, 20000, mode="asan", shards=2)],
    rule="a case = a parameter file assembled from sections, keys, spaces, comments, repeated keys, defaults, types and malformed values; every value read is compared to a reference reader; last.ini is read again; non-trivial when a value "
         "of the file is read",
    assumptions=["continuation lines and values beginning with ';' are not generated (inih extensions)"])
PLAN["C25"] = dict(
    driver="drv_config",
    quick=[J(1, 4000, shards=6, mode="chk")],
    thorough=[J(1, 60000, shards=8, mode="chk"), J(1, 3000, mode="asan", shards=4)],
    rule="a case = density parameters, first expansion factor and Hubble constant; expansion -> time, time -> expansion, time step conversions against an independent quadrature of the Friedmann equation (long double), monotone and inverse "
         "to each other; every case is non-trivial",
    assumptions=["a_start >= 0.002 and models that expand over the whole range"])
PLAN["C26"] = dict(
    driver="drv_init",
    quick=[J(1, 6000), J(1, 2000, threads=3), J(2, 4000), J(3, 4000), J(4, 2000)],
    thorough=[J(1, 150000, shards=3), J(1, 20000, threads=3), J(2, 60000, shards=2), J(3, 60000), J(4, 30000), J(1, 5000, mode="asan", shards=2), J(1, 10000, mode="dbg")],
    rule="a case = one of the named initial conditions (analytical problems, particle lists, particle grids, grafic files), its parameters, mesh and distribution over processes; every cell and particle is compared to the formula, list or "
         "file it comes from and the mesh to the refinement criterion; non-trivial when some values differ from cell to cell or particles exist",
    assumptions=["cells and blocks that the formula or criterion puts within rounding of a discontinuity are skipped", "drawn perturbations (multi-mode Rayleigh-Taylor, tri-layer) are checked to stay within their configured amplitude where it is drawn and to be exact elsewhere; wholesun is not generated"],
    known=[dict(prop="C26_kh", what="kelvin_helmholtz: KH/a (shear layer width) and KH/A (amplitude) are the same parameter because names are case-insensitive, the documented pair a=0.05 A=0.01 cannot be set")])

PLAN["C12"] = dict(
    driver="drv_run",
    quick=[J(1, 180), J(1, 130, threads=3), J(2, 260), J(3, 200), J(4, 130), J(2, 60, threads=2)],
    thorough=[J(1, 4000, shards=2), J(1, 2500, threads=3), J(2, 5000, shards=2), J(3, 4000), J(4, 2000), J(5, 800), J(2, 1500, threads=2), J(2, 60, mode="asan")],
    rule="a case = a whole parameter file (problem, scheme, mesh, boundaries, gravity, particles, diffusion, refinement, frequencies) run for 1 to 5 steps on one process and one thread, and again on other numbers of processes, threads, "
         "group sizes, load balancing periods; mesh, fields, particles and clock of the final checkpoint are compared; non-trivial when the mesh has more than one block",
    assumptions=["runs without sums over cells or particles agree to 1e-12 of the largest value, those with self-gravity or deposited particles to 3e-7 (the solver stops at 1e-6)", "at least as many coarse blocks as processes"])
PLAN["C23"] = dict(
    driver="drv_run",
    quick=[J(1, 350), J(1, 350), J(2, 300), J(3, 150)],
    thorough=[J(1, 15000, shards=3), J(2, 6000, shards=2), J(3, 2500), J(1, 200, mode="asan")],
    rule="a case = a run with iteration limit, end time or expansion factor, output and checkpoint frequencies and intervals, restarted counters; the iterations at which files are written and the run ends are compared with the rule applied to "
         "the times of a companion run; non-trivial when a trigger or end time is set",
    assumptions=["a trigger within 1e-9 (relative) of its interval may go either way", "the end time is met within 2 ulp, an end expansion factor within the interpolation error of the table"])

PLAN["C27"] = dict(
    driver="drv_hydro", quick=[J(1, 5000, shards=2), J(1, 1000, threads=2), J(2, 2500), J(3, 2500)], thorough=_HY_T,
    rule="a case = adapted distributed mesh, scheme, state, acceleration (constant, or stored per cell and varying), step size and one oracle: momentum budget, source of one step against the same step without gravity, free fall, "
         "hydrostatic balance with well-balanced fluxes, mass and energy of a closed box; non-trivial when some acceleration is not zero and the positivity floor did not act",
    assumptions=["hydrostatic balance and the energy of a closed box are decided on meshes of one level", "schemes whose energy source is an average over the step are compared in the limit of a small step, and in free fall within rho g^2 dt^2/2 per step"])

PLAN["C28"] = dict(
    driver="drv_run", technique="property-based testing with fault injection: signals raised at generated points of generated runs, compared with the uninterrupted run",
    quick=[J(1, 180), J(2, 180), J(3, 90), J(4, 60)],
    thorough=[J(1, 6000, shards=2), J(2, 6000, shards=2), J(3, 2500), J(4, 1500), J(2, 100, mode="asan")],
    rule="a case = a parameter file, a step, a number of MPI calls into the step and a set of processes; SIGINT is raised there on these processes (synchronously, between MPI calls or while the time step is computed); the iteration at which all "
         "processes end, the final files and the continued run are compared with an uninterrupted run; non-trivial when a signal was delivered",
    assumptions=["signals are raised from the code's own MPI calls and time step kernels, not at arbitrary instructions (the handler writes to std::cout)"])

PLAN["C29"] = dict(
    driver="drv_data", technique="property-based testing against a reference model: generated exchange patterns and operations computed in full on every process",
    quick=[J(1, 3000), J(2, 20000), J(3, 20000), J(4, 15000), J(6, 4000), J(3, 5000, threads=3)],
    thorough=[J(1, 50000), J(2, 400000, shards=2), J(3, 400000, shards=2), J(4, 300000), J(5, 100000), J(7, 60000), J(3, 20000, mode="asan")],
    rule="a case = an exchange (pattern, constructor, array rank, distributed dimension, layout and type, exchange or reduction, once or twice) or an operation of MpiComm (operation, element type, counts, in place or not), on all processes or one "
         "half of them; every received item and the sender's arrays are compared with the values computed from the description; non-trivial when every process group moves at least one object or item between processes or to itself",
    assumptions=["values are integers so that sums do not depend on the order; no process sends to itself in reductions"])

PLAN["C30"] = dict(
    driver="drv_physics", technique="property-based testing with metamorphic relations: the same problem in other units, and extruded into a further dimension",
    quick=[J(1, 5000, shards=2), J(2, 2500), J(3, 1500), J(1, 800, threads=2)],
    thorough=[J(1, 150000, shards=3), J(2, 60000, shards=2), J(3, 30000), J(1, 3000, mode="asan"), J(2, 3000, mode="dbg")],
    rule="a case = a generated state on an adapted mesh and one operator (hydro or MHD update with time step and gravity, viscosity or conduction, self-gravity), run once and once in units scaled by powers of two (results must be the scaled ones), "
         "or a 2D state and its extrusion along z; non-trivial when the state is not uniform and the operator changed it",
    assumptions=["factors are powers of two, so results differ by at most rounding of powers and square roots", "five_waves adds 1e-16 to wave speeds: the unit of the field is not made tiny", "floors (smallr, smallp) are scaled with the units; smalle is without unit"],
    known=[dict(prop="C30_dt", what="the time step of viscosity and conduction ignores the density: it changes with the unit of mass")])
PLAN["C31"] = dict(
    driver="drv_physics", technique="property-based testing against exact solutions, with the metamorphic relation between resolutions (order of convergence)",
    quick=[J(1, 240, shards=3), J(2, 100)],
    thorough=[J(1, 4000, shards=5), J(2, 3000), J(3, 1000), J(1, 400, mode="asan")],
    rule="a case = wave or shock tube, state, axis, dimension, scheme, Riemann solver, box, optionally half of the domain one level finer; the L1 error on two meshes is compared with bounds and with each other; non-trivial when the coarse error is larger than 1e-3 of the scale (1e-8 for waves that are exact solutions)",
    assumptions=["bounds on the ratio of errors leave a margin over what was observed in 10^4 cases (second order: 0.42 on one level where 0.25 is the limit)", "shock tubes without vacuum and with flow of at most Mach 1 so that the structures are resolved"])
PLAN["C32"] = dict(
    driver="drv_run", technique="property-based testing with metamorphic relations between whole runs",
    quick=[J(1, 160), J(2, 110), J(3, 60), J(1, 50, threads=2)],
    thorough=[J(1, 6000, shards=2), J(2, 4000, shards=2), J(3, 2000), J(4, 800), J(1, 1500, threads=3), J(2, 60, mode="asan")],
    rule="a case = a parameter file run three times on the same processes: alone, again, and with generated output, checkpoints, logging and tracers; final checkpoints are compared bit by bit (one thread) or within rounding; every case is non-trivial",
    assumptions=["with several threads sums may change their order: 1e-12 or 3e-7 as in C12"])
PLAN["C33"] = dict(
    driver="drv_run", technique="property-based testing against a reference model: the step composed of the single operators",
    quick=[J(1, 400, shards=2), J(2, 300), J(3, 150), J(2, 60, threads=2)],
    thorough=[J(1, 12000, shards=2), J(2, 9000, shards=2), J(3, 4000), J(4, 1500), J(2, 150, mode="asan")],
    rule="a case = a parameter file with any combination of hydro, MHD, gravity, particles, viscosity, conduction, cooling, cosmology, limits of the time step, refinement and start values; the final checkpoint of the run is compared with "
         "the one of the operators called one by one by the driver; non-trivial when the mesh has more than one block",
    assumptions=["the operators themselves are taken from the code (C10-C19, C24 and C27 decide them)"])
PLAN["C34"] = dict(
    driver="drv_config", technique="stateful property-based testing against a reference model of the timer tree, under a clock owned by the harness",
    quick=[J(1, 60000, shards=3, mode="chk"), J(1, 120, driver="drv_run", prop="C34_run"), J(2, 120, driver="drv_run", prop="C34_run"), J(3, 80, driver="drv_run", prop="C34_run"), J(4, 40, driver="drv_run", prop="C34_run")],
    thorough=[J(1, 6000000, shards=4, mode="chk"), J(1, 50000, mode="asan", shards=2), J(2, 4000, driver="drv_run", prop="C34_run"), J(3, 3000, driver="drv_run", prop="C34_run"), J(4, 1500, driver="drv_run", prop="C34_run")],
    rule="a case = one or two trees of timers and 1-40 operations (section begins, ends, kept timer started or stopped out of order, time passes, one timer read), then list and printed summary compared with the model; or a whole run whose timers.txt is read back; "
         "non-trivial when a section was timed while time passed, or the run looked at the clock more than 30 times",
    assumptions=["the clock is replaced through omp_get_wtime; should the code use another clock, times are compared with the real one within milliseconds"])
PLAN["C35"] = dict(
    driver="drv_run", technique="property-based testing: generated valid configurations spoiled in one place, run as a program of their own",
    quick=[J(1, 600, shards=4)],
    thorough=[J(1, 20000, shards=8)],
    rule="a case = a generated valid parameter file and one spoiled name (of 18 settings, 7 ways), one value that cannot be read (16 settings) or one incompatible combination (15 kinds, missing and malformed files included); the program must end with an error and without snapshots; one case in four also runs the file unspoiled; every case is non-trivial",
    assumptions=["settings written as numbers are valid names of boundary types and Riemann solvers", "a negative level_max (with level_min=0) is not generated: it is taken modulo 256", "one process; any exit other than success, or an abort, is an error, a segmentation fault is not"])
