BASE = ["amr", "mpi"]
TARGETS = {
    "drv_mesh": {"drivers": ["drv_mesh.cpp", "drv_mesh_old.cpp", "drv_mesh_lb.cpp"], "folders": BASE},
    "drv_cells": {"drivers": ["drv_cells.cpp", "drv_cells_comm.cpp"], "folders": BASE},
    "drv_hydro": {"drivers": ["drv_hydro.cpp", "drv_hydro_flux.cpp"], "folders": BASE + ["hydro", "compute_dt", "legacy"]},
    "drv_physics": {"drivers": ["drv_physics.cpp", "drv_physics_exact.cpp"], "folders": BASE + ["hydro", "compute_dt", "legacy", "parabolic", "gravity"]},
    "drv_particles": {"drivers": ["drv_particles.cpp"], "folders": BASE + ["particles"]},
    "drv_config": {"drivers": ["drv_config.cpp", "drv_timers.cpp"], "folders": []},
    "drv_gravity": {"drivers": ["drv_gravity.cpp"], "folders": BASE + ["gravity"]},
    "drv_diffusion": {"drivers": ["drv_diffusion.cpp"], "folders": BASE + ["parabolic", "cooling"]},
    "drv_refine": {"drivers": ["drv_refine.cpp"], "folders": BASE + ["refine_condition", "legacy", "particles"]},
    "drv_io": {"drivers": ["drv_io.cpp"], "folders": BASE + ["io", "init", "legacy", "particles"]},
    "drv_init": {"drivers": ["drv_init.cpp"], "folders": BASE + ["init", "legacy", "particles"]},
    "drv_run": {"drivers": ["drv_run.cpp", "drv_run_steps.cpp", "drv_run_more.cpp"], "folders": BASE + ["hydro", "compute_dt", "legacy", "gravity", "particles", "io", "init", "parabolic", "cooling", "refine_condition"]},
    "drv_data": {"drivers": ["drv_data.cpp", "drv_data_comm.cpp"], "folders": BASE},
}
