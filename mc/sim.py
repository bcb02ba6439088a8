"""Helpers that build configurations and run the repository's Simulation on every rank of a model world."""
import os

import numpy as np

SECTION = {
    "equations": "General", "depth_approx": "General", "desired_device": "System",
    "case_number": "Test_case", "matsuno_wave_type": "Test_case", "matsuno_amp": "Test_case",
    "bubble_theta": "Test_case", "bubble_rad": "Test_case",
    "dt": "Time_integration", "t_end": "Time_integration", "time_integrator": "Time_integration",
    "tolerance": "Time_integration", "starting_step": "Time_integration", "exponential_solver": "Time_integration",
    "krylov_size": "Time_integration", "jacobian_method": "Time_integration", "linear_solver": "Time_integration",
    "gmres_restart": "Time_integration", "exode_method": "Time_integration", "exode_controller": "Time_integration",
    "verbose_solver": "Time_integration",
    "discretization": "Grid", "num_solpts": "Spatial_discretization",
    "num_elements_horizontal": "Spatial_discretization", "num_elements_vertical": "Spatial_discretization",
    "filter_apply": "Spatial_discretization", "filter_order": "Spatial_discretization",
    "filter_cutoff": "Spatial_discretization",
    "expfilter_apply": "Spatial_discretization", "expfilter_order": "Spatial_discretization",
    "expfilter_strength": "Spatial_discretization", "expfilter_cutoff": "Spatial_discretization",
    "apply_sponge": "Spatial_discretization", "sponge_tscale": "Spatial_discretization",
    "sponge_zscale": "Spatial_discretization",
    "grid_type": "Grid", "lambda0": "Grid", "phi0": "Grid", "alpha0": "Grid", "ztop": "Grid",
    "x0": "Grid", "x1": "Grid", "z0": "Grid", "z1": "Grid",
    "output_dir": "Output_options", "output_freq": "Output_options", "stat_freq": "Output_options",
    "save_state_freq": "Output_options", "store_solver_stats": "Output_options",
    "solver_stats_file": "Output_options", "base_output_file": "Output_options", "store_total_time": "Output_options",
    "output_format": "Output_options",
}

SW = {
    "equations": "shallow_water", "grid_type": "cubed_sphere", "lambda0": 0.3, "phi0": 0.5, "alpha0": 0.2,
    "case_number": 6, "dt": 600.0, "t_end": 1800.0, "time_integrator": "tvdrk3", "tolerance": 1e-8,
    "num_solpts": 3, "num_elements_horizontal": 4, "output_freq": 0, "stat_freq": 0, "output_dir": "results",
    "exponential_solver": "pmex",
}
EULER = {
    "equations": "euler", "grid_type": "cubed_sphere", "lambda0": 0.0, "phi0": 0.0, "alpha0": 0.0,
    "case_number": 31, "dt": 1.0, "t_end": 3.0, "time_integrator": "tvdrk3", "tolerance": 1e-7, "ztop": 10000.0,
    "num_solpts": 2, "num_elements_horizontal": 4, "num_elements_vertical": 2, "output_freq": 0, "stat_freq": 0,
    "output_dir": "results",
}
BUBBLE = {
    "equations": "euler", "grid_type": "cartesian2d", "x0": 0, "x1": 1000, "z0": 0, "z1": 1500,
    "case_number": 2, "bubble_theta": 303.15, "bubble_rad": 250.0, "dt": 0.5, "t_end": 2.0,
    "time_integrator": "tvdrk3", "tolerance": 1e-7, "num_solpts": 3, "num_elements_horizontal": 3,
    "num_elements_vertical": 4, "output_freq": 0, "stat_freq": 0, "output_dir": "results",
}


def text(**options):
    sections = {}
    for k, v in options.items():
        if v is None:
            continue
        if isinstance(v, bool):
            v = int(v)
        sections.setdefault(SECTION[k], []).append(f"{k} = {v!r}" if isinstance(v, float) else f"{k} = {v}")
    return "\n".join(f"[{s}]\n" + "\n".join(lines) + "\n" for s, lines in sections.items())


def config(base, **options):
    from common import Configuration, load_default_schema

    o = dict(base)
    o.update(options)
    return Configuration(text(**o), load_default_schema())


def make(base, comm=None, **options):
    from mpi4py import MPI
    from simulation import Simulation

    return Simulation(config(base, **options), comm=comm if comm is not None else MPI.COMM_WORLD)


def warm():
    """Import everything once so that forked ranks start quickly."""
    import simulation  # noqa
    import netCDF4  # noqa
    import scipy.sparse.linalg  # noqa
    import pde  # noqa


def tile_slices(rank, lines, ne_tile, batch_dims):
    """Index of the part of a panel-wide array owned by a rank: (panel, ..., rows, cols, ...)"""
    per = lines * lines
    panel, r = divmod(rank, per)
    row, col = divmod(r, lines)
    return panel, slice(row * ne_tile, (row + 1) * ne_tile), slice(col * ne_tile, (col + 1) * ne_tile)


def assemble(tiles, num_dim):
    """Place the tiles of all ranks into one (6, ...) array; horizontal element dims are num_dim-2, num_dim-1.
    Independent of the repository's gather."""
    n = len(tiles)
    lines = int(round((n / 6) ** 0.5))
    t0 = np.asarray(tiles[0])
    ne = t0.shape[num_dim - 1]
    sh = list(t0.shape)
    sh[num_dim - 2] *= lines
    sh[num_dim - 1] *= lines
    out = np.empty((6, *sh), dtype=t0.dtype)
    for r, t in enumerate(tiles):
        p, rows, cols = tile_slices(r, lines, ne, 0)
        idx = [p] + [slice(None)] * (num_dim - 2) + [rows, cols]
        out[tuple(idx)] = t
    return out
