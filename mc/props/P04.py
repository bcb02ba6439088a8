"""Partition independence: the same problem on 6, 24, 54, ... processes has the same grid, initial state, tendencies,
time steps, diagnostics."""
import os
import re

import numpy as np

from .. import repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
CASE_TIMEOUT = 600
RULE = (
    "one evaluation = one global field (initial state, tendency of a state, state after k steps, printed global "
    "diagnostics) on p processes compared with the same field on 6 processes; distinct by (problem, integrator/solver, "
    "process count, schedule)"
)
ASSUMPTIONS = [
    "agreement up to rounding (relative 1e-9 for one tendency, solver tolerance for implicit steps)",
    "the states used excite every edge of every tile (pseudo-random perturbation at every grid point)",
]


def bounds(tier):
    return {
        "process counts": [6, 24, 54] if tier == "quick" else [6, 24, 54, 96],
        "elements per side": "4, 6 (8 with 96 processes)",
        "points per element": "2-4 (shallow water), 2-3 (Euler)",
        "problems": "shallow water 2, 5, 6; Euler 21, 22, 31, 77; three grid orientations",
        "integrators": "all that run on the sphere; all exponential solvers in thorough",
        "schedules": "all-at-once / one-at-a-time descending / one rank late, early and late buffers",
    }


def noise(idx, k):
    """Deterministic value in [-1, 1] of an integer array."""
    x = np.sin(idx * 12.9898 + k * 78.233 + 1.0) * 43758.5453
    return 2.0 * (x - np.floor(x)) - 1.0


def global_index(rank, lines, shape, nd):
    """Index of each entry of one variable of a tile in the global (6 panels) array."""
    one = shape[1:]
    ne = one[nd - 3 + 1] if False else one[-2]
    full = list(one)
    full[-2] *= lines
    full[-3] *= lines
    g = np.arange(6 * int(np.prod(full))).reshape([6] + full)
    p, rows, cols = sim.tile_slices(rank, lines, ne, 0)
    return g[tuple([p] + [slice(None)] * (len(one) - 3) + [rows, cols, slice(None)])]


def perturbed(q, rank, lines, euler, amp=1e-3):
    idx = global_index(rank, lines, q.shape, q.ndim).astype(float)
    out = np.array(q)
    mom = [1, 2] if not euler else [1, 2, 3]
    for k in range(q.shape[0]):
        if k in mom:
            continue
        out[k] = q[k] * (1.0 + amp * noise(idx, k))
    for k in mom:
        # contravariant momentum: mass times (velocity in radians per second)
        out[k] = q[k] * (1.0 + amp * noise(idx, k)) + out[0] * noise(idx, k + 7) * (1e-7 if k < 3 else 0.05)
    return out


def driver(rank, spec):
    base = sim.EULER if spec["eq"] == "euler" else sim.SW
    s = sim.make(base, **spec["opts"])
    lines = s.process_topo.num_lines_per_panel
    euler = spec["eq"] == "euler"
    out = {"init": np.array(s.initial_Q)}
    g = s.geometry
    out["lonlat"] = np.stack([np.array(g.lon), np.array(g.lat)]) if spec.get("grid") else None
    if spec.get("tendency", True):
        q = perturbed(s.initial_Q, rank, lines, euler)
        out["tendency"] = np.array(s.rhs.full(q))
        out["tendency again"] = np.array(s.rhs.full(perturbed(s.initial_Q, rank, lines, euler, 5e-4)))
    if spec.get("steps"):
        s.Q = perturbed(s.initial_Q, rank, lines, euler, 1e-4)
        if spec.get("stats"):
            s.output.step(s.Q, 0)
        for _ in range(spec["steps"]):
            s.step()
        out["state"] = np.array(s.Q)
    return out


def setup():
    repoenv.use_model_mpi()
    sim.warm()


def cases(tier, seed):
    T = tier == "thorough"
    rot = [(0.0, 0.0, 0.0), (0.3, 0.5, 0.2), (-1.2, 0.785398, 0.9)]
    big = [6, 24, 54]

    def c(eq, opts, **kw):
        d = {"eq": eq, "opts": opts, "counts": kw.pop("counts", [6, 24]), "tol": kw.pop("tol", 1e-9), **kw}
        return d

    def orient(k):
        return dict(zip(("lambda0", "phi0", "alpha0"), rot[k % 3]))

    k = 0
    for case in (2, 5, 6):
        for ns in (2, 3, 4):
            yield c("sw", {"case_number": case, "num_solpts": ns, "num_elements_horizontal": 6, **orient(k)},
                    counts=big, steps=2, stats=True, grid=True, variant=k)
            k += 1
    for case in (21, 22, 31, 77):
        for ns in (2, 3) if T or case in (31, 21) else (2,):
            o = {"case_number": case, "num_solpts": ns, "num_elements_horizontal": 6, "num_elements_vertical": 1 + k % 3}
            if case in (21, 22):
                o["ztop"] = 30000.0
            o["depth_approx"] = ["deep", "shallow"][k % 2]
            yield c("euler", o, counts=big, steps=2, grid=True, variant=k, tol=1e-8)
            k += 1
    ints = ["euler1", "epi2", "epi3", "srerk3", "epi_stiff3", "ros2", "rosexp2", "backward_euler", "bdf2", "crank_nicolson",
            "epi4", "epi5", "epi6", "epi_stiff4", "epi_stiff5", "srerk6", "tvdrk3"]
    for ti in ints:
        for eq in ("sw", "euler"):
            o = {"time_integrator": ti, "num_elements_horizontal": 4, "tolerance": 1e-9}
            if eq == "sw":
                o["num_solpts"] = 2
            imp = ti in ("ros2", "rosexp2", "backward_euler", "bdf2", "crank_nicolson")
            yield c(eq, o, steps=2, tendency=False, tol=1e-6 if imp else 1e-8, variant=k)
            k += 1
    for sol in (  # dcgs2 is wrong on any number of processes (finding of P16)
        "kiops", "pmex", "exode", "pmex_ne", "cwy_1s", "cwy_ne", "cwy_ne1s", "icwy_1s", "icwy_neiop",
        "icwy_ne", "icwy_ne1s", "kiops_ne", "pmex_1s", "pmex_ne1s",
    ):
        yield c("sw", {"time_integrator": "epi2", "exponential_solver": sol, "tolerance": 1e-9, "num_solpts": 2,
                       "num_elements_horizontal": 4}, steps=1, tendency=False, tol=1e-7, variant=k)
        k += 1
    yield c("sw", {"time_integrator": "epi2", "jacobian_method": "fd", "tolerance": 1e-7, "num_solpts": 2},
            steps=1, tendency=False, tol=1e-5, variant=k)
    yield c("sw", {"time_integrator": "ros2", "linear_solver": "gcrot", "tolerance": 1e-9, "num_solpts": 2},
            steps=1, tendency=False, tol=1e-5, variant=k + 1, label="gcrot: ")
    yield c("euler", {"expfilter_apply": True, "expfilter_order": 8, "expfilter_strength": 2.0, "expfilter_cutoff": 0.1,
                      "num_solpts": 3}, steps=2, tendency=False, variant=k + 2, tol=1e-8)
    if T:
        for eq in ("sw", "euler"):
            yield c(eq, {"num_elements_horizontal": 8}, counts=[6, 24, 96], steps=2, variant=k, tol=1e-8)


POLS = ["all", "desc", ("last", 0), "all", "asc", ("first", 3)]


def stats_of(path):
    with open(path) as f:
        return [(m.group(1).strip(), float(m.group(2))) for m in
                re.finditer(r"^([A-Za-z ]+?)\s*=\s*([-+0-9.eEinfa]+)\s*$", f.read(), re.M)]


def run_case(case):
    res = Result()
    ref = None
    refstats = None
    nd = 4 if case["eq"] == "euler" else 3
    for j, n in enumerate(case["counts"]):
        spec = {k: case[k] for k in ("eq", "steps", "tendency", "stats", "grid") if k in case}
        spec["opts"] = dict(case["opts"])
        if case.get("stats"):
            spec["opts"]["stat_freq"] = 1
        v = case.get("variant", 0)
        pol = POLS[(v + j) % len(POLS)] if n <= 24 else "all"
        opts = {"late_send": bool((v + j) % 2), "late_recv": bool((v + j) // 2 % 2), "stdout": os.path.abspath(f"o{n}.{{rank}}")}
        r = execute(n, driver, (spec,), policy=pol, opts=opts, timeout=400)
        res.states += r.states
        res.transitions += len(r.trace)
        if not r.ok:
            res.bad(case.get("label", "") + "run failed", f"{case} on {n} processes: {r.problem()}")
            return res
        keys = [k for k in ("lonlat", "init", "tendency", "tendency again", "state")
                if k in r.values[0] and r.values[0][k] is not None]
        cur = {}
        for k in keys:
            cur[k] = sim.assemble([val[k] for val in r.values], 3 if k == "lonlat" else nd)
        if ref is None:
            ref = cur
            for k in keys:
                res.check(np.all(np.isfinite(cur[k])), f"{k} finite", f"{case}: {k} has non-finite values on {n} processes")
        else:
            for k in keys:
                tol = {"lonlat": 1e-11, "init": 1e-12, "tendency": 1e-9, "tendency again": 1e-9, "state": case["tol"]}[k]
                a, b = ref[k], cur[k]
                if a.shape != b.shape:
                    res.check(False, k, f"{case}: {k} has shape {b.shape} on {n} processes, {a.shape} on 6")
                    continue
                worst = 0.0
                for var in range(a.shape[1]):
                    d = np.abs(a[:, var] - b[:, var])
                    if k == "lonlat":
                        d = np.minimum(d, np.abs(2 * np.pi - d))
                        sc = 1.0
                        # longitude is irrelevant at the poles
                        d = d * np.cos(a[:, 1]) if var == 0 else d
                    else:
                        sc = np.max(np.abs(a[:, var]))
                        if sc == 0.0:
                            sc = 1e-300
                    worst = max(worst, np.max(d) / sc)
                res.check(worst <= tol, case.get("label", "") + k, lambda: f"{case}: {k} on {n} processes differs from 6 processes by "
                          f"{worst:.2e} (relative, allowed {tol:.0e}) policy={pol}")
        if case.get("stats"):
            st = stats_of(f"o{n}.0")
            if refstats is None:
                refstats = st
                res.check(len(st) >= 3, "diagnostics", f"{case}: diagnostics are not printed: {st}")
            else:
                ok = [a for a, _ in st] == [a for a, _ in refstats] and all(
                    abs(x - y) <= 1e-8 * max(abs(y), 1e-3 if "normalized" in a else 0.0) for (a, x), (_, y) in zip(st, refstats)
                )
                res.check(ok, "diagnostics", lambda: f"{case}: printed diagnostics on {n} processes {st[:8]} vs 6: {refstats[:8]}")
    res.sample = {"opts": case["opts"], "counts": case["counts"]}
    return res
