"""Observation does not disturb: no combination of output, diagnostics, saving and statistics options changes the run."""
import itertools

import numpy as np

from .. import repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
RULE = (
    "one evaluation = one complete run with one combination of observation options whose states after every step are "
    "compared bit by bit with the same run without any"
)
ASSUMPTIONS = ["runs are deterministic: checked by repeating the run without options"]
CASE_TIMEOUT = 300
STEPS = 3

OPTIONS = {
    "output_freq": [0, 1, 2],
    "stat_freq": [0, 1, 2],
    "save_state_freq": [0, 1, 2],
    "store_solver_stats": [0, 1],
    "store_total_time": [0, 1],
    "verbose_solver": [0, 1],
}


def bounds(tier):
    return {
        "options": OPTIONS,
        "combinations": "all pairs of values (quick), full product (thorough) for shallow water 5, all single and all-on for the other problems",
        "problems": "shallow water 2, 5, 6; Euler 21, 22, 31, 77; Cartesian 1, 2, 3",
        "integrators": ["tvdrk3", *INTEGRATORS],
        "process counts": [6, 24],
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


INTEGRATORS = ("euler1", "epi2", "epi3", "epi4", "epi5", "epi6", "epi_stiff3", "epi_stiff4", "srerk3", "ros2", "rosexp2",
               "backward_euler", "bdf2", "crank_nicolson")
BASES = {"sw": sim.SW, "euler": sim.EULER, "bubble": sim.BUBBLE}


def trajectory(rank, eq, variants):
    out = []
    for i, o in enumerate(variants):
        s = sim.make(BASES[eq], **dict(o, output_dir=f"r{i}", solver_stats_file=f"stats{i}.db"))
        states = [np.array(s.Q)]
        while True:
            before = s.step_id
            more = s.step()
            if s.step_id != before:
                states.append(np.array(s.Q))
            if not more:
                break
        s.output.finalize(0.0)
        out.append(states)
    return out


def pairs():
    """Covering array: every pair of values of two options appears."""
    names = list(OPTIONS)
    want = {
        (a, x, b, y)
        for a, b in itertools.combinations(names, 2)
        for x in OPTIONS[a]
        for y in OPTIONS[b]
    }
    out = []
    while want:
        best, gain = None, -1
        for combo in itertools.product(*OPTIONS.values()):
            d = dict(zip(names, combo))
            g = sum(1 for a, x, b, y in want if d[a] == x and d[b] == y)
            if g > gain:
                best, gain = d, g
        want = {w for w in want if not (best[w[0]] == w[1] and best[w[2]] == w[3])}
        out.append(best)
    return out


def singles():
    out = [{k: v} for k, vs in OPTIONS.items() for v in vs if v]
    out.append({k: 1 for k in OPTIONS})
    return out


def problems(tier):
    sw = dict(num_elements_horizontal=2, num_solpts=3, dt=300.0, t_end=300.0 * STEPS)
    sw4 = dict(sw, num_elements_horizontal=4, num_solpts=2)
    eu = dict(num_elements_horizontal=2, num_elements_vertical=2, num_solpts=2, dt=1.0, t_end=1.0 * STEPS)
    yield "sw", 6, dict(sw, case_number=5), "pairs"
    yield "sw", 6, dict(sw, case_number=2), "singles"
    yield "sw", 6, dict(sw, case_number=6), "singles"
    yield "sw", 24, dict(sw4, case_number=5), "singles"
    for ti in INTEGRATORS:
        yield "sw", 6, dict(sw, case_number=5, time_integrator=ti), "singles"
    for es in ("kiops", "pmex_1s", "cwy_ne"):
        yield "sw", 6, dict(sw, case_number=6, time_integrator="epi2", exponential_solver=es), "singles"
    for c in (21, 22, 31, 77):
        yield "euler", 6, dict(eu, case_number=c), "singles"
    for ti in ("epi3", "srerk3", "rosexp2", "ros2"):
        yield "euler", 6, dict(eu, case_number=31, time_integrator=ti), "singles"
    yield "euler", 6, dict(eu, case_number=21, depth_approx="shallow", time_integrator="epi2"), "singles"
    yield "euler", 24, dict(eu, num_elements_horizontal=4, case_number=31), "singles"
    yield "bubble", 1, dict(dt=0.5, t_end=0.5 * STEPS), "singles"
    for c in (1, 3):
        yield "bubble", 1, dict(case_number=c, dt=0.5, t_end=0.5 * STEPS, time_integrator="epi2"), "singles"
    yield "bubble", 1, dict(dt=0.5, t_end=0.5 * STEPS, apply_sponge=1, sponge_tscale=10.0, sponge_zscale=300.0), "singles"
    yield "bubble", 1, dict(dt=0.5, t_end=0.5 * STEPS, time_integrator="ros2"), "singles"
    if tier == "thorough":
        yield "sw", 6, dict(sw, case_number=5), "all"
        yield "sw", 6, dict(sw, case_number=6, time_integrator="epi4"), "pairs"
        for c in (21, 22, 31, 77):
            yield "euler", 6, dict(eu, case_number=c), "pairs"
        yield "sw", 54, dict(sw4, num_elements_horizontal=6, case_number=6), "singles"


def cases(tier, seed):
    for eq, n, o, which in problems(tier):
        if which == "pairs":
            combos = pairs()
        elif which == "singles":
            combos = singles()
        else:
            combos = [dict(zip(OPTIONS, c)) for c in itertools.product(*OPTIONS.values())]
        if eq == "bubble":
            # the Cartesian writer makes plots, which this sandbox cannot do
            combos = [{k: v for k, v in c.items() if k != "output_freq"} for c in combos]
            combos = [c for c in combos if c]
        size = 12 if n < 24 else 6
        for lo in range(0, len(combos), size):
            yield {"eq": eq, "n": n, "o": o, "combos": combos[lo : lo + size]}


def run_case(case):
    res = Result()
    eq, n = case["eq"], case["n"]
    off = {k: 0 for k in OPTIONS}
    variants = [dict(case["o"], **off)] + [dict(case["o"], **dict(off, **c)) for c in case["combos"]] + [dict(case["o"], **off)]
    r = execute(n, trajectory, (eq, variants), timeout=280)
    if not r.ok:
        for v in variants:
            r1 = execute(n, trajectory, (eq, [v]), timeout=100)
            if not r1.ok:
                res.bad("run failed", f"{eq} n={n} {v}: {r1.problem()}")
                return res
        res.bad("run failed", f"{case}: {r.problem()}")
        return res
    for i, v in enumerate(variants[1:], 1):
        label = {k: v[k] for k in OPTIONS if v[k]}
        for rank in range(n):
            ref, got = r.values[rank][0], r.values[rank][i]
            ok = len(ref) == len(got) == STEPS + 1 and all(np.array_equal(a, b) for a, b in zip(ref, got))
            if not ok:
                k = next((k for k, (a, b) in enumerate(zip(ref, got)) if not np.array_equal(a, b)), None)
                res.bad(
                    "trajectory" if i < len(variants) - 1 else "repeatable",
                    f"{eq} n={n} {case['o']}: with {label} process {rank} has another state at step {k} ({len(got) - 1} steps)",
                )
                break
        else:
            res.check(True, "trajectory", "")
    res.states += r.states
    res.transitions += len(r.trace)
    res.sample = {"eq": eq, "n": n, "options": case["combos"][-1]}
    return res
