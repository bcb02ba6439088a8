"""Stop and restart: every set of stopping points, every saved step, every process count gives the uninterrupted run."""
import glob
import itertools
import os
import shutil

import numpy as np

from .. import repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
RULE = (
    "one evaluation = one history of a run (a set of stopping points, each leg started from the state file of the "
    "previous one, possibly on another number of processes) whose final state and state files are compared with the "
    "uninterrupted run"
)
ASSUMPTIONS = [
    "explicit methods on the same number of processes: identical bits; other one-step methods: within 100 x solver tolerance",
    "multi-step methods (epi3 and above, bdf2) are excluded: their past states are not part of the state file",
]
CASE_TIMEOUT = 300
KERNELS = True

EXPLICIT = ("euler1", "tvdrk3")
ONESTEP = ("epi2", "srerk3", "ros2", "rosexp2", "backward_euler", "crank_nicolson")


def bounds(tier):
    return {
        "steps": "4 (all 8 sets of stopping points), shorter last step included",
        "saved steps": "save_state_freq 1..4: restart from every state file",
        "process counts": "6 -> 6, 6 -> 24, 24 -> 6, 24 -> 54",
        "integrators": list(EXPLICIT + ONESTEP),
        "problems": "shallow water 2, 5, 6; Euler 31, 21; Cartesian bubble",
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


BASES = {"sw": sim.SW, "euler": sim.EULER, "bubble": sim.BUBBLE}


def leg(rank, eq, o):
    s = sim.make(BASES[eq], **o)
    got = [int(s.starting_step)]
    q0 = np.array(s.initial_Q)
    s.run()
    return got[0], s.step_id, float(s.t), np.array(s.Q), q0


def problems(tier):
    sw = dict(num_elements_horizontal=2, num_solpts=3, dt=300.0)
    eu = dict(num_elements_horizontal=2, num_solpts=2, num_elements_vertical=2, dt=2.0)
    for case in (2, 5, 6):
        for ti in EXPLICIT:
            yield "sw", ti, dict(sw, case_number=case)
    for ti in ONESTEP:
        yield "sw", ti, dict(sw, case_number=6)
    yield "euler", "tvdrk3", dict(eu, case_number=31)
    yield "euler", "tvdrk3", dict(eu, case_number=21)
    yield "euler", "epi2", dict(eu, case_number=31, dt=10.0)
    yield "bubble", "tvdrk3", dict(dt=0.5)
    yield "bubble", "epi2", dict(dt=2.0)
    yield "euler", "tvdrk3", dict(eu, case_number=31, expfilter_apply=1, expfilter_order=8, expfilter_strength=36.0, expfilter_cutoff=0.25)
    if tier == "thorough":
        for ti in ("epi_stiff3", "epi_stiff4", "srerk6"):
            yield "sw", ti, dict(sw, case_number=5)
        yield "euler", "rosexp2", dict(eu, case_number=31)
        yield "euler", "ros2", dict(eu, case_number=22)


def cases(tier, seed):
    for eq, ti, o in problems(tier):
        for tail in (0.0, 0.5):
            yield {"kind": "stops", "eq": eq, "ti": ti, "o": o, "n": 4, "tail": tail}
    sw = dict(num_elements_horizontal=4, num_solpts=2, dt=300.0, case_number=6)
    for ti in ("tvdrk3",) + (ONESTEP if tier == "thorough" else ("epi2",)):
        for f in (1, 2, 3, 4):
            yield {"kind": "counts", "eq": "sw", "ti": ti, "o": sw, "freq": f, "counts": [6, 24]}
    eu = dict(num_elements_horizontal=4, num_elements_vertical=2, num_solpts=2, dt=2.0, case_number=31)
    yield {"kind": "counts", "eq": "euler", "ti": "tvdrk3", "o": eu, "freq": 1, "counts": [6, 24]}
    yield {"kind": "counts", "eq": "sw", "ti": "tvdrk3", "o": dict(sw, num_elements_horizontal=6), "freq": 2, "counts": [24, 54]}


def ranks(eq, n=6):
    return 1 if eq == "bubble" else n


def scale(q):
    """Size of each variable, to compare states."""
    ax = tuple(range(1, q.ndim))
    s = np.max(np.abs(q), axis=ax, keepdims=True)
    return np.where(s == 0, 1.0, s)


def differ(a, b):
    if a.shape != b.shape:
        return np.inf
    return float(np.max(np.abs(a - b) / scale(b)))


def glob_state(r, eq):
    if eq == "bubble":
        return r.values[0][3]
    return np.moveaxis(sim.assemble([v[3] for v in r.values], r.values[0][3].ndim - 1), 1, 0)


def tolerance(eq, ti, same):
    if ti in EXPLICIT:
        return 0.0 if same else 1e-12
    return 1e-5 if eq != "sw" else 1e-6


def run_case(case):
    res = Result()
    eq, ti, o = case["eq"], case["ti"], dict(case["o"], time_integrator=case["ti"])
    dt = o["dt"]

    def go(n, **opts):
        r = execute(n, leg, (eq, dict(o, **opts)), timeout=250)
        res.states += r.states
        res.transitions += len(r.trace)
        if not r.ok:
            res.bad("run failed", f"{case} {opts}: {r.problem()}")
            return None
        return r

    if case["kind"] == "stops":
        N, tail = case["n"], case["tail"]
        t_end = (N - 1 + (tail or 1.0)) * dt
        n = ranks(eq)
        ref = go(n, t_end=t_end, output_dir="ref", save_state_freq=1)
        if ref is None:
            return res
        want = glob_state(ref, eq)
        moved = differ(want, ref_initial(ref, eq))
        res.check(ti == "none" or moved > 0, "moves", f"{case}: the state does not change")
        legs = {}
        for m in range(N):
            for stops in itertools.combinations(range(1, N), m):
                hist = ()
                start = 0
                r = None
                for stop in stops + (None,):
                    new = hist + (stop,)
                    if new not in legs:
                        d = "h" + "_".join(str(x) for x in new)
                        if hist:
                            shutil.copytree("h" + "_".join(str(x) for x in hist), d)
                        te = t_end if stop is None else stop * dt
                        r = go(n, t_end=te, output_dir=d, starting_step=start, save_state_freq=1 if m % 2 else start_freq(stops, stop, start))
                        if r is None:
                            return res
                        legs[new] = r
                    r = legs[new]
                    bad = [v[0] for v in r.values if v[0] != start]
                    res.check(not bad, "starting step", f"{case} {new}: started from {bad} instead of {start}")
                    hist, start = new, stop
                got = glob_state(r, eq)
                tol = tolerance(eq, ti, True)
                d = differ(got, want)
                res.check(d <= tol, "final state", f"{case} stopping at {stops}: differs by {d:.3g} from the run without stops")
                res.check(all(v[1] == N and abs(v[2] - t_end) <= 1e-9 * dt for v in r.values), "final time",
                          f"{case} stopping at {stops}: ends at {r.values[0][1:3]}")
        if ti in EXPLICIT:
            # state files of the interrupted runs are the same as those of the uninterrupted one
            for d in sorted(glob.glob("h*")):
                for f in sorted(glob.glob(f"{d}/state_vector_*.npy")):
                    g = os.path.join("ref", os.path.basename(f))
                    if os.path.exists(g):
                        same = np.array_equal(np.load(f), np.load(g))
                        res.check(same, "state files", f"{case}: {f} differs from the uninterrupted run")
    else:
        N, freq = 4, case["freq"]
        a, b = case["counts"]
        t_end = N * dt
        ref = go(a, t_end=t_end, output_dir="ref", save_state_freq=freq)
        if ref is None:
            return res
        want = glob_state(ref, eq)
        steps = sorted(int(f.split(".")[-2]) for f in glob.glob("ref/state_vector_*.npy"))
        res.check(steps == [k for k in range(N + 1) if k % freq == 0], "saved steps", f"{case}: saved {steps}")
        for k in steps:
            for n in (a, b):
                d = f"k{k}n{n}"
                shutil.copytree("ref", d)
                r = go(n, t_end=t_end, output_dir=d, starting_step=k, save_state_freq=1)
                if r is None:
                    return res
                bad = [v[0] for v in r.values if v[0] != k]
                res.check(not bad, "starting step", f"{case} from {k} on {n}: started from {bad[:3]}")
                diff = differ(glob_state(r, eq), want)
                res.check(diff <= tolerance(eq, ti, n == a), "final state",
                          f"{case}: restart from step {k} with {n} processes differs by {diff:.3g}")
                # and back again: a state saved by n processes restarts on a
                if n != a and k < N - 1:
                    r = go(a, t_end=t_end, output_dir=d, starting_step=N - 1)
                    if r is None:
                        return res
                    diff = differ(glob_state(r, eq), want)
                    res.check(all(v[0] == N - 1 for v in r.values) and diff <= tolerance(eq, ti, False), "final state",
                              f"{case}: {k}->{N-1} on {n} then on {a} differs by {diff:.3g}")
    res.sample = {"case": case}
    return res


def start_freq(stops, stop, start):
    """Save only what the next leg needs (a frequency that divides the stopping point)."""
    if stop is None:
        return 0
    return stop


def ref_initial(r, eq):
    if eq == "bubble":
        return r.values[0][4]
    return np.moveaxis(sim.assemble([v[4] for v in r.values], r.values[0][4].ndim - 1), 1, 0)
