"""Not-a-number on any subset of the processes stops all of them, at the same step, before anything is written."""
import glob
import itertools
import re

import numpy as np

from .. import probe, repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
RULE = (
    "one evaluation = one run in which NaNs appear on one subset of the processes, at one step, at one place of the "
    "local state: end of every process, steps taken, and files written are compared with what is required"
)
ASSUMPTIONS = [
    "the integrator is replaced by one that produces the NaNs (the detection only looks at the state it returns)",
]
CASE_TIMEOUT = 300


def bounds(tier):
    return {
        "subsets": "all 63 non-empty subsets of 6 processes; each single one and all pairs with 0 of 24; single process",
        "finite": "the largest finite values of both signs on all subsets of even/odd processes",
        "places": "first, last, middle entry; every entry of a small local state on one process",
        "steps": "1..3 of 3; states and output every 0-4 steps; from step 0-2",
        "schedules": "all at once, ascending, descending, each rank last; eager and synchronising",
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


BASES = {
    "sw": (sim.SW, dict(num_elements_horizontal=2, num_solpts=2, case_number=6, dt=300.0, t_end=900.0)),
    "sw4": (sim.SW, dict(num_elements_horizontal=4, num_solpts=2, case_number=6, dt=300.0, t_end=900.0)),
    "euler": (sim.EULER, dict(num_elements_horizontal=2, num_elements_vertical=1, num_solpts=2, case_number=31, dt=2.0, t_end=6.0)),
    "bubble": (sim.BUBBLE, dict(num_elements_horizontal=2, num_elements_vertical=2, num_solpts=2, dt=0.5, t_end=1.5)),
}


def drive(rank, eq, plans, how, save=1, start=0):
    """plans: list of {rank: (step, pos)}; save: frequency of the states; start: first step (from a saved state)"""
    base, o = BASES[eq]
    out = []
    for i, plan in enumerate(plans):
        o_ = dict(o, save_state_freq=save, output_freq=save if eq.startswith("sw") else 0, output_dir=f"d{i}")
        if start:
            s = sim.make(base, **dict(o, save_state_freq=1, output_dir=f"d{i}", t_end=start * o["dt"]))
            probe.install(s, None)
            while s.step_id < start:
                s.step()
            o_["starting_step"] = start
        s = sim.make(base, **o_)
        mode = None
        if str(rank) in plan:
            step, pos, *kind = plan[str(rank)]
            mode = {"kind": kind[0] if kind else "nan", "step": step, "pos": pos}
        p = probe.install(s, mode)
        end = "ok"
        try:
            if how == "run":
                s.run()
            else:
                while s.step():
                    pass
                s.output.finalize(0.0)
        except Exception as e:
            end = type(e).__name__
        out.append((end, len(p.dts)))
    return out


def cases(tier, seed):
    subsets = [c for m in range(1, 7) for c in itertools.combinations(range(6), m)]
    plans = []
    for i, sub in enumerate(subsets):
        for step in (1, 2, 3):
            pos = [0, -1, 7][(i + step) % 3]
            plans.append({str(r): (step, pos) for r in sub})
    # processes that fail at different steps: the earliest counts
    for a, b in itertools.permutations((1, 2, 3), 2):
        plans.append({"1": (a, 0), "4": (b, -1)})
    plans.append({})
    for c in range(0, len(plans), 14):
        yield {"kind": "subsets", "eq": "sw", "n": 6, "plans": plans[c : c + 14], "how": "run" if (c // 14) % 2 else "step"}
    yield {"kind": "subsets", "eq": "euler", "n": 6, "plans": plans[::23], "how": "run"}
    p24 = [{str(r): (1 + r % 3, -1)} for r in range(24)] + [{"0": (2, 0), str(r): (2, 3)} for r in range(1, 24, 5)]
    for c in range(0, len(p24), 8):
        yield {"kind": "subsets", "eq": "sw4", "n": 24, "plans": p24[c : c + 8], "how": "run"}
    size = 3 * 4 * 4
    for lo in range(0, size, 12):
        yield {"kind": "subsets", "eq": "sw", "n": 6, "plans": [{"3": (2, q)} for q in range(lo, lo + 12)], "how": "run"}
    yield {"kind": "subsets", "eq": "bubble", "n": 1, "plans": [{"0": (st, q)} for st in (1, 2, 3) for q in (0, -1, 5, 30, 47)], "how": "run"}
    for pol in ["all", "asc", "desc"] + [("last", r) for r in range(6)] + [("first", r) for r in range(6)]:
        for sync in (False, True):
            yield {"kind": "subsets", "eq": "sw", "n": 6, "plans": [{"2": (2, 0)}, {"0": (1, -1)}, {"5": (3, 4), "1": (3, 0)}], "how": "run", "policy": pol, "sync": sync}
    # finite states, however large, stop nothing; next to a process that has none
    for eq, n in (("sw", 6), ("euler", 6), ("bubble", 1)):
        far = [{str(r): (st, 3, "huge") for r in range(k, n, 2)} for k in range(min(n, 2)) for st in (1, 2, 3)] + [{str(r): (2, 3, "huge") for r in range(n)}]
        if n > 1:
            far += [{"1": (1, 0, "huge"), "2": (2, 5)}, {"0": (2, 0, "huge"), "5": (3, -1)}]
        yield {"kind": "subsets", "eq": eq, "n": n, "plans": far, "how": "run", "save": 0}
        yield {"kind": "subsets", "eq": eq, "n": n, "plans": far, "how": "step", "save": 2}
    # steps at which nothing is due, and restarted runs
    for eq, n in (("sw", 6), ("euler", 6), ("bubble", 1)):
        for save in (0, 1, 2, 3, 4):
            for start in (0, 1, 2) if save in (0, 2) else (0,):
                for r in ((0, n - 1) if n > 1 else (0,)):
                    yield {"kind": "subsets", "eq": eq, "n": n, "plans": [{str(r): (st, 5)} for st in (1, 2, 3) if st > start] + [{}],
                           "how": "step" if save % 2 else "run", "save": save, "start": start}


def run_case(case):
    res = Result()
    kw = {}
    if "policy" in case:
        p = case["policy"]
        kw = {"policy": tuple(p) if isinstance(p, list) else p, "sync": case["sync"]}
    n = case["n"]
    plans = case["plans"]
    save, start = case.get("save", 1), case.get("start", 0)
    if start:
        plans = [{k: (st - start, *q) for k, (st, *q) in pl.items()} for pl in plans]
    r = execute(n, drive, (case["eq"], plans, case["how"], save, start), timeout=250, **kw)
    if not r.ok:
        for pl in plans:
            r1 = execute(n, drive, (case["eq"], [pl], case["how"], save, start), timeout=60, **kw)
            if not r1.ok:
                res.bad("run failed", f"{case['eq']} n={n} {kw} NaN at {pl}: {r1.problem()}")
                return res
        res.bad("run failed", f"{case}: {r.problem()}")
        return res
    for i, pl in enumerate(plans):
        where = f"{case['eq']} n={n} {kw} states every {save} from step {start}, NaN at (step of this run, entry) {pl}"
        first = min((x[0] for x in pl.values() if len(x) == 2), default=None)
        want = 3 - start if first is None else first
        got = [v[i] for v in r.values]
        steps = sorted({g[1] for g in got})
        res.check(steps == [want], "step of the stop", f"{where}: processes took {steps} steps, should all be {want}")
        ends = sorted({g[0] for g in got})
        ok = ends == ["ok"] if first is None else "ok" not in ends
        res.check(ok, "reported", f"{where}: processes ended with {ends}")
        saved = sorted(int(re.search(r"\.(\d+)\.npy$", f).group(1)) for f in glob.glob(f"d{i}/state_vector_*.npy"))
        last = 3 if first is None else start + first - 1
        due = {k for k in range(start, last + 1) if save and k % save == 0} | set(range(start + 1) if start else ())
        res.check(saved == sorted(due), "state files", f"{where}: states saved for steps {saved}")
        for f in glob.glob(f"d{i}/state_vector_*.npy"):
            res.check(not np.isnan(np.load(f)).any(), "state files", f"{where}: NaN in {f}")
        for f in glob.glob(f"d{i}/*.nc"):
            import netCDF4

            try:
                with netCDF4.Dataset(f) as nc:
                    nt = len(nc["time"][:])
            except Exception as e:
                continue  # file left open by the failed run
            most = len([k for k in range(start, last + 1) if save and k % save == 0])
            res.check(nt <= most, "output", f"{where}: output has {nt} times, at most {most} are valid")
    res.states += r.states
    res.transitions += len(r.trace)
    res.sample = {"eq": case["eq"], "nan": plans[-1]}
    return res
