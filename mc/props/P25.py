"""How the program ends: on every process, with the right status, keeping what was written before."""
import glob
import gc
import os
import shutil
import sys

import numpy as np

from .. import repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
RULE = (
    "one evaluation = the end of one process in one execution of the command-line program, or one record of the "
    "solution file it left; non-trivial: every execution but the plain ones ends by a failure or an interruption"
)
ASSUMPTIONS = [
    "failures that all processes meet together (configuration, process count, state that blows up, solver that does not "
    "converge, interrupt sent to all); a process that dies alone is the MPI launcher's business",
    "interrupts are delivered when a process enters an MPI operation",
]
KERNELS = True
CASE_TIMEOUT = 600

SW = {**sim.SW, "t_end": 1800.0, "output_freq": 1}
EU = {**sim.EULER, "num_elements_horizontal": 2, "output_freq": 1}
BUB = {**sim.BUBBLE, "output_freq": 0}


def bounds(tier):
    return {
        "processes": "1, 6, 24 (shallow water), 6 (Euler), 1 (Cartesian)",
        "failures": "each of the listed ends x each flag of the command line",
        "interrupts": "before every MPI operation of a run of two steps with output, statistics and saved states, "
                      "on all processes",
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


# --------------------------------------------------------------------------------------------- in the processes


def status_of(e):
    """What the interpreter returns to the launcher"""
    if isinstance(e, SystemExit):
        if e.code is None:
            return 0
        return e.code & 0xFF if isinstance(e.code, int) else 1
    return 130 if isinstance(e, KeyboardInterrupt) else 1


def report_failure(flag, step):
    """Make the solver of the integrator report a failure in one step (the step itself is a good one)"""
    from integrators import Integrator

    inner = Integrator.step
    count = [0]

    def stepping(self, *a, **k):
        out = inner(self, *a, **k)
        count[0] += 1
        self.failure_flag = flag if count[0] == step else 0
        return out

    Integrator.step = stepping


def program(rank, argv, at=None, exc="KeyboardInterrupt", failure=None):
    import types

    from mpi4py import MPI

    calls = [0]
    inner = MPI._rpc

    def rpc(op):
        calls[0] += 1
        if calls[0] == at:
            open(f"interrupted.{rank}", "w").close()
            raise {"KeyboardInterrupt": KeyboardInterrupt, "MPI": MPI.Exception}[exc]()
        return inner(op)

    MPI._rpc = rpc
    sys.argv = ["WxFactory"] + argv
    path = os.path.join(repoenv.REPO, "WxFactory")
    m = types.ModuleType("wxf_main")
    m.__file__ = path
    with open(path) as f:
        code = compile(f.read(), path, "exec")
    exec(code, m.__dict__)
    if failure:
        report_failure(*failure)
    status, name = 0, ""
    try:
        m.main()
    except BaseException as e:
        status, name = status_of(e), f"{type(e).__name__}: {str(e)[:150]}"
        e.__traceback__ = None
        e.__context__ = None
        del e
    gc.collect()  # as when the interpreter ends
    return status, name, calls[0]


# --------------------------------------------------------------------------------------------------------- cases


def write(name, **o):
    with open(name, "w") as f:
        f.write(sim.text(**o))
    return name


def scenario(name, base):
    """argv, what is expected (done / info / failed), records that must be in the solution file (None: no matter)"""
    b = dict(base)
    nrec = int(round(b["t_end"] / b["dt"])) + 1
    if not b["output_freq"]:
        nrec = None
    flags = []
    parts = name.split("+")
    for p in parts[1:]:
        flags.append("--" + p)
    what = parts[0]
    if what == "plain" and "--numpy-warn-as-except" in flags:
        return flags + [write("c.ini", **b)], None, None
    if what == "plain":
        return flags + [write("c.ini", **b)], "done", nrec
    if what == "help":
        return flags + ["--help"], "info", None
    if what == "options":
        return flags + ["--config-options"], "info", None
    if what == "options md":
        return flags + ["--config-options", "md"], "info", None
    if what == "counts":
        return flags + ["--allowed-proc-count", write("c.ini", **b)], "info", None
    if what == "missing":
        return flags + ["absent.ini"], "failed", None
    if what == "empty":
        open("c.ini", "w").close()
        return flags + ["c.ini"], "failed", None
    if what == "noise":
        with open("c.ini", "wb") as f:
            f.write(bytes(range(256)))
        return flags + ["c.ini"], "failed", None
    if what == "unknown flag":
        return flags + ["--no-such-flag", write("c.ini", **b)], "failed", None
    if what == "no argument":
        return flags, "failed", None
    if what.startswith("set "):
        k, v = what[4:].split("=")
        if k == "case_number" and b["grid_type"] == "cartesian2d":
            return flags + [write("c.ini", **{**b, k: v})], None, None
        return flags + [write("c.ini", **{**b, k: v})], "failed", None
    if what == "directory":
        with open("not_a_dir", "w") as f:
            f.write("x")
        return flags + [write("c.ini", **{**b, "output_dir": "not_a_dir", "save_state_freq": 1})], "failed", None
    if what == "bad start":
        return flags + [write("c.ini", **{**b, "starting_step": 2})], None, None
    if what == "blow up":
        # a step far beyond the stability limit: not-a-number after a few steps
        return flags + [write("c.ini", **{**b, "dt": b["dt"] * 400, "t_end": b["dt"] * 400 * 40})], "failed", 1
    if what == "no convergence" and b["grid_type"] == "cartesian2d":
        return flags + [
            write("c.ini", **{**b, "time_integrator": "ros2", "linear_solver": "fgmres", "tolerance": 1e-30,
                              "gmres_restart": 30, "num_solpts": 2, "num_elements_horizontal": 2,
                              "num_elements_vertical": 1})
        ], "failed", None
    if what.startswith("no convergence"):
        # reported by the solver of the integrator (flag, step)
        return flags + [write("c.ini", **{**b, "output_freq": 0})], "failed", None
    if what == "long restart":
        return flags + [
            write("c.ini", **{**b, "time_integrator": "ros2", "linear_solver": "fgmres", "tolerance": 1e-30,
                              "gmres_restart": 10001, "num_solpts": 2, "num_elements_horizontal": 4})
        ], "failed", 1
    raise ValueError(name)


NAMES = [
    "plain", "plain+profile", "plain+ignore-numpy-warnings", "plain+show-every-crash", "plain+numpy-warn-as-except",
    "help", "options", "options md", "counts", "counts+profile", "missing", "empty", "noise", "unknown flag",
    "no argument", "set time_integrator=nonsense", "set case_number=12345", "set grid_type=flat", "set dt=zero",
    "set num_solpts=-1", "set equations=maxwell", "directory", "blow up", "blow up+show-every-crash",
    "blow up+numpy-warn-as-except", "blow up+profile", "blow up+ignore-numpy-warnings", "no convergence",
    "no convergence+profile", "no convergence -1 2", "no convergence 1 1", "no convergence 1 last", "long restart",
]


def cases(tier, seed):
    for name in NAMES:
        yield {"kind": "end", "base": "sw", "n": 6, "names": [name]}
        yield {"kind": "end", "base": "bubble", "n": 1, "names": [name]}
        if tier == "thorough" or name in ("plain", "blow up", "missing", "counts") or name.startswith("no c"):
            yield {"kind": "end", "base": "euler", "n": 6, "names": [name]}
            yield {"kind": "end", "base": "sw", "n": 24, "names": [name]}
    for n in (1, 2, 5, 7):
        yield {"kind": "end", "base": "sw", "n": n, "names": ["help", "options", "counts", "missing", "wrong count"]}
    k = 12 if tier == "quick" else 24
    for exc in ("KeyboardInterrupt", "MPI"):
        for part in range(k):
            yield {"kind": "interrupt", "n": 6, "part": part, "of": k, "stride": 1, "exc": exc}


def records(path, limit=None):
    import netCDF4

    with netCDF4.Dataset(path) as d:
        out = []
        n = d.dimensions["time"].size if "time" in d.dimensions else 0
        names = [v for v in d.variables if d.variables[v].dimensions[:1] == ("time",)]
        for i in range(n if limit is None else min(n, limit)):
            out.append({v: np.ma.filled(d.variables[v][i], np.nan) for v in names})
        return out


def outcome(res, what, r, expect):
    """Every process ended; statuses agree with what happened"""
    if r.deadlock or r.mismatch or r.timeout or r.abort:
        res.bad("processes left behind", f"{what}: {r.problem()}")
        return None
    vals = [o.value if o is not None and o.kind == "ok" else None for o in r.outcomes]
    if any(v is None for v in vals):
        res.bad("processes left behind", f"{what}: {r.problem()}")
        return None
    st = [v[0] for v in vals]
    res.evaluations += len(st)
    if expect in ("done", "info"):
        res.check(set(st) == {0}, "status", lambda: f"{what}: ends with statuses {sorted(set(st))}: {vals[0][1]}")
    elif expect == "failed":
        res.check(st[0] != 0, "status", lambda: f"{what}: the first process ends with status 0 ({vals[0][1]})")
    return st


def run_case(case):
    res = Result()
    base = {"sw": SW, "euler": EU, "bubble": BUB}.get(case.get("base"), SW)
    n = case["n"]
    if case["kind"] == "end":
        for name in case["names"]:
            if os.path.lexists("results"):
                shutil.rmtree("results", ignore_errors=True)
            os.makedirs("results", exist_ok=True)
            what = f"{case['base']} on {n}: {name}"
            if name == "wrong count":
                argv, expect, nrec = [write("c.ini", **base)], ("done" if n == 1 and case["base"] == "bubble" else "failed"), None
            else:
                argv, expect, nrec = scenario(name, base)
            failure = None
            if name.startswith("no convergence") and (case["base"] != "bubble" or name.split("+")[0] != "no convergence"):
                w = name.split("+")[0].split()[2:]
                failure = (int(w[0]) if w else -1, (int(round(base["t_end"] / base["dt"])) if w[1] == "last" else int(w[1])) if w else 1)
            r = execute(n, program, (argv, None, None, failure), timeout=240)
            res.states += r.states
            res.transitions += len(r.trace)
            st = outcome(res, what, r, expect)
            res.traces += 1
            if st is None or nrec is None or not base["output_freq"]:
                continue
            files = glob.glob("results/*.nc")
            try:
                rec = records(files[0]) if files else []
            except (OSError, RuntimeError) as e:
                res.bad("solution file", f"{what}: the file cannot be read ({e})")
                continue
            if expect == "done":
                res.check(len(rec) == nrec, "solution file", lambda: f"{what}: {len(rec)} records instead of {nrec}")
            else:
                res.check(len(rec) >= nrec, "solution file", lambda: f"{what}: {len(rec)} records left")
            for i, f in enumerate(rec):
                bad = [k for k, v in f.items() if not np.all(np.isfinite(v))]
                res.check(not bad, "solution file", lambda: f"{what}: record {i} holds not-a-number in {bad}")
    else:
        o = {**SW, "time_integrator": "euler1", "t_end": 120.0, "dt": 60.0, "num_elements_horizontal": 2, "num_solpts": 2,
             "stat_freq": 1, "save_state_freq": 1, "store_solver_stats": True, "solver_stats_file": "stats.db"}
        argv = [write("c.ini", **o)]
        shutil.rmtree("results", ignore_errors=True)
        os.makedirs("results")
        r = execute(n, program, (argv,), timeout=240)
        if outcome(res, "uninterrupted", r, "done") is None:
            return res
        total = max(v[2] for v in r.values)
        ref = records(glob.glob("results/*.nc")[0])
        for at in range(1 + case["part"] * case["stride"], total + 1, case["of"] * case["stride"]):
            what = f"{case['exc']} at operation {at} of {total} on all processes"
            shutil.rmtree("results", ignore_errors=True)
            os.makedirs("results")
            for f in glob.glob("interrupted.*") + glob.glob("stats.db*"):
                os.unlink(f)
            r = execute(n, program, (argv, at, case["exc"]), timeout=240)
            res.states += r.states
            res.transitions += len(r.trace)
            res.traces += 1
            if r.mismatch or r.timeout or r.abort:
                res.bad("processes left behind", f"{what}: {r.problem()}")
                continue
            hit = [i for i in range(n) if os.path.exists(f"interrupted.{i}")]
            for i in hit:
                oc = r.outcomes[i]
                if oc is None or oc.kind != "ok":
                    res.bad("processes left behind", f"{what}: process {i} does not end ({r.problem()})")
                    break
                res.evaluations += 1
            else:
                if 0 in hit:
                    res.check(r.outcomes[0].value[0] != 0, "status", lambda: f"{what}: first process ends with status 0")
                    for p in glob.glob("results/*.nc"):
                        try:
                            rec = records(p)
                        except (OSError, RuntimeError) as e:
                            res.bad("solution file", f"{what}: the file cannot be read ({e})")
                            continue
                        # all records but the last, which may be under way, are those of the full run
                        ok = len(rec) <= len(ref) and all(
                            np.array_equal(a[k], b[k], equal_nan=True) for a, b in zip(rec[:-1], ref) for k in b
                        )
                        res.check(ok, "solution file", lambda: f"{what}: earlier records changed")
    res.sample = case
    return res
