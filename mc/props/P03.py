"""Single-process sections: all schedules x all programs over an alphabet of actions and faults."""
import itertools
import os

import numpy as np

from .. import repoenv, sim
from ..common import Result
from ..world import execute, explore

LEVEL = "model_checking"
KERNELS = True
JOBS = 8
RULE = (
    "every program of sections over the alphabet (action outcome x root rank x communicator), executed by 2-4 ranks "
    "under every schedule (eager and synchronising collectives); non-trivial: the execution reached its end"
)
ASSUMPTIONS = [
    "MPI model: collectives match by order, root may return early (eager) or with everyone (sync); validated against Open MPI on the same programs"
]


class Boom(Exception):
    pass


class Odd(Exception):
    """Exception that cannot be pickled back (constructor needs two arguments)"""

    def __init__(self, a, b):
        super().__init__(f"{a}{b}")


VALUES = {
    "none": None,
    "int": 42,
    "zero": 0,
    "false": False,
    "empty": "",
    "str": "some text",
    "list": [1, "a", None],
    "excval": ValueError("a value, not a failure"),
}
FAILS = ["value_error", "boom", "exit0", "exit1", "file", "odd", "stop", "unsendable"]


def perform(kind):
    if kind in VALUES:
        return VALUES[kind]
    if kind == "array":
        return np.arange(12, dtype=float).reshape(3, 4)
    if kind == "unsendable":
        return lambda: 0  # a result that cannot be sent to the others
    if kind == "value_error":
        raise ValueError("bad")
    if kind == "boom":
        raise Boom("x")
    if kind == "exit0":
        raise SystemExit(0)
    if kind == "exit1":
        raise SystemExit(1)
    if kind == "file":
        raise FileNotFoundError("nope")
    if kind == "odd":
        raise Odd(1, 2)
    if kind == "stop":
        raise KeyboardInterrupt()
    raise AssertionError(kind)


EXPECT = {
    "value_error": "ValueError",
    "boom": "Boom",
    "exit0": "SystemExit",
    "exit1": "SystemExit",
    "file": "FileNotFoundError",
    "odd": "Odd",
    "stop": "KeyboardInterrupt",
    "unsendable": None,
}


def canon(v):
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, BaseException):
        return ("excval", type(v).__name__, str(v))
    return (type(v).__name__, repr(v))


def program(rank, prog, mpi_points=True):
    """Executed by each rank: a list of (form, action kind, root, communicator)"""
    from mpi4py import MPI
    import wx_mpi

    point = getattr(MPI, "schedule_point", None) if mpi_points else None
    world = MPI.COMM_WORLD
    comms = {"world": world}
    if any(s[3] == "sub" for s in prog):
        comms["sub"] = world.Split(world.rank % 2, world.rank)
    if any(s[0] == "roots" for s in prog):
        comms["roots"] = world.Split(0 if world.rank < 2 else 1, world.rank)
    if any(s[3] == "rev" for s in prog):
        comms["rev"] = world.Split(0, -world.rank)
    log = []
    for k, (form, kind, root, cname) in enumerate(prog):
        comm = comms[cname]
        ran = []

        def action(*args):
            ran.append(args)
            if point:
                point("begin", f"{k}.{cname}")
            try:
                return perform(kind)
            finally:
                if point:
                    point("end", f"{k}.{cname}")

        try:
            if form == "do_once":
                if cname == "world":
                    val = wx_mpi.do_once(action, 7, "x")
                else:
                    val = wx_mpi.do_once(action, 7, "x", comm=comm)
            elif form == "single":
                with wx_mpi.SingleProcess(comm, min(root, comm.size - 1)) as s, wx_mpi.Conditional(s):
                    s.return_value = action(7, "x")
                val = s.return_value
            elif form == "alone":
                # a section within the section: the active process delegates to itself
                with wx_mpi.SingleProcess(comm, min(root, comm.size - 1)) as s, wx_mpi.Conditional(s):
                    s.return_value = wx_mpi.do_once(action, 7, "x", comm=MPI.COMM_SELF)
                val = s.return_value
            elif form == "roots":
                # a section within the section: the active processes of the two groups (ranks 0 and 1) share another one
                with wx_mpi.SingleProcess(comm) as s, wx_mpi.Conditional(s):
                    with wx_mpi.SingleProcess(comms["roots"], root) as s2, wx_mpi.Conditional(s2):
                        s2.return_value = action(7, "x")
                    s.return_value = s2.return_value
                val = s.return_value
            elif form == "noret":
                with wx_mpi.SingleProcess(comm) as s, wx_mpi.Conditional(s):
                    action(7, "x")
                val = s.return_value
            out = ("ok", canon(val))
        except BaseException as e:
            out = ("exc", type(e).__name__, [c.__name__ for c in type(e).__mro__])
        if point:
            point("leave", f"{k}.{cname}")
        log.append((out, len(ran), [a == (7, "x") for a in ran], comm.rank, comm.size))
    return log


def judge(res, n, prog, with_trace=True):
    p = res.problem() if hasattr(res, "problem") else None
    if p:
        return p
    logs = res.values
    for k, (form, kind, root, cname) in enumerate(prog):
        groups = {}
        for r in range(n):
            key = 0 if cname in ("world", "rev") or form == "roots" else r % 2
            groups.setdefault(key, []).append(r)
        for g, members in groups.items():
            size = len(members)
            croot = 0 if form in ("do_once", "noret") else min(root, size - 1)
            order = members if cname != "rev" else members[::-1]
            rootw = order[croot] if form != "roots" else root
            for r in members:
                out, ran, argok, crank, csize = logs[r][k]
                if ran != (1 if r == rootw else 0):
                    return f"section {k}: rank {r} executed the body {ran} times (root is {rootw})"
                if ran and not all(argok):
                    return f"section {k}: wrong arguments"
                if kind in FAILS:
                    if out[0] != "exc":
                        return f"section {k}: the active process failed ({kind}) but rank {r} carried on with {out}"
                    if r == rootw and EXPECT[kind] and out[1] != EXPECT[kind]:
                        return f"section {k}: active rank raised {out[1]} instead of {EXPECT[kind]}"
                    if r != rootw and "SystemExit" not in out[2]:
                        return f"section {k}: rank {r} raised {out[1]}, not a quiet exit"
                else:
                    want = canon(perform(kind)) if form != "noret" else canon(None)
                    if out[0] != "ok":
                        return f"section {k}: nothing failed but rank {r} raised {out[1]}"
                    if out[1] != want:
                        return f"section {k}: rank {r} got {out[1]} instead of {want}"
            if with_trace and res.trace:
                ends = [i for i, (r, d) in enumerate(res.trace) if d == f"end:{k}.{cname}" and r in members]
                leaves = [i for i, (r, d) in enumerate(res.trace) if d == f"leave:{k}.{cname}" and r in members]
                if len(ends) != 1 or len(leaves) != size:
                    return f"section {k}: body ran {len(ends)} times, left {len(leaves)} times"
                if min(leaves) < ends[0]:
                    return f"section {k}: a rank left the section before the body was finished"
    return None


SITES = ["plain", "directory is a file", "directory refused", "solution is a directory", "state is a directory", "no configuration"]


def site(rank, what, base, refused):
    """A run whose output meets an obstacle; afterwards the processes must still be able to work together"""
    from mpi4py import MPI
    import wx_mpi

    made = []
    inner = os.makedirs

    def makedirs(path, *args, **kw):
        made.append(os.path.basename(str(path)))
        if refused and os.path.basename(str(path)) == refused:
            raise PermissionError(13, "refused", path)
        return inner(path, *args, **kw)

    os.makedirs = makedirs
    where = None
    try:
        if what == "no configuration":
            from simulation import Simulation

            Simulation("there_is_no_such_file.ini")
        else:
            s = sim.make(base)
            where = s.output.output_dir
            s.run()
        out = ("ok", "")
    except BaseException as e:
        out = ("exc", type(e).__name__, str(e)[:200])
    total = MPI.COMM_WORLD.allreduce(1)
    again = wx_mpi.do_once(lambda: "again")
    return out, where, len(made), total, again


def run_site(res, case):
    import shutil
    import tempfile

    n, what = case["n"], case["site"]
    kind = dict(sim.SW if case["eq"] == "sw" else sim.EULER if case["eq"] == "euler" else sim.BUBBLE)
    kind.update(num_elements_horizontal=2, num_solpts=2, t_end=2 * kind["dt"], output_freq=1, save_state_freq=1)
    for pol in ("asc", "desc", ("last", 0), ("first", 0)):
        d = os.path.relpath(tempfile.mkdtemp(dir=os.getcwd()))
        try:
            base = dict(kind, output_dir=f"{d}/out", base_output_file="sol")
            refused = None
            if what == "directory is a file":
                open(f"{d}/out", "w").close()
            elif what == "directory refused":
                refused = "out"
            elif what == "solution is a directory":
                os.makedirs(f"{d}/out/sol.nc")
            elif what == "state is a directory":
                # find the name of the file, then put a directory in its place
                r = execute(n, site, ("plain", base, None), policy=pol, timeout=200)
                names = sorted(os.listdir(f"{d}/out")) if r.ok else []
                names = [x for x in names if x.endswith(".npy")]
                if len(names) != 3:
                    res.bad("site", f"{case}: state files {names} ({r.problem()})")
                    return
                os.remove(f"{d}/out/{names[1]}")
                os.makedirs(f"{d}/out/{names[1]}/x")
            r = execute(n, site, (what, base, refused), policy=pol, timeout=200)
            res.states += r.states
            res.transitions += len(r.trace)
            if r.problem():
                res.bad("site", f"{what}, {case['eq']} on {n} processes, order {pol}: {r.problem()}")
                continue
            fails = what not in ("plain", "directory refused")
            if case["eq"] == "bubble" and what == "solution is a directory":
                fails = False  # no file of this kind in the vertical plane
            for rk, (out, where, made, total, again) in enumerate(r.values):
                ctx = f"{what}, {case['eq']} on {n} processes, order {pol}, process {rk}"
                if fails:
                    res.check(out[0] == "exc", "site", f"{ctx}: carried on")
                else:
                    res.check(out[0] == "ok", "site", f"{ctx}: {out}")
                    res.check(where == ("results" if refused else f"{d}/out"), "site", f"{ctx}: output goes to {where}")
                res.check(rk == 0 or made == 0, "site", f"{ctx}: creates directories too")
                res.check(total == n and again == "again", "site", f"{ctx}: afterwards {total} {again}")
        finally:
            shutil.rmtree(d, ignore_errors=True)


def setup():
    repoenv.use_model_mpi()
    import wx_mpi  # noqa

    sim.warm()


def alphabet(tier):
    al = []
    for kind in ["none", "int", "excval", "value_error", "exit0", "odd"]:
        al.append(("do_once", kind, 0, "world"))
    for kind in ["zero", "array", "boom", "stop"]:
        for root in (0, 1, 2):
            al.append(("single", kind, root, "world"))
    for kind in ["list", "file"]:
        al.append(("single", kind, 1, "sub"))
        al.append(("do_once", kind, 0, "sub"))
        al.append(("do_once", kind, 0, "rev"))
    for kind in ["none", "exit1"]:
        al.append(("noret", kind, 0, "world"))
    al.append(("single", "unsendable", 1, "world"))
    al.append(("do_once", "unsendable", 0, "sub"))
    for kind in ["int", "boom", "exit0"]:
        al.append(("alone", kind, 1, "world"))
        al.append(("roots", kind, 0, "sub"))
        al.append(("roots", kind, 1, "sub"))
    if tier == "thorough":
        for kind in ["false", "empty", "str"]:
            al.append(("do_once", kind, 0, "world"))
            al.append(("single", kind, 1, "rev"))
    return al


def bounds(tier):
    al = alphabet(tier)
    return {
        "alphabet": len(al),
        "ranks": [2, 3] if tier == "quick" else [2, 3, 4],
        "program length": "1 with all schedules; 2 with all schedules (2 ranks), canonical schedules (3 ranks)",
        "nested sections": "active process alone; active processes of two groups together",
        "output of a run": "directory, solution file or state file that cannot be made, configuration missing: 1 and 6 processes, 4 orders",
    }


def cases(tier, seed):
    al = alphabet(tier)
    ranks = [2, 3] if tier == "quick" else [2, 3, 4]
    for n in ranks:
        for sync in (False, True):
            for i in range(0, len(al), 4):
                yield {"what": "explore", "n": n, "sync": sync, "progs": [[list(a)] for a in al[i : i + 4]]}
    pairs = [[list(a), list(b)] for a, b in itertools.product(al, al)]
    step = 60
    for i in range(0, len(pairs), step):
        yield {"what": "explore" if tier == "thorough" else "policies", "n": 2, "sync": False, "progs": pairs[i : i + step]}
        yield {"what": "policies", "n": 3, "sync": bool(i // step % 2), "progs": pairs[i : i + step]}
    for what in SITES:
        yield {"what": "site", "site": what, "n": 6, "eq": "sw"}
        yield {"what": "site", "site": what, "n": 24, "eq": "sw"} if tier == "thorough" else {"what": "site", "site": what, "n": 6, "eq": "euler"}
        yield {"what": "site", "site": what, "n": 1, "eq": "bubble"}
    yield {"what": "real", "n": 3, "progs": [[list(a) for a in al if a[1] != "stop"]]}
    if tier == "thorough":
        trip = [[list(a), list(b), list(c)] for a, b, c in itertools.product(al[::2], al[1::3], al[::3])]
        for i in range(0, len(trip), 100):
            yield {"what": "policies", "n": 4, "sync": False, "progs": trip[i : i + 100]}


def run_case(case):
    res = Result()
    n = case["n"]
    if case["what"] == "site":
        run_site(res, case)
        return res
    for prog in case["progs"]:
        prog = [tuple(s) for s in prog]
        if case["what"] == "explore":
            ex = explore(
                n,
                program,
                (prog,),
                check=lambda r: judge(r, n, prog),
                sync=case["sync"],
                max_executions=3000,
                signature=lambda r: r.problem(),
            )
            res.exploration(ex, "section", {"prog": prog})
            if res.sample is None:
                res.sample = {"program": prog, "executions": ex.executions, "states": ex.states}
        elif case["what"] == "policies":
            for pol in ["asc", "desc", ("last", 0)]:
                r = execute(n, program, (prog,), policy=pol, sync=case["sync"])
                res.states += r.states
                res.transitions += len(r.trace)
                msg = judge(r, n, prog, with_trace=pol in ("asc", "desc"))
                res.check(msg is None, "section", f"{msg} prog={prog} policy={pol}")
        elif case["what"] == "real":
            from .. import realmpi

            out = realmpi.run(n, "mc.props.P03:program", (prog, False), timeout=200)
            if out is None:
                res.notes.append("real MPI run did not end in time: conformance not established in this run")
                continue
            model = execute(n, program, (prog, False), policy="all")
            if any(o[0] != "ok" for o in out):
                res.notes.append(f"real MPI run failed: {[o for o in out if o[0] != 'ok'][:1]}")
                continue

            class R:
                trace = None
                values = [o[1] for o in out]

            msg = judge(R, n, prog, False)
            res.check(msg is None, "section", f"under real MPI: {msg}")
            if model.ok:
                same = model.values == R.values
                res.check(same, "conformance", "model and real MPI disagree on the outcome of the same program")
                res.traces += len(prog) if same else 0
    return res
