"""Run admission: which process counts may run a configuration; every process takes the same decision."""
import os
import re
import sys

from .. import repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
RULE = (
    "one evaluation = one (elements per side, process count) pair tried on all its processes, or one announced list of "
    "process counts, or one command-line start; non-trivial: the decision of each process is observed"
)
ASSUMPTIONS = [
    "admission depends on elements per side and number of processes only; explored for 1..12 elements and 1..60 processes",
]
CASE_TIMEOUT = 300


def allowed(ne):
    return [6 * n * n for n in range(1, ne + 1) if ne % n == 0 and (n == 1 or ne // n >= 2)]


def bounds(tier):
    return {
        "elements per side": "1..12 (announced lists: 1..64)",
        "process counts": "1..30, 36, 42, 48, 53..55, 60, 96 (every count 1..100 in thorough)",
        "start-up": "command line with valid / wrong / missing configuration, on 1..8 and 24 processes",
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


def try_start(rank, ne, kw, eq):
    base = sim.SW if eq == "sw" else sim.EULER
    try:
        s = sim.make(base, num_elements_horizontal=ne, num_solpts=1 if eq == "sw" else 2, **kw)
    except (Exception, SystemExit) as e:
        return ("refused", type(e).__name__, [c.__name__ for c in type(e).__mro__], str(e)[:300])
    q = s.initial_Q
    return ("admitted", q.shape, s.config.num_elements_horizontal)


def announce(rank, ne):
    from simulation import Simulation

    c = sim.config(sim.SW, num_elements_horizontal=ne)
    try:
        Simulation(c, print_allowed_pe_counts=True)
    except SystemExit:
        return "stopped"
    return "went on"


def cli(rank, argv):
    from importlib.machinery import SourceFileLoader
    import types

    sys.argv = ["WxFactory"] + argv
    loader = SourceFileLoader("wxf_main", os.path.join(repoenv.REPO, "WxFactory"))
    m = types.ModuleType("wxf_main")
    m.__file__ = loader.path
    exec(loader.get_code("wxf_main") if False else compile(open(loader.path).read(), loader.path, "exec"), m.__dict__)
    try:
        m.main()
    except BaseException as e:
        code = e.code if isinstance(e, SystemExit) else 1
        return ("ended", type(e).__name__, code)
    return ("finished",)


def cases(tier, seed):
    counts = list(range(1, 31)) + [36, 42, 48, 53, 54, 55, 60, 96] if tier == "quick" else list(range(1, 101)) + [150]
    for ne in range(1, 13):
        for chunk in range(0, len(counts), 8):
            yield {"kind": "pairs", "ne": ne, "counts": counts[chunk : chunk + 8], "eq": "sw"}
    for ne in (2, 4, 6):
        yield {"kind": "pairs", "ne": ne, "counts": [5, 6, 7, 12, 24, 54, 96], "eq": "euler"}
    for lo in range(1, 65, 8):
        yield {"kind": "announce", "nes": list(range(lo, lo + 8)), "n": 6}
    yield {"kind": "announce", "nes": [1, 2, 3, 4, 6, 12, 30], "n": 1}
    yield {"kind": "announce", "nes": [4, 6, 8], "n": 24}
    for n in (1, 2, 5, 6, 7, 8, 24):
        yield {"kind": "cli", "n": n}


def run_case(case):
    res = Result()
    if case["kind"] == "pairs":
        ne = case["ne"]
        for n in case["counts"]:
            r = execute(n, try_start, (ne, {}, case["eq"]), policy="all")
            res.states += r.states
            res.transitions += len(r.trace)
            if not r.ok:
                res.bad("start", f"{ne} elements on {n} processes: {r.problem()}")
                continue
            got = {v[0] for v in r.values}
            want = "admitted" if n in allowed(ne) else "refused"
            res.check(
                got == {want}, "decision",
                lambda: f"{ne} elements per side on {n} processes should be {want} by all; got {sorted(got)} {r.values[0]}",
            )
            if got == {"admitted"} == {want}:
                lines = int(round((n / 6) ** 0.5))
                k = ne // lines
                ok = all(v[1][-3:-1] == (k, k) for v in r.values)
                res.check(ok, "tile size", lambda: f"{ne} elements on {n} processes: tiles {r.values[0][1]}")
            elif got == {"refused"}:
                res.check(
                    all("ValueError" in v[2] for v in r.values), "refusal",
                    lambda: f"{ne} on {n}: refused with {sorted({v[1] for v in r.values})}: {r.values[0]}",
                )
    elif case["kind"] == "announce":
        for ne in case["nes"]:
            f = os.path.abspath("ann.{rank}.txt")
            for i in range(case["n"]):
                try:
                    os.unlink(f.format(rank=i))
                except OSError:
                    pass
            r = execute(case["n"], announce, (ne,), opts={"stdout": f})
            if not r.ok:
                res.bad("announce", f"{ne} elements: {r.problem()}")
                continue
            res.check(set(r.values) == {"stopped"}, "announce", lambda: f"{ne} elements: {r.values}")
            txt = open(f.format(rank=0)).read()
            lists = re.findall(r"\[([\d,\s]*)\]", txt[txt.rfind("Can use"):] if "Can use" in txt else txt)
            nums = [[int(x) for x in l.split(",") if x.strip()] for l in lists]
            res.check(
                any(sorted(x) == allowed(ne) for x in nums), "announced counts",
                lambda: f"{ne} elements per side: announced {nums[-1:]}, can run on {allowed(ne)}",
            )
            others = "".join(open(f.format(rank=i)).read() for i in range(1, case["n"]))
            res.check("Can use" not in others, "announce once", "more than one process announces")
            res.traces += 1
    else:
        n = case["n"]
        good = sim.text(**{**sim.SW, "num_elements_horizontal": 4, "t_end": 600.0})
        with open("good.ini", "w") as f:
            f.write(good)
        with open("bad.ini", "w") as f:
            f.write(good.replace("num_solpts", "num_other"))
        for argv, may_finish in (
            (["good.ini"], n in allowed(4)), (["bad.ini"], False), (["missing.ini"], False), ([], False),
            (["--nonsense", "good.ini"], False),
        ):
            r = execute(n, cli, (argv,), timeout=200)
            if r.deadlock or r.mismatch or r.timeout:
                res.bad("command line", f"{argv} on {n} processes: {r.problem()}")
                continue
            vals = r.values if r.ok else [o.value if o.kind == "ok" else ("died", o.exc) for o in r.outcomes]
            fin = [v[0] == "finished" for v in vals]
            res.check(
                all(fin) if may_finish else not any(fin), "command line",
                lambda: f"{argv} on {n} processes: {vals[:3]}",
            )
            if not may_finish:
                v0 = vals[0]
                res.check(v0[0] == "ended" and v0[-1] not in (0, None), "exit status",
                          lambda: f"{argv} on {n} processes: first process ends with {v0}")
        r = execute(n, cli, (["--allowed-proc-count", "good.ini"],), timeout=200)
        res.check(r.deadlock is None and r.mismatch is None and r.ok and all(v[0] == "ended" for v in r.values),
                  "command line", lambda: f"--allowed-proc-count on {n}: {r.problem()} {r.values}")
    res.sample = case
    return res
