"""Solver statistics: every solve of every run is recorded once and completely, whatever the history of the file: earlier
runs, older formats, killed runs, runs that share the file at the same time, files that cannot be used."""
import json
import math
import os
import select
import shutil
import sqlite3
import struct
import time

import numpy as np

from .. import repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
RULE = (
    "one evaluation = the whole content of a statistics file compared with a model of it after one history: a sequence of "
    "real runs, of which one may be killed before any chosen statement, or two may be interleaved at any two statements"
)
ASSUMPTIONS = [
    "SQLite's own transactions are atomic: runs are killed and interleaved between its statements, not inside them",
    "times are not predicted: recorded ones are compared with those handed over by the integrator",
]
CASE_TIMEOUT = 400
JOBS = 8

TINY = dict(num_elements_horizontal=1, num_elements_vertical=1, num_solpts=2, dt=0.5)
CONFIGS = {
    "a": dict(TINY, time_integrator="tvdrk3"),
    "b": dict(TINY, time_integrator="ros2", num_solpts=3, gmres_restart=7, tolerance=1e-6, dt=0.25),
    "c": dict(TINY, time_integrator="epi2", exponential_solver="kiops", num_elements_vertical=2, bubble_theta=300.0, z1=1200),
    "d": dict(TINY, time_integrator="crank_nicolson", num_elements_horizontal=2, tolerance=1e-5),
    "s": dict(num_elements_horizontal=1, num_solpts=2, dt=300.0, case_number=6, time_integrator="tvdrk3"),
    "t": dict(num_elements_horizontal=2, num_solpts=2, dt=200.0, case_number=5, time_integrator="ros2"),
    "e": dict(num_elements_horizontal=1, num_elements_vertical=1, num_solpts=2, dt=1.0, case_number=31, time_integrator="rosexp2"),
}
BASE = dict({k: sim.BUBBLE for k in "abcd"}, s=sim.SW, t=sim.SW, e=sim.EULER)
PROCS = dict({k: 1 for k in "abcd"}, s=6, t=6, e=6)
FILE = "results/stats.db"


def bounds(tier):
    return {
        "histories": "all sequences of up to 3 runs out of 4 configurations, 0-2 solves each (quick: up to 2 runs), on 1 process; pairs on 6; single runs of up to 6 solves (thorough 12), the last one possibly shorter",
        "earlier content": "none, empty, other runs, each single column missing, several missing, added columns, both",
        "killed runs": "before every statement, on a new and on an existing file, followed by a complete run",
        "shared file": "two runs, either first, preempted before every pair of statements (at most two preemptions)",
        "unusable files": "text, directory, truncated database, locked by another program, table lost in the middle of a run; on 1 and 6 processes",
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


# ------------------------------------------------------------------------------------------------------------ one run
def options(name, steps):
    o = dict(CONFIGS[name])
    o.update(t_end=(steps or 1) * o["dt"], store_solver_stats=1, solver_stats_file="stats.db", output_dir="results")
    return o


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if x is None or isinstance(x, str):
        return x
    return float(x)


def one_run(rank, name, steps, hook=None, log=None, disturb=None):
    """A whole run; hook(k) is called before the k-th statement; what was handed over for recording goes to the log file"""
    count = [0]
    if hook is not None:
        real = sqlite3.connect

        def connect(*a, **k):
            c = real(*a, **k)

            def traced(text):
                count[0] += 1
                hook(count[0])

            c.set_trace_callback(traced)
            return c

        sqlite3.connect = connect
        sqlite3.dbapi2.connect = connect
    out = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND) if log and rank == 0 else None

    def note(*what):
        if out is not None:
            os.write(out, (json.dumps(what) + "\n").encode())

    s = sim.make(BASE[name], **options(name, steps))
    note("ready")
    inner = s.output.store_solver_stats

    counted = getattr(s.integrator, "rhs", None)
    evaluations = [0]
    if counted is not None and hasattr(type(counted), "retrieve_last_times"):
        cls = type(counted)
        call = cls.__call__

        def calling(self, *a, **k):
            evaluations[0] += self is counted
            return call(self, *a, **k)

        cls.__call__ = calling

    def store(total, t, dt, info, precond, rhs_times):
        rt = None if rhs_times is None or not evaluations[0] else evaluations[0]
        evaluations[0] = 0
        note("solve", plain(total), plain(t), plain(dt), plain(info.total_num_it), plain(info.time), plain(info.flag), plain(info.iterations), rt)
        r = inner(total, t, dt, info, precond, rhs_times)
        note("stored")
        return r

    s.output.store_solver_stats = store
    for k in range(math.ceil(steps)):
        if disturb and k == disturb[0] and rank == 0:
            disturb[1]()
        s.step()
    s.output.finalize(0.0)
    note("end", count[0])
    return count[0]


def read_log(path):
    """List of solves (what was handed over, whether it came back) and whether the run started and ended"""
    solves, ready, end = [], False, None
    if os.path.exists(path):
        for l in open(path):
            m = json.loads(l)
            if m[0] == "ready":
                ready = True
            elif m[0] == "solve":
                solves.append([m[1:], False])
            elif m[0] == "stored":
                solves[-1][1] = True
            elif m[0] == "end":
                end = m[1]
    return solves, ready, end


def content(path):
    c = sqlite3.connect(path)
    c.row_factory = sqlite3.Row
    tabs = {r[0] for r in c.execute("select name from sqlite_master where type='table'")}
    out = {}
    for t in ("results_param", "results_data", "rhs_timing"):
        out[t] = [dict(r) for r in c.execute(f"select * from {t} order by rowid")] if t in tabs else None
    ok = c.execute("pragma integrity_check").fetchone()[0]
    c.close()
    return out, ok


FIXED = {
    "dg_order": "num_solpts", "num_elem_h": "num_elements_horizontal", "case_number": "case_number",
    "equations": "equations", "grid_type": "grid_type", "time_integrator": "time_integrator", "solver_tol": "tolerance",
    "initial_dt": "dt",
}


def compare(db, before, runs, res, where):
    """The file holds what it held before, then the solves of these runs: [(name, solves, maybe)], in any order between
    runs; 'maybe': the last solve may be there or not."""
    new = {t: list(db[t] or []) for t in db}
    for t, rows in (before or {}).items():
        old = rows or []
        head = [{k: r.get(k) for k in o} for o, r in zip(old, new[t])]
        if head != old:
            res.bad("earlier records changed", f"{where}: table {t}: {old[:2]} became {head[:2]}")
            return False
        new[t] = new[t][len(old):]
    if not runs and not any(new.values()):
        return True
    groups = {}
    for r in new["results_param"]:
        groups.setdefault(r["run_id"], []).append(r)
    for rid, rows in groups.items():
        if not isinstance(rid, int) or rid < 1:
            res.bad("run number", f"{where}: recorded under run {rid}")
            return False
        if any(r.get("run_id") == rid for r in (before or {}).get("results_param") or []):
            res.bad("run number", f"{where}: run number {rid} was already used by an earlier run")
            return False
    todo = dict(groups)
    for name, solves, maybe in runs:
        lens = {len(solves)} | ({len(solves) - 1} if maybe else set())
        o = dict(BASE[name])
        o.update(options(name, 1))

        def fits(rid, rows, explain=None):
            say = (lambda m: explain.append(m)) if explain is not None else (lambda m: None)
            if len(rows) not in lens:
                say(f"{len(rows)} solves instead of {sorted(lens)}")
                return False
            for k, row in enumerate(rows):
                total, t, dt, its, spent, flag, resid, rt = solves[k][0]
                want = {col: o[opt] for col, opt in FIXED.items()}
                want.update(step_id=k, dt=dt, simulation_time=t, total_solve_time=total, num_solver_it=its, solver_time=spent,
                            solver_flag=flag, num_procs=PROCS[name], precond="none", backend="cpu")
                if "gmres_restart" in o:
                    want["gmres_restart"] = o["gmres_restart"]
                if o["equations"] == "euler":
                    want["num_elem_v"] = o["num_elements_vertical"]
                if o["grid_type"] == "cartesian2d":
                    want.update(x0=o["x0"], x1=o["x1"], z0=o["z0"], z1=o["z1"])
                elif o["equations"] == "euler":
                    want["ztop"] = o["ztop"]
                for col, x in want.items():
                    if row.get(col) != x or isinstance(row.get(col), bytes):
                        say(f"solve {k}: {col} is {row.get(col)!r} instead of {x!r}")
                        return False
                data = [r for r in new["results_data"] if r["run_id"] == rid and r["step_id"] == k]
                got = [[r["iteration"], r["residual"], r["time"], r["work"]] for r in data]
                exp = [[i] + x for i, x in enumerate(resid)]
                # an infinite or undefined residual is kept as such or as nothing
                if [[None if v is None or v != v else v for v in x] for x in got] != [[None if v is None or v != v else v for v in x] for x in exp]:
                    say(f"solve {k}: residuals {got} instead of {exp}")
                    return False
                if rt is not None:
                    times = [r for r in new["rhs_timing"] if r["run_id"] == rid and r["step_id"] == k]
                    if [r["iteration"] for r in times] != list(range(rt)):
                        say(f"solve {k}: {len(times)} timings of the right-hand side for {rt} evaluations")
                        return False
            return True

        match = next((rid for rid, rows in todo.items() if fits(rid, rows)), None)
        if match is None:
            if 0 in lens:
                continue
            why = []
            for rid, rows in todo.items():
                fits(rid, rows, why)
            res.bad("records", f"{where}: run {name} is not recorded as it happened: {why[:3] or 'no rows'}")
            return False
        todo.pop(match)
    if todo:
        res.bad("records", f"{where}: rows of no run: {[(k, len(v)) for k, v in todo.items()]}")
        return False
    ids = set(groups)
    for t in ("results_data", "rhs_timing"):
        stray = [r for r in new[t] if r["run_id"] not in ids or r["step_id"] >= len(groups[r["run_id"]])]
        if stray:
            res.bad("records", f"{where}: {t} has rows of no solve: {stray[:2]}")
            return False
    return True


# ---------------------------------------------------------------------------------------------------------- histories
def fresh():
    for p in ("results", "logs", "keep"):
        shutil.rmtree(p, ignore_errors=True)
    os.makedirs("results")
    os.makedirs("logs")


_formats = {}


def columns():
    """Columns of the parameter table, as a run creates it"""
    if not _formats:
        fresh()
        execute(1, one_run, ("a", 1), timeout=100)
        c = sqlite3.connect(FILE)
        _formats["cols"] = [(r[1], r[2]) for r in c.execute("pragma table_info(results_param)")]
        _formats["sql"] = [r[0] for r in c.execute("select sql from sqlite_master where type='table' order by rowid")]
        c.close()
        fresh()
    return _formats["cols"]


def prepare(kind):
    """Earlier content of the file; returns it"""
    fresh()
    if kind == "none":
        return None
    if kind == "empty":
        open(FILE, "w").close()
        return None
    cols = columns()
    if kind == "runs":
        execute(1, one_run, ("c", 2), timeout=100)
        execute(1, one_run, ("b", 1), timeout=100)
        return content(FILE)[0]
    # older or newer formats, with rows in them
    drop, add = kind["drop"], kind["add"]
    c = sqlite3.connect(FILE)
    keep = [x for x in cols if x[0] not in drop and x[0] != "entry_id"] + [(a, "float") for a in add]
    c.execute("create table results_param (entry_id integer primary key, " + ", ".join(f"{a} {t}" for a, t in keep) + ")")
    for q in _formats["sql"]:
        if "results_param" not in q:
            c.execute(q)
    for k in range(2):
        vals = [1 if a == "run_id" else k if a == "step_id" else 7 if "char" not in t else "old" for a, t in keep]
        c.execute(f"insert into results_param ({', '.join(a for a, _ in keep)}) values ({', '.join('?' * len(keep))})", vals)
        c.execute("insert into results_data values (1, ?, 0, 0.5, 0.1, 1.0)", [k])
    c.commit()
    c.close()
    return content(FILE)[0]


def go(res, name, steps, tag, **kw):
    log = f"logs/{tag}"
    r = execute(PROCS[name], _logged, (name, steps, log, kw), timeout=150)
    res.states += r.states
    res.transitions += len(r.trace)
    return r, read_log(log)


def _logged(rank, name, steps, log, kw):
    return one_run(rank, name, steps, log=log, **kw)


def killer(k):
    def hook(i):
        if i == k:
            os._exit(9)
    return hook


def cases(tier, seed):
    seqs = [()] + [((a, s),) for a in "abcd" for s in (0, 1, 2)]
    seqs += [((a, 1 + (i % 2)), (b, 2)) for i, a in enumerate("abcd") for b in "abcd"]
    # longer runs, and runs whose last step is shorter than the others
    seqs += [((a, s),) for a in "abcd" for s in (0.5, 2.25, 4, 5.5)] + [(("a", 3.5), ("b", 1.25)), (("c", 6), ("d", 0.75))]
    if tier == "thorough":
        seqs += [((a, s),) for a in "abcd" for s in (1.5, 3, 7, 9.25, 12)]
        seqs += [((a, s1), (b, s2), (c, 1)) for a in "abcd" for b in "abcd" for c in "abcd" for s1 in (0, 2) for s2 in (1, 2)]
        seqs += [((a, s), (b, t)) for a in "abcd" for b in "abcd" for s in (0, 1, 3) for t in (0, 1, 3)]
    for q in seqs:
        if q:
            yield {"kind": "history", "before": "none", "runs": list(q)}
    for q in ((("s", 2.5), ("t", 2)), (("t", 3.5), ("s", 1)), (("e", 2), ("a", 1))):
        yield {"kind": "history", "before": "none", "runs": list(q)}
    for b in ("empty", "runs"):
        for q in ((("a", 2),), (("b", 1), ("d", 2))):
            yield {"kind": "history", "before": b, "runs": list(q)}
    yield {"kind": "formats"}
    for name in ("a", "b", "d") if tier == "quick" else ("a", "b", "c", "d"):
        for before in ("none", "runs"):
            yield {"kind": "kill", "name": name, "before": before, "part": 0, "parts": 1}
    parts = 8
    for names in ("ab", "ba") if tier == "quick" else ("ab", "ba", "bb", "ad", "cb", "dd"):
        for before in ("none", "runs"):
            for part in range(parts):
                yield {"kind": "share", "names": names, "before": before, "part": part, "parts": parts, "step": 2 if tier == "quick" else 1}
    for bad in ("text", "directory", "truncated", "locked", "lost"):
        for name in ("a", "s"):
            yield {"kind": "unusable", "bad": bad, "name": name}


def run_case(case):
    res = Result()
    globals()["_h_" + case["kind"]](case, res)
    res.sample = {"case": case}
    return res


def _h_history(case, res):
    before = prepare(case["before"])
    past, runs = before, []
    for i, (name, steps) in enumerate(case["runs"]):
        where = f"after {case['before']} and runs {case['runs'][:i + 1]}"
        r, (solves, ready, end) = go(res, name, steps, f"h{i}")
        if not r.ok or end is None:
            res.bad("run failed", f"{where}: {r.problem()}")
            return
        res.check(len(solves) == math.ceil(steps), "solves handed over", f"{where}: {len(solves)} solves for {steps} steps")
        dt = options(name, steps)["dt"]
        for k, (m, _) in enumerate(solves):
            res.check(abs(m[1] - k * dt) < 1e-9 * dt + 1e-12 and abs(m[2] - min(1, steps - k) * dt) < 1e-9 * dt, "times handed over",
                      f"{where}: solve {k} is said to start at {m[1]} with step {m[2]}")
        db, ok = content(FILE)
        res.check(ok == "ok", "integrity", f"{where}: {ok}")
        # alone in its file after the others: each run is compared with the content before it
        if not compare(db, past, [(name, solves, False)] if steps else [], res, where):
            return
        res.check(True, "records", where)
        past = db


def _h_formats(case, res):
    cols = [c for c, _ in columns()]
    first = ("entry_id", "run_id", "step_id")
    kinds = [{"drop": [c], "add": []} for c in cols if c not in first]
    kinds += [{"drop": [], "add": ["foo"]}, {"drop": [], "add": ["foo", "bar"]}]
    kinds += [{"drop": [c], "add": ["foo"]} for c in cols[5::6]]
    kinds += [{"drop": cols[-6:], "add": []}, {"drop": cols[10:20], "add": []}, {"drop": [c for c in cols if c not in first], "add": []},
              {"drop": cols[8:10], "add": ["foo", "bar", "baz"]}]
    for kind in kinds:
        before = prepare(kind)
        where = f"file without {kind['drop']}, with {kind['add']}"
        r, (solves, ready, end) = go(res, "b", 2, "f")
        if not r.ok:
            res.bad("run failed on another format", f"{where}: {r.problem()}")
            return
        db, ok = content(FILE)
        if not compare(db, before, [("b", solves, False)], res, where):
            return
        res.check(True, "records", where)


def _h_kill(case, res):
    name, steps = case["name"], 2
    before = prepare(case["before"])
    if before is not None:
        shutil.copy(FILE, "logs/base.db")
    r, (solves, _, total) = go(res, name, steps, "dry", hook=lambda k: None)
    if not r.ok:
        res.bad("run failed", f"{case}: {r.problem()}")
        return
    if not total:
        res.bad("no statements", f"{case}: no statement was seen")
        return
    for k in range(1, total + 1):
        shutil.rmtree("results", ignore_errors=True)
        os.makedirs("results")
        if before is not None:
            shutil.copy("logs/base.db", FILE)
        where = f"{case['before']}: run {name} killed before statement {k} of {total}"
        _, (solves, ready, end) = go(res, name, steps, f"k{k}", hook=killer(k))
        res.check(end is None, "killed", f"{where}: it was not")
        r, (later, _, _) = go(res, "a" if name != "a" else "b", 1, f"l{k}")
        if not r.ok:
            res.bad("no run possible after a killed one", f"{where}, then another run: {r.problem()}")
            return
        db, ok = content(FILE)
        res.check(ok == "ok", "integrity", f"{where}: {ok}")
        maybe = bool(solves) and not solves[-1][1]
        runs = ([(name, solves, maybe)] if solves else []) + [("a" if name != "a" else "b", later, False)]
        if not compare(db, before, runs, res, where + ", then another run"):
            return
        res.check(True, "records", where)


# ------------------------------------------------------------------------------------------------- two runs, one file
class Side:
    """A run in its own process that stops before each of its statements until told to go on"""

    def __init__(self, name, steps, tag):
        self.name, self.log = name, f"logs/{tag}"
        self.up, up_w = os.pipe()
        down_r, self.down = os.pipe()
        self.at = 0
        self.done = self.waiting = False
        self.failed = None
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.up)
                os.close(self.down)

                def hook(k):
                    os.write(up_w, struct.pack("i", k))
                    os.read(down_r, 1)

                r = execute(PROCS[name], _logged, (name, steps, self.log, {"hook": hook}), timeout=100)
                if not r.ok:
                    with open(self.log + ".err", "w") as f:
                        f.write(str(r.problem()))
                os.write(up_w, struct.pack("i", -1 if r.ok else -2))
            finally:
                os._exit(0)
        os.close(up_w)
        os.close(down_r)

    def listen(self, wait):
        """Wait until the run stops before a statement, or ends; False: nothing within the time"""
        if self.waiting or self.done:
            return True
        if not select.select([self.up], [], [], wait)[0]:
            return False
        b = os.read(self.up, 4)
        k = struct.unpack("i", b)[0] if len(b) == 4 else -2
        if k < 0:
            self.done = True
            if k == -2:
                self.failed = open(self.log + ".err").read() if os.path.exists(self.log + ".err") else "died"
        else:
            self.at, self.waiting = k, True
        return True

    def go(self):
        if self.waiting:
            self.waiting = False
            os.write(self.down, b"g")

    def close(self):
        try:
            os.kill(self.pid, 0 if self.done else 9)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.up)
        os.close(self.down)


def until(side, stop, other, deadline):
    """Let a side run until it stands before its statement 'stop' (None: to the end). True: there; False: it waits for
    the other side (a lock), which then has to move."""
    while True:
        if side.done or (side.waiting and stop is not None and side.at >= stop):
            return True
        side.go()
        if not side.listen(0.25):
            if not (other.waiting or not other.done):
                # nobody holds anything: give it all the time
                if not side.listen(max(0.1, deadline - time.time())):
                    return False
                continue
            return False


def _h_share(case, res):
    n1, n2 = case["names"]
    before = prepare(case["before"])
    if before is not None:
        shutil.copy(FILE, "logs/base.db")
    counts = []
    for i, n in enumerate((n1, n2)):
        r, (_, _, total) = go(res, n, 1, f"dry{i}", hook=lambda k: None)
        if not r.ok:
            res.bad("run failed", f"{case}: {r.problem()}")
            return
        counts.append(total)
    pairs = [(i, j) for i in range(1, counts[0] + 3) for j in range(1, counts[1] + 3)]
    pairs = pairs[case["part"]::case["parts"]]
    if case["step"] > 1:
        pairs = [p for p in pairs if (p[0] + p[1]) % case["step"] == 0 or min(p) <= 6]
    for i, j in pairs:
        shutil.rmtree("results", ignore_errors=True)
        os.makedirs("results")
        if before is not None:
            shutil.copy("logs/base.db", FILE)
        tag = f"{i}-{j}"
        A, B = Side(n1, 1, tag + "A"), Side(n2, 1, tag + "B")
        where = f"{case['before']}: runs {n1} and {n2} share the file; {n1} goes to its statement {i}, {n2} to {j}, then {n1} to the end"
        deadline = time.time() + 60
        try:
            until(A, i, B, deadline)
            until(B, j, A, deadline)
            while not (A.done and B.done) and time.time() < deadline:
                until(A, None, B, deadline)
                until(B, None, A, deadline)
        finally:
            stuck = not (A.done and B.done)
            A.close()
            B.close()
        res.states += A.at + B.at
        res.transitions += A.at + B.at
        if stuck:
            res.bad("stuck", f"{where}: no end")
            return
        for side in (A, B):
            if side.failed:
                res.bad("run failed because of another", f"{where}: run {side.name}: {side.failed}")
                return
        db, ok = content(FILE)
        runs = [(s.name, read_log(s.log)[0], False) for s in (A, B)]
        if not compare(db, before, runs, res, where):
            return
        res.check(ok == "ok", "records", f"{where}: {ok}")


# ----------------------------------------------------------------------------------------------------------- bad files
def _h_unusable(case, res):
    name = case["name"]
    fresh()
    kw, other = {}, None
    if case["bad"] == "text":
        with open(FILE, "w") as f:
            f.write("these are not statistics\n" * 50)
    elif case["bad"] == "directory":
        os.makedirs(FILE)
    elif case["bad"] == "truncated":
        prepare("runs")
        with open(FILE, "r+b") as f:
            f.truncate(os.path.getsize(FILE) // 2 + 100)
    elif case["bad"] == "locked":
        other = sqlite3.connect(FILE)
        other.execute("create table x (a)")
        other.commit()
        other.execute("begin exclusive")
    elif case["bad"] == "lost":

        def lose():
            c = sqlite3.connect(FILE)
            c.execute("drop table results_param")
            c.commit()
            c.close()

        kw = {"disturb": (1, lose)}
    r, (solves, ready, end) = go(res, name, 2, "u", **kw)
    if other is not None:
        other.close()
    where = f"{case['bad']} file, run {name} on {PROCS[name]} processes"
    if r.deadlock or r.mismatch or r.timeout:
        res.bad("processes do not agree on the failure", f"{where}: {r.problem()}")
        return
    kinds = {o.kind for o in r.outcomes}
    res.check(len(kinds) == 1, "processes do not agree on the failure", f"{where}: {r.outcomes}")
    res.check(kinds == {"exc"}, "failure not reported", f"{where}: the run ends as if all were well")
