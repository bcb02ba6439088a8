"""Check framework: enumerates the cases of a property, runs each in its own process, writes evidence and verdict."""
import importlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from multiprocessing import connection

from . import repoenv

VERIF = repoenv.VERIF


class Result:
    """What running one case found."""

    def __init__(self):
        self.problems = []  # (key, description, extra dict)
        self.evaluations = 0
        self.nontrivial = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.truncated = False
        self.sample = None
        self.notes = []

    def bad(self, key, desc, **extra):
        self.problems.append((str(key), str(desc), extra))

    def check(self, cond, key, desc, **extra):
        self.evaluations += 1
        self.nontrivial += 1
        if not cond:
            self.bad(key, desc() if callable(desc) else desc, **extra)
        return bool(cond)

    def exploration(self, ex, key, extra=None):
        self.states += ex.states
        self.transitions += ex.transitions
        self.evaluations += ex.executions
        self.nontrivial += ex.terminals
        self.truncated |= ex.truncated
        for msg, rr in ex.violations:
            self.bad(key, msg, choices=rr.choices, trace=rr.trace[-40:], **(extra or {}))


def scratch(prefix="wxmc"):
    """Scratch directory in which the repository's code can run as it does from the repository's root."""
    d = tempfile.mkdtemp(prefix=prefix + ".", dir="/tmp")
    for name in os.listdir(repoenv.REPO):
        if name in (".git", "results", "work", "jacobian", "listings"):
            continue
        os.symlink(os.path.join(repoenv.REPO, name), os.path.join(d, name))
    return d


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)
    except OSError:
        return {"findings": [], "fixed": []}


def _worker(conn, mod, case, workdir):
    os.setsid()
    os.chdir(workdir)
    devnull = os.open(os.path.join(workdir, "out.log"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        res = mod.run_case(case)
    except BaseException:
        res = Result()
        res.crashed = traceback.format_exc()
    conn.send_bytes(pickle.dumps(res, protocol=5))
    conn.close()
    os._exit(0)


def run_cases(mod, cases, jobs, case_timeout, deadline, verbose=False, stop_after=25):
    """Run every case in a process of its own, `jobs` at a time. Yields (case, Result | None)."""
    todo = list(cases)
    active = {}
    nbad = 0
    done = 0
    i = 0
    known = {(f["property"], f["key"]) for f in known_findings()["findings"]}
    while i < len(todo) or active:
        while i < len(todo) and len(active) < jobs and time.time() < deadline and nbad < stop_after:
            case = todo[i]
            i += 1
            wd = scratch()
            a, b = connection.Pipe(duplex=False)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    for c in active:
                        c.close()
                    _worker(b, mod, case, wd)
                finally:
                    os._exit(99)
            b.close()
            active[a] = (pid, case, time.time(), wd)
        if not active:
            break
        ready = connection.wait(list(active), timeout=1.0)
        now = time.time()
        finished = []
        for c in ready:
            pid, case, t0, wd = active[c]
            try:
                res = pickle.loads(c.recv_bytes())
            except (EOFError, OSError, pickle.UnpicklingError):
                res = Result()
                res.crashed = "worker process died"
                try:
                    with open(os.path.join(wd, "out.log")) as f:
                        res.crashed += "\n" + f.read()[-3000:]
                except OSError:
                    pass
            finished.append((c, res))
        for c, (pid, case, t0, wd) in list(active.items()):
            if c not in ready and now - t0 > case_timeout:
                res = Result()
                res.bad("timeout", f"does not terminate within {case_timeout}s (expected: well below)")
                finished.append((c, res))
        for c, res in finished:
            pid, case, t0, wd = active.pop(c)
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
            c.close()
            shutil.rmtree(wd, ignore_errors=True)
            if verbose:
                print(f"  [{now - t0:6.1f}s] {json.dumps(case)[:150]} problems={len(res.problems)}"
                      f" {'CRASH' if hasattr(res, 'crashed') else ''}", flush=True)
            if hasattr(res, "crashed") or any((mod.__name__.split(".")[-1], key) not in known for key, _, _ in res.problems):
                nbad += 1
            done += 1
            yield case, res
    if i < len(todo):
        yield None, len(todo) - i


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = argv[1:]
    replay_file = None
    verbose = False
    only = None
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay_file = args.pop(0)
        elif a == "-v":
            verbose = True
        elif a == "--only":
            only = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = importlib.import_module(f"mc.props.{pid}")
    base = scratch("wxmc-main")
    os.chdir(base)
    try:
        rc = _main(mod, pid, tier, seed, replay_file, verbose, only, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def _main(mod, pid, tier, seed, replay_file, verbose, only, t0):
    budget = 780 if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "3300"))
    deadline = t0 + getattr(mod, "BUDGET", {}).get(tier, budget)
    try:
        if getattr(mod, "KERNELS", True):
            try:
                repoenv.ensure_kernels()
            except RuntimeError as e:
                print(f"kernels do not build from the current tree: {str(e)[-1500:]}")
                raise
        mod.setup()
        if replay_file:
            with open(replay_file) as f:
                rep = json.load(f)
            cases = [rep["case"]]
        else:
            cases = list(mod.cases(tier, seed))
            if only:
                cases = [c for c in cases if only in json.dumps(c)]
    except BaseException:
        # the tree does not even import / build: nothing of the property can hold
        tb = traceback.format_exc()
        print(tb)
        path = _write_replay(pid, {"case": None, "problem": "setup failed", "traceback": tb}, 0)
        _evidence(mod, pid, tier, seed, time.time() - t0, [], [], 1, False, 0)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    jobs = getattr(mod, "JOBS", 8)
    case_timeout = getattr(mod, "CASE_TIMEOUT", 300)
    if tier == "thorough":
        case_timeout *= 4
    results = []
    skipped = 0
    crashed = []
    known = {(f["property"], f["key"]): f for f in known_findings()["findings"]}
    seen_known = {}
    viol = []
    for case, res in run_cases(mod, cases, jobs, case_timeout, deadline, verbose):
        if case is None:
            skipped = res
            continue
        if hasattr(res, "crashed"):
            crashed.append((case, res.crashed))
            # the harness treats exceptions of the code under test itself; what arrives here escaped it
            res.bad("crash", "unexpected failure while running the case: " + res.crashed.strip().splitlines()[-1])
        for key, desc, extra in res.problems:
            if (pid, key) in known:
                seen_known.setdefault(key, desc)
            else:
                viol.append((case, key, desc, extra, getattr(res, "crashed", None)))
        results.append((case, res))
    wall = time.time() - t0
    _evidence(mod, pid, tier, seed, wall, cases, results, len(viol), skipped == 0, skipped)
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {known[(pid, key)].get('what', key)} [{seen_known[key][:200]}]")
    tot = sum(r.evaluations for _, r in results)
    print(
        f"{pid} {tier}: {len(results)} cases, {tot} evaluations, "
        f"{sum(r.states for _, r in results)} states, {sum(r.transitions for _, r in results)} transitions, "
        f"{len(viol)} violations, {wall:.1f}s" + (f", {skipped} cases not reached" if skipped else "")
    )
    if viol:
        for n, (case, key, desc, extra, tb) in enumerate(viol[:8]):
            path = _write_replay(pid, {"case": case, "key": key, "problem": desc, "extra": extra, "traceback": tb}, n)
            print(f"  {key}: {desc[:600]}\n    case {json.dumps(case)[:300]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


def _write_replay(pid, data, n):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{n}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def _evidence(mod, pid, tier, seed, wall, cases, results, nviol, complete, skipped):
    level = getattr(mod, "LEVEL", "model_checking")
    samples = []
    for case, r in results[: 40]:
        if r.sample is not None and len(samples) < 5:
            samples.append({"case": case, "observed": r.sample})
    if not samples:
        samples = [{"case": c} for c, _ in results[:3]]
    truncated = any(r.truncated for _, r in results)
    cov = {
        "cases": len(results),
        "evaluations": sum(r.evaluations for _, r in results),
        "distinct_nontrivial": sum(r.nontrivial for _, r in results),
        "rule": getattr(mod, "RULE", ""),
        "states": sum(r.states for _, r in results),
        "transitions": sum(r.transitions for _, r in results),
        "traces_validated_against_impl": sum(r.traces for _, r in results),
        "samples": samples,
        "exhaustive": bool(complete and not truncated and results),
        "cases_not_reached": skipped,
        "bounds": mod.bounds(tier) if hasattr(mod, "bounds") else getattr(mod, "BOUNDS", ""),
    }
    notes = [n for _, r in results for n in r.notes]
    if notes:
        cov["notes"] = notes[:20]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(
            {
                "property": pid,
                "tier": tier,
                "seed": seed,
                "level": level,
                "coverage": cov,
                "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
                "wall_s": round(wall, 2),
                "violations": nviol,
            },
            f,
            indent=1,
            default=str,
        )


if __name__ == "__main__":
    main(sys.argv[1:])
