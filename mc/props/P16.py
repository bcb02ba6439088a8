"""Matrix-exponential solvers: all problems of bounded families against the dense exponential of the augmented matrix."""
import contextlib
import io
import itertools
import warnings

import numpy as np
import scipy.linalg

from .. import repoenv
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
KERNELS = True
RULE = (
    "one evaluation = one call of a solver on one problem (matrix, vectors, tolerance, Krylov sizes, output times, division among "
    "processes, calls made before) compared with the dense exponential of the augmented matrix; distinct by these"
)
ASSUMPTIONS = [
    "problems of 2 to 60 unknowns; the dense exponential of scipy is exact to rounding",
    "answers are judged with a factor 10 around the requested tolerance (largest seen on the pinned tree: 1.6)",
    "solvers that estimate norms or normalise one step late may end in an exception or NaN where the Krylov space is exhausted (recorded "
    "findings), never in a wrong finite answer",
]
CASE_TIMEOUT = 900
BUDGET = {"quick": 700, "thorough": 3600}

ROBUST = ["kiops", "pmex", "pmex_1s", "cwy_1s", "cwy_ne", "icwy_1s", "icwy_neiop", "kiops_nest"]
ESTIMATING = ["pmex_ne1s", "cwy_ne1s", "icwy_ne", "icwy_ne1s"]
LAGGED = ESTIMATING + ["pmex_1s", "cwy_1s", "icwy_1s"]
SOLVERS = ROBUST + ESTIMATING
FACTOR = 10.0


def bounds(tier):
    return {
        "solvers": SOLVERS + ["exode with each of its Runge-Kutta pairs", "dcgs2 (recorded finding)"],
        "all 2x2 matrices": "entries in {-3,-1,0,2} (256) x p in 0..3 x first vector zero or not",
        "families": "diffusion, advection, stiff diffusion, advection-diffusion, non-normal x n in {3,24"
        + (",60" if tier != "quick" else "") + "} x Krylov sizes (10,64), (4,8), (3,16) x p in 0..4 x first vector zero or not x tolerance 1e-4, 1e-8",
        "output times": "[1], [.5,1], [.25,.5,1], [.3,.7,.9], [2], [-1] x scaling by 1/t or not",
        "division": "24 unknowns over 2 and 3 processes, even and uneven",
    }


def setup():
    repoenv.use_model_mpi()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from device import CpuDevice

    CpuDevice.get_default()
    import solvers  # noqa


def cases(tier, seed):
    for s in SOLVERS:
        for row in itertools.product((-3, -1, 0, 2), repeat=2):
            if row[0] in (-3, 2) or tier != "quick":
                yield {"kind": "all2", "solver": s, "row": list(row)}
    ns = (3, 24) if tier == "quick" else (3, 7, 24, 60)
    for s, n, fam in itertools.product(SOLVERS, ns, ("diff", "adv", "stiffdiff", "advdiff", "nonnormal")):
        yield {"kind": "family", "solver": s, "n": n, "fam": fam}
    for s in SOLVERS:
        yield {"kind": "times", "solver": s}
    comps = ([12, 12], [5, 19], [8, 8, 8], [3, 14, 7])
    for s, c in itertools.product(SOLVERS, comps):
        if s in ("kiops", "pmex") or c in ([5, 19], [8, 8, 8]) or tier != "quick":
            yield {"kind": "divide", "solver": s, "comp": list(c)}
    for m in ("BS3(2)", "DP5(4)", "M4(3)", "KC3(2)", "EXLRK3(2)", "EXLRK4(3)", "F14(12)", "DP8(7)", "F10(8)"):
        yield {"kind": "exode", "method": m}
    yield {"kind": "dcgs2"}


def families(n):
    D = 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
    S = np.eye(n, k=1) - np.eye(n, k=-1)
    S[0, -1] -= 1
    S[-1, 0] += 1
    return {"diff": -D, "adv": 3 * S, "stiffdiff": -20 * D, "advdiff": 5 * S - 2 * D, "nonnormal": -D + 4 * np.eye(n, k=2)}


def vectors(n, p, zero):
    u = np.array([np.cos((k + 1) * np.arange(n) + k) for k in range(p + 1)])
    if zero:
        u[0] = 0
    return u


def reference(A, u, t):
    """w(t) = sum_k t^k phi_k(tA) u_k : solution at t of w' = Aw + sum_k t^(k-1)/(k-1)! u_k, w(0) = u_0."""
    n = A.shape[0]
    p = u.shape[0] - 1
    M = np.zeros((n + p, n + p))
    M[:n, :n] = A
    for k in range(1, p + 1):
        M[:n, n + k - 1] = u[k]
    for k in range(p - 1):
        M[n + k + 1, n + k] = 1
    x = np.concatenate([u[0], [1] + [0] * (p - 1)]) if p else u[0]
    return (scipy.linalg.expm(t * M) @ x)[:n]


def call(name, op, u, times, **kw):
    import solvers

    with contextlib.redirect_stdout(io.StringIO()):
        return getattr(solvers, name)(times, op, u, **kw)


def krylov_dim(A, u):
    """Dimension of the Krylov space of the augmented problem."""
    n = A.shape[0]
    p = max(1, u.shape[0] - 1)
    M = np.zeros((n + p, n + p))
    M[:n, :n] = A
    for k in range(1, u.shape[0]):
        M[:n, n + k - 1] = u[k]
    for k in range(p - 1):
        M[n + k + 1, n + k] = 1
    x = np.concatenate([u[0], [1] + [0] * (p - 1)])
    V = []
    while True:
        for _ in range(2):
            for v in V:
                x = x - (v @ x) * v
        s = np.linalg.norm(x)
        if s < 1e-10 or len(V) == n + p:
            return len(V)
        V.append(x / s)
        x = M @ V[-1]
        x = x / max(1.0, np.linalg.norm(x))


def judge(res, name, where, A, u, times, tol, task1=False, **kw):
    n = {"A": 0}

    def op(v):
        n["A"] += 1
        return A @ v

    mine = u.copy()
    given = list(times)
    res.evaluations += 1
    res.states += 1
    try:
        w, stats = call(name, op, mine, times, tol=tol, task1=task1, **kw)
    except Exception as e:
        if name in LAGGED and isinstance(e, (ValueError, OverflowError, ZeroDivisionError)) and krylov_dim(A, u) < kw.get("mmax", 128) + 6:
            res.bad(f"{name}: no answer when the Krylov space is exhausted", f"{where}: {type(e).__name__}: {e}")
        else:
            res.bad("solver raises", f"{name}: {where}: {type(e).__name__}: {e}")
        return None
    res.transitions += n["A"]
    res.check(np.array_equal(mine, u) and list(times) == given, "inputs changed", f"{name}: {where}: the vectors given were changed")
    w = np.asarray(w, float)
    if not res.check(w.shape == (len(times), A.shape[0]), "shape", f"{name}: {where}: answer of shape {w.shape}"):
        return None
    if name in LAGGED and not np.all(np.isfinite(w)) and krylov_dim(A, u) <= kw.get("mmax", 128):
        res.bad(f"{name}: no answer when the Krylov space is exhausted", f"{where}: the answer is not finite")
        return None
    for k, t in enumerate(times):
        ref = reference(A, u, t)
        if task1:
            ref = ref / t
        err = np.abs(w[k] - ref).max()
        # the tolerance is met over the whole interval; scaling by 1/t scales the error too; rounding of large answers is not counted
        allowed = FACTOR * tol * (1 / abs(t) if task1 else 1) + 1e-10 * (1 + np.abs(ref).max())
        res.check(err <= allowed, "wrong answer", f"{name}: {where}: at t={t} the answer is off by {err:.3e} with tolerance {tol:.0e} ({stats[0]} steps)")
        res.worst = max(getattr(res, "worst", 0.0), float(err / allowed * FACTOR))
    res.check(stats[0] >= 1 and stats[1] >= 0 and n["A"] >= 1, "statistics", f"{name}: {where}: {stats[:4]}")
    return w, stats


def run_all2(case, res):
    name = case["solver"]
    for rest in itertools.product((-3, -1, 0, 2), repeat=2):
        A = np.array(case["row"] + list(rest), float).reshape(2, 2)
        for p, zero in itertools.product((0, 1, 2, 3), (False, True)):
            if zero and p == 0:
                continue
            u = vectors(2, p, zero)
            where = f"A={A.astype(int).tolist()}, p={p}, first vector {'zero' if zero else 'not zero'}"
            judge(res, name, where, A, u, [1.0], 1e-7)
        if len(res.problems) > 20:
            return
    res.sample = {"solver": name, "first row": case["row"]}


def run_family(case, res):
    name, n, fam = case["solver"], case["n"], case["fam"]
    A = families(n)[fam]
    for (mi, ma), p, zero, tol in itertools.product(((10, 64), (4, 8), (3, 16)), (0, 1, 2, 3, 4), (False, True), (1e-4, 1e-8)):
        if zero and p == 0:
            continue
        u = vectors(n, p, zero)
        where = f"{fam} n={n}, p={p}, first vector {'zero' if zero else 'not zero'}, tolerance {tol:.0e}, Krylov size {mi} to {ma}"
        judge(res, name, where, A, u, [1.0], tol, m_init=mi, mmin=mi, mmax=ma)
        if len(res.problems) > 20:
            return
    res.sample = {"solver": name, "n": n, "family": fam}


def run_times(case, res):
    name = case["solver"]
    A = families(24)
    for fam, times, p, tol, (mi, ma), task1 in itertools.product(
        ("stiffdiff", "advdiff"), ([0.5, 1.0], [0.25, 0.5, 1.0], [0.3, 0.7, 0.9], [2.0], [0.125]), (1, 3), (1e-4, 1e-7), ((10, 64), (4, 10)), (False, True)
    ):
        u = vectors(24, p, True)
        where = f"{fam}, output times {times}, p={p}, tolerance {tol:.0e}, Krylov size {mi} to {ma}, divided by t {task1}"
        judge(res, name, where, A[fam], u, times, tol, task1=task1, m_init=mi, mmin=mi, mmax=ma)
        if len(res.problems) > 20:
            return
    # the same call gives the same answer whatever was solved before
    u = vectors(24, 2, True)
    first = judge(res, name, "history: first call", A["advdiff"], u, [1.0], 1e-6, m_init=10, mmin=4, mmax=20)
    judge(res, name, "history: other call", A["stiffdiff"], vectors(24, 1, False), [0.5], 1e-9, m_init=4, mmin=4, mmax=8)
    again = judge(res, name, "history: same call again", A["advdiff"], u, [1.0], 1e-6, m_init=10, mmin=4, mmax=20)
    if first and again and name not in ("pmex", "pmex_1s", "pmex_ne1s"):
        res.check(np.array_equal(first[0], again[0]), "depends on the calls before", f"{name}: the same call gives another answer after another call")
    # tighter requests give answers that are not worse than asked
    for tol in (1e-2, 1e-5, 1e-10):
        judge(res, name, f"tolerance {tol}", A["advdiff"], u, [1.0], tol, m_init=10, mmin=4, mmax=24)
    res.sample = {"solver": name}


PROBLEMS = [("stiffdiff", 2, [1.0], 1e-6), ("advdiff", 3, [0.5, 1.0], 1e-6), ("adv", 1, [1.0], 1e-4), ("nonnormal", 0, [1.0], 1e-6)]


def drive(rank, name, comp):
    import solvers
    from mpi4py import MPI

    comm = MPI.COMM_WORLD
    off = np.concatenate([[0], np.cumsum(comp)])
    sl = slice(off[rank], off[rank + 1])
    out = []
    for fam, p, times, tol in PROBLEMS:
        A = families(24)[fam]
        u = vectors(24, p, False)

        def op(v):
            return A[sl] @ np.concatenate(comm.allgather(v.copy()))

        w, stats = getattr(solvers, name)(times, op, u[:, sl].copy(), tol=tol, m_init=10, mmin=4, mmax=16)
        out.append((np.asarray(w), [float(x) for x in stats[:3]]))
    return out


def run_divide(case, res):
    name, comp = case["solver"], case["comp"]
    r = execute(len(comp), drive, (name, comp), timeout=300)
    res.states += r.states
    res.transitions += len(r.trace)
    res.traces += 1
    if not r.ok:
        res.bad("run failed", f"{name} over {comp}: {r.problem()}")
        return
    for i, (fam, p, times, tol) in enumerate(PROBLEMS):
        A = families(24)[fam]
        u = vectors(24, p, False)
        w = np.concatenate([v[i][0] for v in r.values], axis=1)
        where = f"{name} over {comp}: {fam}, p={p}, output times {times}"
        for k, t in enumerate(times):
            ref = reference(A, u, t)
            err = np.abs(w[k] - ref).max()
            res.evaluations += 1
            res.check(err <= FACTOR * tol + 1e-10 * (1 + np.abs(ref).max()), "wrong answer", f"{where}: off by {err:.3e} at t={t}, tolerance {tol:.0e}")
        res.check(all(v[i][1] == r.values[0][i][1] for v in r.values), "processes agree", f"{where}: steps differ {[v[i][1] for v in r.values]}")
    res.sample = {"solver": name, "division": comp}


def run_exode(case, res):
    import solvers

    mname = case["method"]
    for fresh in (True, False):
        if hasattr(solvers.exode, "first_step"):
            del solvers.exode.first_step
        for n, p, (atol, rtol), ctl in itertools.product((3, 24), (0, 1, 2, 3, 4), ((1e-4, 1e-4), (1e-7, 1e-7), (1e-6, 1e-3)), ("deadbeat", "PI3040", "H211B")):
            for fam, A in families(n).items():
                u = vectors(n, p, False)
                mine = u.copy()
                if fresh and hasattr(solvers.exode, "first_step"):
                    del solvers.exode.first_step
                res.evaluations += 1
                res.states += 1
                where = f"exode {mname} {ctl}: {fam} n={n}, p={p}, tolerances {atol:.0e} {rtol:.0e}, {'first call' if fresh else 'after other calls'}"
                calls = []
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        w, st = solvers.exode(1.0, lambda v: (calls.append(1), A @ v)[1], mine, method=mname, controller=ctl, atol=atol, rtol=rtol)
                except Exception as e:
                    res.bad("solver raises", f"{where}: {type(e).__name__}: {e}")
                    continue
                res.transitions += len(calls)
                ref = reference(A, u, 1.0)
                ratio = np.abs(w - ref).max() / (atol + rtol * max(np.abs(ref).max(), np.abs(u[0]).max()))
                res.worst = max(getattr(res, "worst", 0.0), float(ratio))
                res.check(np.array_equal(mine, u), "inputs changed", f"{where}: the vectors given were changed")
                res.check(ratio <= 60, "wrong answer", f"{where}: off by {ratio:.3g} times the tolerance")
                if len(res.problems) > 20:
                    return
    res.sample = {"method": mname}


def run_dcgs2(case, res):
    A = families(24)["advdiff"]
    u = vectors(24, 2, True)
    probe = Result()
    judge(probe, "dcgs2", "advdiff", A, u, [1.0], 1e-6)
    res.evaluations += 1
    res.states += 1
    if probe.problems:
        res.bad("dcgs2: wrong answer", str(probe.problems[0])[:300])
    res.sample = {"solver": "dcgs2"}


def run_case(case):
    res = Result()
    {"all2": run_all2, "family": run_family, "times": run_times, "divide": run_divide, "exode": run_exode, "dcgs2": run_dcgs2}[case["kind"]](case, res)
    if hasattr(res, "worst"):
        res.sample = dict(res.sample or {}, **{"worst error / tolerance": float(f"{res.worst:.3g}")})
    return res
