"""Linear and nonlinear Krylov solvers: all small systems of bounded families against dense linear algebra, and all ways of
dividing a vector among processes."""
import itertools
import warnings

import numpy as np

from .. import repoenv
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
KERNELS = True
RULE = (
    "one evaluation = one call of a solver on one system (matrix, right-hand side, first guess, restart length, tolerance, preconditioner, "
    "division among processes) compared with dense linear algebra; distinct by these"
)
ASSUMPTIONS = [
    "systems of 3 to 12 unknowns; the solver needs more unknowns per process than its restart length",
    "systems on which the Krylov space is exhausted before the tolerance is met may end in an exception (the solver documents it), never in a false success",
]
CASE_TIMEOUT = 900
BUDGET = {"quick": 700, "thorough": 3600}


def _gcrot_systems():
    n = 6
    t = np.add.outer(np.arange(n), 2.0 * np.arange(n))
    out = [np.eye(n) * 3 + np.sin(t + k) for k in (1, 2)]
    out += [np.diag(np.arange(1.0, n + 1)), -2 * np.eye(n), np.eye(n) + 10 * np.diag(np.ones(n - 1), 1), np.eye(4) * 3 + np.cos(t[:4, :4])]
    return out


GCROT = _gcrot_systems()


def bounds(tier):
    return {
        "all 3x3 matrices": "entries in {-1,0,1} (19683) x 2 right-hand sides x restart 1, 2 (quick: restart 2, and 1 for a ninth)",
        "5x5 systems": "243 (729) matrices of positive type x right-hand sides x guesses x restart x preconditioner x tolerance x rescaling",
        "division": "all divisions of 12 unknowns among 2 and 3 processes with more unknowns than the restart length on each",
        "edge": "tolerances just above and just below the residual reached when the iterations run out, on the 5x5 systems",
        "gcrot": f"all histories of 3 (4) solves over {len(GCROT)} systems of two sizes x guesses x basis sizes x options",
        "nonlinear": "81 (243) quadratic systems x guesses x line searches x divisions",
    }


def setup():
    repoenv.use_model_mpi()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from device import CpuDevice

    CpuDevice.get_default()
    import solvers.fgmres  # noqa
    import solvers.nonlin  # noqa


def cases(tier, seed):
    for a, b, c in itertools.product((-1, 0, 1), repeat=3):
        yield {"kind": "all3", "row": [a, b, c], "restarts": [2, 1] if tier != "quick" or (a, b) == (1, 0) else [2]}
    for lo in range(0, 243 if tier == "quick" else 729, 9):
        yield {"kind": "five", "lo": lo, "hi": lo + 9}
    comps = [c for p in (2, 3) for c in itertools.product(range(3, 11), repeat=p) if sum(c) == 12]
    for i in range(0, len(comps), 3):
        yield {"kind": "divide", "comps": [list(c) for c in comps[i : i + 3]]}
    for lo in range(0, 81 if tier == "quick" else 243, 9):
        yield {"kind": "newton", "lo": lo, "hi": lo + 9}
    for comp in ([4, 4], [3, 5], [6, 3], [3, 3, 3], [3, 4, 5]):
        yield {"kind": "newtondiv", "comp": comp}
    for still in ([0], [1], [2], [0, 1], [1, 2]):
        yield {"kind": "still", "still": still}
    yield {"kind": "reductions"}
    for lo in range(0, 243 if tier == "quick" else 729, 27):
        yield {"kind": "edge", "lo": lo, "hi": lo + 27, "step": 2 if tier == "quick" else 1}
    for first in range(len(GCROT)):
        yield {"kind": "gcrot", "first": first, "depth": 3 if tier == "quick" else 4}


# ------------------------------------------------------------------ oracle


def krylov_min(A, r0, M, k):
    """Smallest |r0 - A z| over z in the k-th (right-preconditioned) Krylov space, and whether that space has full dimension."""
    if np.linalg.norm(r0) < 1e-300:
        return 0.0, False
    V = [r0 / np.linalg.norm(r0)]
    Z = []
    full = True
    for _ in range(k):
        z = M @ V[-1]
        Z.append(z)
        w = A @ z
        s = np.linalg.norm(w)
        for _ in range(2):
            for v in V:
                w = w - (v @ w) * v
        if s == 0 or np.linalg.norm(w) < 1e-4 * s:
            full = False
            break
        V.append(w / np.linalg.norm(w))
    AZ = A @ np.array(Z).T
    full = full and np.linalg.cond(AZ) < 1e5
    y, *_ = np.linalg.lstsq(AZ, r0, rcond=None)
    return np.linalg.norm(r0 - AZ @ y), full


def call(A, b, **kw):
    from solvers.fgmres import fgmres

    n = {"A": 0}
    b0 = b.copy()
    x0 = kw.get("x0")
    g0 = None if x0 is None else x0.copy()

    def op(v):
        n["A"] += 1
        return A @ v

    try:
        out = fgmres(op, b, **kw)
    except (ValueError, np.linalg.LinAlgError) as e:
        return None, f"{type(e).__name__}: {e}", n
    if not np.array_equal(b, b0) or (x0 is not None and not np.array_equal(x0, g0)):
        return out, "changed", n
    return out, None, n


def honest(res, where, A, b, out, tol, restart, maxiter, x0=None):
    """The answer says what it is."""
    x, norm_r, norm_b, niter, flag, hist = out
    nb = np.linalg.norm(b)
    true = np.linalg.norm(b - A @ x)
    scale = nb + np.linalg.norm(A) * np.linalg.norm(x)
    res.check(np.all(np.isfinite(x)) or flag != 0, "success with nothing", f"{where}: flag 0 with a solution that is not finite")
    if not np.all(np.isfinite(x)):
        return
    res.check(abs(norm_b - nb) <= 1e-12 * nb, "norm of the right-hand side", f"{where}: reported {norm_b}, is {nb}")
    res.check(abs(norm_r - true) <= 1e-13 * scale, "residual of the answer", f"{where}: reported residual {norm_r}, that of the answer is {true}")
    res.check((flag == 0) == bool(norm_r < tol * norm_b or (norm_r == 0)) and flag in (0, -1), "flag",
              f"{where}: flag {flag} with residual {norm_r / nb:.3e} and tolerance {tol:.1e}")
    res.check(abs(hist[-1][0] - true / nb) <= 1e-13 * scale / nb, "history", f"{where}: last residual of the history {hist[-1][0]}, true one {true / nb}")
    start = np.linalg.norm(b if x0 is None else b - A @ x0) / nb
    res.check(abs(hist[0][0] - start) <= 1e-12 * (1 + start), "history", f"{where}: first residual of the history {hist[0][0]}, that of the guess {start}")
    res.check(0 <= niter <= restart * maxiter, "iterations", f"{where}: {niter} iterations, at most {restart}x{maxiter} allowed")


def optimal(res, where, A, b, out, restart, M, x0):
    """Within the first cycle each residual is the smallest one possible."""
    hist = [h[0] for h in out[5]]
    nb = np.linalg.norm(b)
    r0 = b if x0 is None else b - A @ x0
    niter = out[3]
    k1 = min(restart, niter)
    for k in range(1, k1 + 1):
        best, full = krylov_min(A, r0, M, k)
        if not full:
            return
        if k < len(hist):
            ok = abs(hist[k] - best / nb) <= 1e-7 * (np.linalg.norm(r0) / nb) + 1e-12
            res.check(ok, "smallest residual", f"{where}: residual {hist[k]:.6e} after {k} iterations, the smallest possible is {best / nb:.6e}")


def run_all3(case, res):
    row = case["row"]
    raised = 0
    for rest in itertools.product((-1, 0, 1), repeat=6):
        A = np.array(list(row) + list(rest), float).reshape(3, 3)
        for b in (np.array([1.0, 2.0, -1.0]), np.array([0.0, 1.0, 1.0])):
            for m in case["restarts"]:
                where = f"A={A.astype(int).tolist()}, b={b.astype(int).tolist()}, restart {m}"
                out, err, n = call(A, b, tol=1e-8, restart=m, maxiter=2)
                res.evaluations += 1
                res.states += 1
                res.transitions += n["A"]
                best, full = krylov_min(A, b, np.eye(3), min(m + 1, 2))
                if out is None:
                    raised += 1
                    if full and m == 1 and abs(np.linalg.det(A)) > 0.5:
                        # two independent directions: the first cycle cannot break down; the second starts from another residual
                        y = np.linalg.lstsq((A @ b)[:, None], b, rcond=None)[0]
                        r1 = b - A @ (b * y)
                        if np.linalg.norm(r1) > 1e-8 and krylov_min(A, r1, np.eye(3), 2)[1] and abs(b @ A @ b) > 1e-8:
                            res.bad("solvable system fails", f"{where}: {err}")
                    continue
                if err:
                    res.bad("inputs changed", f"{where}: right-hand side or guess changed")
                honest(res, where, A, b, out, 1e-8, m, 2)
                optimal(res, where, A, b, out, m, np.eye(3), None)
        if len(res.problems) > 20:
            return
    res.sample = {"row": row, "ended in an exception": raised}


def matrix5(i):
    """Positive type: I*4 + sparse part; the digits of i in base 3 choose six of the entries."""
    d = [(i // 3**k) % 3 - 1 for k in range(6)]
    A = np.diag([4.0, 5.0, 6.5, 3.0, 8.0])
    A[0, 1] += d[0] + 0.25
    A[1, 2] += d[1]
    A[2, 3] += d[2] - 0.5
    A[3, 4] += d[3]
    A[4, 0] += d[4]
    A[2, 0] += d[5] * 1.5
    return A


def run_five(case, res):
    P = np.diag(1.0 / np.array([4.0, 5.0, 6.5, 3.0, 8.0])) + np.diag([0.05] * 4, 1)
    for i in range(case["lo"], case["hi"]):
        A = matrix5(i)
        xs = np.array([1.0, -2.0, 0.5, 3.0, -1.0])
        bs = [A @ xs, np.array([1.0, 1.0, 1.0, 1.0, 1.0]), np.array([0.0, 0.0, 1.0, 1e-6, 0.0]), np.zeros(5)]
        for ib, b in enumerate(bs):
            sol = np.linalg.solve(A, b)
            guesses = {"none": None, "zero": np.zeros(5), "far": np.array([3.0, 1.0, -1.0, 2.0, 7.0]), "exact": sol,
                       "near": sol * (1 + 1e-13 * np.array([1, -1, 2, 1, 1])), "close": sol * (1 + 1e-7 * np.array([1, -1, 2, 1, 3]))}
            for g, m, pre, tol, heg in itertools.product(guesses, (1, 2, 4), ("none", "fixed", "flexible"), (1e-3, 1e-10), (False, True)):
                if heg and guesses[g] is None:
                    continue
                if (heg or pre == "flexible") and m == 1:
                    continue
                x0 = guesses[g]
                where = f"system {i}.{ib}, guess {g}, restart {m}, preconditioner {pre}, tolerance {tol}, rescaled {heg}"
                calls = []

                def flex(v):
                    calls.append(1)
                    return P @ v * (1.0 + 0.1 * (len(calls) % 3))

                kw = {"x0": None if x0 is None else x0.copy(), "tol": tol, "restart": m, "maxiter": 40, "hegedus": heg}
                if pre == "fixed":
                    kw["preconditioner"] = lambda v: P @ v
                elif pre == "flexible":
                    kw["preconditioner"] = flex
                out, err, n = call(A, b, **kw)
                res.evaluations += 1
                res.states += 1
                res.transitions += n["A"]
                M = np.eye(5) if pre == "none" else P
                start = x0
                if heg and x0 is not None and np.linalg.norm(A @ x0) > 0:
                    w = A @ x0
                    start = x0 * ((b @ w) / (w @ w))
                if not b.any():
                    res.check(out is not None and not out[0].any() and out[4] == 0, "zero right-hand side", f"{where}: {out and out[:5]} {err}")
                    continue
                r0 = b if start is None else b - A @ start
                if out is None:
                    # an exhausted Krylov space is the only excuse
                    k = min(m + 1, 5)
                    if np.linalg.norm(r0) == 0 or krylov_min(A, r0, M, k)[1]:
                        res.bad("solvable system fails", f"{where}: {err}")
                    continue
                if err:
                    res.bad("inputs changed", f"{where}: right-hand side or guess changed")
                honest(res, where, A, b, out, tol, m, 40, start)
                if np.linalg.norm(r0) > 1e-9 * np.linalg.norm(b):
                    optimal(res, where, A, b, out, m, M, start)
                if krylov_min(A, r0, M, min(m + 1, 5))[1] or np.linalg.norm(r0) == 0:
                    res.check(out[4] == 0, "solvable system not solved", f"{where}: flag {out[4]}, residual {out[1] / out[2]:.3e} after {out[3]} iterations")
                if len(res.problems) > 20:
                    return
    res.sample = {"systems": [case["lo"], case["hi"]]}


def run_edge(case, res):
    """Iterations that run out near the tolerance: success is said on the right side of it only."""
    for i in range(case["lo"], case["hi"], case["step"]):
        A = matrix5(i)
        b = np.array([1.0, -2.0, 0.5, 3.0, 1.5])
        for m, outer, x0 in itertools.product((1, 2, 3, 4), (1, 2), (None, np.ones(5))):
            kw = {"x0": x0, "restart": m, "maxiter": outer}
            out, err, n = call(A, b, tol=1e-15, **kw)
            if out is None or not out[1] > 1e-9 * out[2]:
                continue
            for factor in (0.05, 0.2, 0.6, 0.97, 1.03, 1.5):
                tol = factor * out[1] / out[2]
                o2, err, n = call(A, b, tol=tol, **kw)
                res.evaluations += 1
                res.states += 1
                res.transitions += n["A"]
                where = f"system {i}, restart {m}, {outer} cycles at most, tolerance {tol:.6e}, guess {x0 is not None}"
                if o2 is None:
                    res.bad("solvable system fails", f"{where}: {err}")
                    continue
                start = x0
                if x0 is not None:
                    # the first guess may be rescaled
                    start = x0 if abs(o2[5][0][0] * o2[2] - np.linalg.norm(b - A @ x0)) <= 1e-9 * o2[2] else x0 * ((b @ (A @ x0)) / ((A @ x0) @ (A @ x0)))
                honest(res, where, A, b, o2, tol, m, outer, start)
        if len(res.problems) > 20:
            return
    res.sample = {"systems": [case["lo"], case["hi"]]}


def run_gcrot(case, res):
    """Histories of solves: the vectors kept from one for the next must never make an answer look better than it is."""
    import importlib
    import sys

    import solvers  # noqa

    class Operator:
        def __init__(self, A):
            self.A, self.n = A, 0

        def matvec(self, v):
            self.n += 1
            return self.A @ v

        __call__ = matvec

    for rest in itertools.product(range(len(GCROT)), repeat=case["depth"] - 1):
        history = (case["first"],) + rest
        for (m, k), fresh, guess, tol in itertools.product(((20, None), (2, 1), (3, 2)), (True, False), (0, 1, 2), (1e-4, 1e-9)):
            if not fresh and guess != 1:
                continue
            gcrot = importlib.reload(sys.modules["solvers.gcrot"]).gcrot
            for j, i in enumerate(history):
                A = GCROT[i]
                sol = np.arange(1.0, len(A) + 1)
                b = A @ sol * (j + 1)
                x0 = (None, np.ones(len(A)), sol * (j + 1.0))[guess]
                where = f"gcrot, solve {j} of systems {history}, guess {guess}, sizes {m}, {k}, recycled vectors recomputed: {fresh}, tolerance {tol}"
                op = Operator(A)
                b0, g0 = b.copy(), None if x0 is None else x0.copy()
                try:
                    x, beta, niter, flag, _ = gcrot(op, b, x0=x0, tol=tol, m=m, k=k, discard_C=fresh, maxiter=40)
                except (ValueError, np.linalg.LinAlgError) as e:
                    if fresh and k is None:
                        res.bad("solvable system fails", f"{where}: {type(e).__name__}: {e}")
                    break
                res.evaluations += 1
                res.states += 1
                res.transitions += op.n
                nb = np.linalg.norm(b)
                true = np.linalg.norm(b - A @ x) if np.all(np.isfinite(x)) else np.inf
                scale = nb + np.linalg.norm(A) * np.linalg.norm(x)
                res.check(flag != 0 or true <= tol * nb + 1e-13 * scale, "flag", f"{where}: flag {flag} with residual {true / nb:.3e}")
                if fresh and k is None:
                    res.check(flag == 0, "solvable system not solved", f"{where}: flag {flag}, residual {true / nb:.3e} after {niter} iterations")
                res.check(np.array_equal(b, b0) and (x0 is None or np.array_equal(x0, g0)), "inputs changed", f"{where}: right-hand side or guess changed")
        if len(res.problems) > 20:
            return
    importlib.reload(sys.modules["solvers.gcrot"])
    res.sample = {"first": case["first"]}


def matrix12():
    A = np.diag(np.linspace(3.0, 9.0, 12))
    for i in range(12):
        A[i, (i + 1) % 12] += 0.8
        A[i, (i + 5) % 12] -= 0.4 + 0.05 * i
    return A


def drive_divide(rank, comps):
    from mpi4py import MPI

    from device import CpuDevice
    from solvers.fgmres import fgmres
    from solvers.global_operations import global_dotprod, global_inf_norm, global_norm

    A = matrix12()
    b = np.cos(np.arange(12.0) * 1.3) + 0.2
    x0 = np.sin(np.arange(12.0))
    out = []
    world = MPI.COMM_WORLD
    for comp in comps:
        comm = world.Split(0 if rank < len(comp) else 1, rank)
        if rank >= len(comp):
            out.append(None)
            continue
        off = np.concatenate([[0], np.cumsum(comp)])
        sl = slice(off[rank], off[rank + 1])
        dev = CpuDevice(comm)

        def op(v):
            parts = comm.allgather(v)
            return A[sl] @ np.concatenate(parts)

        def pre(v):
            return v / np.diag(A)[sl]

        row = []
        for m, p, g, tol in itertools.product((1, 2), (None, pre), (False, True), (1e-2, 1e-9)):
            if m >= comp[rank]:
                continue
            r = fgmres(op, b[sl], x0=x0[sl] if g else None, tol=tol, restart=m, maxiter=200, preconditioner=p, device=dev)
            row.append((r[0], float(r[1]), float(r[2]), r[3], r[4], [h[0] for h in r[5]]))
        red = [float(global_norm(b[sl], dev)), float(global_dotprod(b[sl], x0[sl], comm)), float(global_inf_norm(x0[sl] * 3, comm))]
        out.append((row, red))
    return out


def run_divide(case, res):
    comps = case["comps"]
    n = max(len(c) for c in comps)
    ref = execute(1, drive_divide, ([[12]],), timeout=200)
    r = execute(n, drive_divide, (comps,), timeout=300)
    if not r.ok or not ref.ok:
        res.bad("run failed", f"{comps}: {r.problem() or ref.problem()}")
        return
    rows, red0 = ref.values[0][0]
    A = matrix12()
    b = np.cos(np.arange(12.0) * 1.3) + 0.2
    x0 = np.sin(np.arange(12.0))
    want = [np.linalg.norm(b), b @ x0, np.abs(x0 * 3).max()]
    for ic, comp in enumerate(comps):
        parts = [r.values[k][ic] for k in range(len(comp))]
        for p in parts:
            res.check(np.allclose(p[1], want, rtol=1e-14), "global sums", f"{comp}: {p[1]} instead of {want}")
        for j in range(len(rows)):
            where = f"division {comp}, problem {j}"
            x = np.concatenate([p[0][j][0] for p in parts])
            scal = [p[0][j][1:] for p in parts]
            res.check(all(s == scal[0] for s in scal), "processes agree", f"{where}: processes report {scal}")
            norm_r, norm_b, niter, flag, hist = scal[0]
            true = np.linalg.norm(b - A @ x)
            res.check(abs(true - norm_r) <= 1e-12 * norm_b, "residual of the answer", f"{where}: reported {norm_r}, is {true}")
            rx, rr, rb, rn, rf, rh = rows[j]
            res.check(flag == rf == 0, "flag", f"{where}: flag {flag}, on one process {rf}")
            res.check(abs(niter - rn) <= 1, "iterations", f"{where}: {niter} iterations, on one process {rn}")
            k = min(len(hist), len(rh), 6)
            res.check(np.allclose(hist[:k], rh[:k], rtol=1e-5, atol=1e-12), "history", f"{where}: {hist[:k]} instead of {rh[:k]}")
    res.states += r.states
    res.transitions += len(r.trace)
    res.traces += 1


def drive_still(rank, still):
    """Uncoupled parts: on some processes the guess already is the solution (or everything is zero)."""
    from mpi4py import MPI

    from device import CpuDevice
    from solvers.fgmres import fgmres

    comm = MPI.COMM_WORLD
    dev = CpuDevice(comm)
    A = np.diag(np.array([3.0, 4.0, 5.5, 7.0]) + rank) + np.diag([0.5, -0.3, 0.8], 1)
    out = []
    for zero, m, tol in itertools.product((False, True), (1, 2), (1e-3, 1e-10)):
        sol = np.array([1.0, -2.0, 0.5, 3.0]) * (0 if zero and rank in still else 1)
        b = A @ sol
        x0 = sol.copy() if rank in still else np.ones(4)
        if not zero:
            b = A @ x0 if rank in still else b
        r = fgmres(lambda v: A @ v, b, x0=x0, tol=tol, restart=m, maxiter=200, device=dev)
        out.append((float(np.linalg.norm(b - A @ r[0])), float(r[1]), float(r[2]), r[3], r[4], tol))
    return out


def run_still(case, res):
    r = execute(3, drive_still, (case["still"],), timeout=60)
    if not r.ok:
        res.bad("run failed", f"guess exact on processes {case['still']} of 3: {r.problem()}")
        return
    for j in range(len(r.values[0])):
        v = [x[j] for x in r.values]
        where = f"guess exact on processes {case['still']} of 3, problem {j}"
        true = np.sqrt(sum(x[0] ** 2 for x in v))
        res.check(all(x[1:] == v[0][1:] for x in v), "processes agree", f"{where}: {v}")
        res.check(abs(true - v[0][1]) < 1e-12 * v[0][2], "residual of the answer", f"{where}: reported {v[0][1]}, is {true}")
        res.check(v[0][4] == 0 and true < v[0][5] * v[0][2], "solvable system not solved", f"{where}: flag {v[0][4]}, residual {true / v[0][2]:.3e}")
    res.states += r.states
    res.transitions += len(r.trace)


# ------------------------------------------------------------------ nonlinear


def quad(i):
    d = [(i // 3**k) % 3 - 1 for k in range(5)]
    A = np.diag([4.0, 5.0, 6.0, 3.5])
    A[0, 1] = d[0]
    A[1, 2] = d[1] + 0.5
    A[3, 0] = d[2]
    c = 0.1 * np.array([d[3], 1, d[4], -1])
    b = np.array([1.0, -2.0, 0.5, 3.0])
    return A, c, b


def run_newton(case, res):
    import contextlib
    import io

    from solvers.nonlin import newton_krylov

    for i in range(case["lo"], case["hi"]):
        A, c, b = quad(i)

        def F(x):
            v = x.ravel()
            return (A @ v + c * v * v - b).reshape(x.shape)

        for g, ls, ftol, m, shape in itertools.product((0.0, 1.0, -2.0), ("armijo", "wolfe", None), (1e-4, 1e-9), (2, 3), ((4,), (2, 2))):
            x0 = np.full(shape, g) + 0.1 * np.arange(4.0).reshape(shape)
            keep = x0.copy()
            where = f"system {i}, guess {g}, line search {ls}, tolerance {ftol}, restart {m}, shape {shape}"
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    x, it, hist = newton_krylov(F, x0, fgmres_restart=m, f_tol=ftol, line_search=ls, maxiter=60)
            except Exception as e:
                res.bad("solvable equation fails", f"{where}: {type(e).__name__}: {e}")
                continue
            res.states += 1
            res.transitions += it
            true = np.abs(F(x)).max()
            res.check(np.array_equal(x0, keep) and x.shape == x0.shape, "inputs", f"{where}: guess changed or shape {x.shape}")
            res.check(true <= ftol, "equation not solved", f"{where}: |F| = {true:.3e} above the tolerance after {it} iterations")
            res.check(hist[-1][0] == true and abs(hist[0][0] - np.abs(F(x0)).max()) < 1e-14, "history", f"{where}: history {hist[0][0]}..{hist[-1][0]}, last |F| {true}")
            res.check(len(hist) == it + 1, "iterations", f"{where}: {it} iterations with {len(hist)} residuals")
            if len(res.problems) > 20:
                return
        # too few iterations: must not be announced as a solution
        with contextlib.redirect_stdout(io.StringIO()) as buf:
            x, it, hist = newton_krylov(F, np.full(4, 5.0), fgmres_restart=3, f_tol=1e-13, maxiter=1)
        true = np.abs(F(x)).max()
        if true > 1e-13:
            res.check("solution was found" not in buf.getvalue(), "false success", f"system {i}: solution announced with |F| = {true}")


def drive_newton(rank, comp):
    import contextlib
    import io

    from mpi4py import MPI

    from solvers.nonlin import newton_krylov

    comm = MPI.COMM_WORLD
    n = sum(comp)
    off = np.concatenate([[0], np.cumsum(comp)])
    sl = slice(off[rank], off[rank + 1])
    A = np.diag(np.linspace(4, 7, n)) + np.diag(np.full(n - 1, 0.7), 1) - np.diag(np.full(n - 2, 0.4), -2)
    b = np.cos(np.arange(float(n)))

    def F(v):
        x = np.concatenate(comm.allgather(v))
        return (A @ x + 0.1 * x * x - b)[sl]

    out = []
    for ls, ftol in itertools.product(("armijo", "wolfe", None), (1e-3, 1e-9)):
        with contextlib.redirect_stdout(io.StringIO()):
            x, it, hist = newton_krylov(F, np.ones(n)[sl], fgmres_restart=2, f_tol=ftol, line_search=ls, maxiter=60)
        out.append((x, it, [float(h[0]) for h in hist], F(x)))
    return out


def run_newtondiv(case, res):
    comp = case["comp"]
    r = execute(len(comp), drive_newton, (comp,), timeout=300)
    if not r.ok:
        res.bad("run failed", f"{comp}: {r.problem()}")
        return
    ref = execute(1, drive_newton, ([sum(comp)],), timeout=300)
    for j, (ls, ftol) in enumerate(itertools.product(("armijo", "wolfe", None), (1e-3, 1e-9))):
        where = f"division {comp}, line search {ls}, tolerance {ftol}"
        vals = [v[j] for v in r.values]
        F = np.abs(np.concatenate([v[3] for v in vals])).max()
        res.check(F <= ftol, "equation not solved", f"{where}: |F| = {F:.3e}")
        res.check(all(v[1] == vals[0][1] and v[2] == vals[0][2] for v in vals), "processes agree", f"{where}: iterations {[v[1] for v in vals]}, residuals differ")
        res.check(vals[0][2][-1] == F, "history", f"{where}: last residual {vals[0][2][-1]}, is {F}")
        x = np.concatenate([v[0] for v in vals])
        res.check(np.allclose(x, ref.values[0][j][0], atol=2 * ftol), "division", f"{where}: solution differs from that on one process")
    res.states += r.states
    res.transitions += len(r.trace)
    res.traces += 1


def drive_red(rank, n):
    from mpi4py import MPI

    from device import CpuDevice
    from solvers.global_operations import global_dotprod, global_inf_norm, global_norm

    comm = MPI.COMM_WORLD
    dev = CpuDevice(comm)
    out = []
    for vals in itertools.product((-2.0, 0.0, 1.0), repeat=n):
        v = np.array([vals[rank], 0.5 * rank, -vals[rank]])
        w = np.array([1.0, vals[(rank + 1) % n], 2.0])
        out.append((float(global_norm(v, dev)), float(global_dotprod(v, w, comm)), float(global_inf_norm(v, comm)), float(global_norm(v)),
                    float(global_dotprod(v, w)), float(global_inf_norm(v))))
    return out


def run_red(case, res):
    for n in (1, 2, 3):
        r = execute(n, drive_red, (n,), timeout=120)
        if not r.ok:
            res.bad("run failed", f"{n} processes: {r.problem()}")
            return
        for j, vals in enumerate(itertools.product((-2.0, 0.0, 1.0), repeat=n)):
            v = np.concatenate([[vals[k], 0.5 * k, -vals[k]] for k in range(n)])
            w = np.concatenate([[1.0, vals[(k + 1) % n], 2.0] for k in range(n)])
            want = [np.sqrt(v @ v), v @ w, np.abs(v).max()] * 2
            for k in range(n):
                res.check(np.allclose(r.values[k][j], want, rtol=1e-14), "global sums", f"{n} processes, {vals}: {r.values[k][j]} instead of {want}")
        res.states += r.states
        res.transitions += len(r.trace)


RUN = {"all3": run_all3, "five": run_five, "divide": run_divide, "still": run_still, "newton": run_newton, "newtondiv": run_newtondiv, "reductions": run_red,
       "edge": run_edge, "gcrot": run_gcrot}


def run_case(case):
    res = Result()
    RUN[case["kind"]](case, res)
    return res
