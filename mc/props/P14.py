"""Jacobian-vector products are the derivative of the tendencies: the whole Jacobian, column by column, for every set of equations."""
import contextlib
import io
import warnings

import numpy as np

from .. import repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
KERNELS = True
RULE = (
    "one evaluation = one column of the Jacobian (one unknown of the grid perturbed) by one method, compared with fourth-order central "
    "differences of the real tendency; distinct by equations, grid, state, unknown and method"
)
ASSUMPTIONS = [
    "the product is linear in the direction (checked on sums of columns), so the unit directions decide all directions",
    "the states have non-zero jumps and winds of both signs at the sides of the elements, away from the kinks of the Riemann fluxes",
]
CASE_TIMEOUT = 800
BUDGET = {"quick": 700, "thorough": 3600}

WORLDS = [
    ("SW", 6, dict(case_number=6, num_elements_horizontal=1, num_solpts=2)),
    ("SW", 6, dict(case_number=5, num_elements_horizontal=1, num_solpts=3)),
    ("SW", 6, dict(case_number=2, num_elements_horizontal=2, num_solpts=1)),
    ("EULER", 6, dict(case_number=31, num_elements_horizontal=1, num_elements_vertical=1, num_solpts=2)),
    ("EULER", 6, dict(case_number=21, num_elements_horizontal=1, num_elements_vertical=2, num_solpts=2)),
    ("EULER", 6, dict(case_number=77, num_elements_horizontal=1, num_elements_vertical=2, num_solpts=1)),
    ("EULER", 6, dict(case_number=22, num_elements_horizontal=2, num_elements_vertical=1, num_solpts=1)),
    ("BUBBLE", 1, dict(num_solpts=2, num_elements_horizontal=2, num_elements_vertical=3)),
    ("BUBBLE", 1, dict(num_solpts=3, num_elements_horizontal=2, num_elements_vertical=2)),
    ("BUBBLE", 1, dict(num_solpts=1, num_elements_horizontal=4, num_elements_vertical=3)),
]


def bounds(tier):
    return {"columns": "all unknowns of the grid", "models": f"{len(WORLDS)} grids of the three sets of equations", "states": 2 if tier == "quick" else 6,
            "matrices": "assembled from products on 1-6 processes (thorough 1-8)",
            "methods": "complex step, finite difference, rational (1 - dt/2 J)"}


def setup():
    repoenv.use_model_mpi()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sim.warm()


PARTS = 4


def cases(tier, seed):
    for w in range(len(WORLDS)):
        for state in range(2 if tier == "quick" else 6):
            for part in range(PARTS):
                yield {"world": w, "state": state, "part": part}
    for size in (1, 2, 3, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8):
        for n in (1, 2, 5):
            for kind in ("dense", "sparse", "zero", "diagonal"):
                for local in (False, True):
                    yield {"matrix": kind, "size": size, "n": n, "local": local}


def entries(kind, N):
    k = np.arange(N * N, dtype=float).reshape(N, N)
    A = np.sin(1.0 + k) + 2.0
    if kind == "sparse":
        A = np.where((k * 7919) % 5 < 1, A, 0.0)
    if kind == "zero":
        A = 0.0 * A
    if kind == "diagonal":
        A = np.diag(np.diag(A))
    return A


def assemble(rank, size, case):
    """Matrix built column by column from the products of a known operator; every process owns some rows."""
    from mpi4py import MPI
    from solvers.eigenvalue_util import gen_matrix
    from solvers import MatvecOp

    n = case["n"]
    A = entries(case["matrix"], n * size)[rank * n : (rank + 1) * n]

    def product(v):
        return A @ np.concatenate(MPI.COMM_WORLD.allgather(np.array(v)))

    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        J = gen_matrix(MatvecOp(product, float, (n,)), jac_file_name=f"jac{rank if case['local'] else ''}.npz", local=case["local"])
    return None if J is None else np.asarray(J.todense())


def run_matrix(case):
    import scipy.sparse

    res = Result()
    size, n = case["size"], case["n"]
    r = execute(size, assemble, (size, case), timeout=100)
    where = f"matrix of {case}"
    if not r.ok:
        res.bad("matrix", f"{where}: {r.problem()}")
        return res
    A = entries(case["matrix"], n * size)
    for k in range(size):
        want = A[k * n : (k + 1) * n, k * n : (k + 1) * n] if case["local"] else (A if k == 0 else None)
        got = r.values[k]
        if want is None or got is None:
            res.check(want is None and got is None, "matrix", f"{where}: process {k} has {'no' if got is None else 'a'} matrix")
            continue
        res.check(got.shape == want.shape and np.array_equal(got, want), "matrix", f"{where}: process {k} has {got.tolist()} instead of {want.tolist()}")
        file = np.asarray(scipy.sparse.load_npz(f"jac{k if case['local'] else ''}.npz").todense())
        res.check(file.shape == want.shape and np.array_equal(file, want), "matrix", f"{where}: wrong file")
    res.states += 1
    res.transitions += len(r.trace)
    return res


@contextlib.contextmanager
def analytic_abs():
    """Inside, the absolute value of a complex array keeps its derivative (numpy gives the modulus, whose derivative is lost)."""
    import sys

    old = {k: getattr(np, k) for k in ("abs", "absolute")}

    def speed(x, *a, **k):
        return np.where(x.real < 0, -x, x) if np.iscomplexobj(x) else old["abs"](x, *a, **k)

    mods = [m for k, m in sys.modules.items() if m is not None and k.split(".")[0] in ("pde", "rhs") and "abs" not in vars(m)]
    for k in old:
        setattr(np, k, speed)
    for m in mods:
        m.abs = speed
    try:
        yield
    finally:
        for k in old:
            setattr(np, k, old[k])
        for m in mods:
            del m.abs


def rank_main(rank, size, base, o, state, part):
    from solvers import matvec_fun, matvec_rat

    with contextlib.redirect_stdout(io.StringIO()):
        s = sim.make(getattr(sim, base), **o)
    f = s.rhs.full
    rng = np.random.default_rng(101 * state + rank)
    A = np.array(s.initial_Q)
    from mpi4py import MPI

    n = len(A)
    scale = np.array([np.max(np.abs(A[e])) for e in range(n)])
    scale = np.array(MPI.COMM_WORLD.allgather(scale.tolist())).max(axis=0)
    # winds of a few metres per second, whatever the unit of the component
    wind = slice(1, 3) if base in ("SW", "BUBBLE") else slice(1, 4)
    typical = 20.0
    if base == "SW":
        scale[wind] = np.maximum(scale[wind], 1e-6 * scale[0])
    elif base == "BUBBLE":
        scale[wind] = scale[0] * typical
    else:
        scale[1:3] = np.maximum(scale[1:3], 1e-6 * scale[0])
        scale[3] = scale[0] * 1e-3
    up = scale.reshape((-1,) + (1,) * (A.ndim - 1))
    noise = rng.uniform(-1, 1, A.shape)
    B = A * (1 + (0.02 if base == "SW" else 0.01) * noise)
    B[wind] = A[wind] + (up * rng.uniform(-1, 1, A.shape))[wind] * (0.5 if state % 2 == 0 else 3.0)
    R = f(B.copy())
    out = []
    bad = []
    # complex arithmetic with no imaginary part is the real tendency
    Rc = f(B + 0j)
    for e in range(n):
        if not np.max(np.abs(Rc[e].real - R[e])) <= 1e-10 * np.max(np.abs(R[e]) + 1e-300) or np.max(np.abs(Rc[e].imag)) != 0.0:
            bad.append(f"tendency of variable {e} in complex arithmetic differs from that in real arithmetic")
    dt = 0.7
    columns = [(r, e, i) for r in range(size) for e in range(n) for i in range(A[0].size)]
    mine = [c for k, c in enumerate(columns) if k % PARTS == part]
    mix = np.zeros_like(A)
    total = {m: 0.0 for m in ("complex", "fd", "rat")}

    def normal(x):
        return np.max(np.abs(x.reshape(n, -1)), axis=1)

    rows = []
    for k, (r, e, i) in enumerate(mine):
        v = np.zeros_like(A)
        # of either sign: a product that is right one way only is no derivative
        h = (-1) ** (k + k // 2 + state) * 2e-4 * scale[e]
        if rank == r:
            v[e].reshape(-1)[i] = h
        mix = mix + v
        ref = (8.0 * (f(B + v) - f(B - v)) - (f(B + 2 * v) - f(B - 2 * v))) / 12.0
        # a shorter stencil, for the columns whose long one reaches over a kink of the fluxes
        short = (f(B + v / 16) - f(B - v / 16)) * 8.0
        c = matvec_fun(v.flatten(), dt, B, R, f, method="complex").reshape(A.shape) / dt
        d = matvec_fun(v.flatten(), dt, B, R, f, method="fd").reshape(A.shape) / dt
        q = (v.flatten() - matvec_rat(v.flatten(), dt, B, R, f)).reshape(A.shape) / (0.5 * dt)
        with analytic_abs():
            a = matvec_fun(v.flatten(), dt, B, R, f, method="complex").reshape(A.shape) / dt
        cols = [c, d, q, a]
        rows.append((r, e, i, normal(ref), [normal(x - ref) for x in cols], [normal(x - short) for x in cols]))
        total["complex"] = total["complex"] + c
        total["fd"] = total["fd"] + d
        total["rat"] = total["rat"] + q
    cm = matvec_fun(mix.flatten(), dt, B, R, f, method="complex").reshape(A.shape) / dt
    lin = [("complex", 1e-6, normal(cm), normal(cm - total["complex"]))]
    # and of its opposite, by every method
    for a in (-1.0, 0.5):
        w = (a * mix).flatten()
        x = matvec_fun(w, dt, B, R, f, method="complex").reshape(A.shape) / dt
        lin.append((f"complex, {a} times the direction", 1e-6, normal(cm), normal(x / a - cm)))
        x = matvec_fun(w, dt, B, R, f, method="fd").reshape(A.shape) / dt
        lin.append((f"fd, {a} times the direction", 2e-2, normal(cm), normal(x / a - total["fd"])))
        x = (w - matvec_rat(w, dt, B, R, f)).reshape(A.shape) / (0.5 * dt)
        lin.append((f"rational, {a} times the direction", 2e-2, normal(cm), normal(x / a - total["rat"])))
    return {"bad": bad, "rows": rows, "lin": lin, "R": normal(R), "scale": scale}


def run_case(case):
    if "matrix" in case:
        return run_matrix(case)
    res = Result()
    base, size, o = WORLDS[case["world"]]
    r = execute(size, rank_main, (size, base, o, case["state"], case["part"]), timeout=700)
    if not r.ok:
        res.bad("run failed", f"{base} {o}: {r.problem()}")
        return res
    vals = r.values
    for v in vals:
        for b in v["bad"]:
            res.bad("complex arithmetic", f"{base} {o}: {b}")
    R = np.max([v["R"] for v in vals], axis=0)
    n = len(R)
    worst = {}
    cols = len(vals[0]["rows"])
    # size of each block of the Jacobian: output variable by input variable
    block = np.zeros((n, n))
    for k in range(cols):
        e = vals[0]["rows"][k][1]
        block[:, e] = np.maximum(block[:, e], np.max([v["rows"][k][3] for v in vals], axis=0))
    for k in range(cols):
        rr, e, i = vals[0]["rows"][k][:3]
        q = {}
        for m, name, tol in ((0, "complex", 3e-6), (1, "fd", 1e-3), (2, "rational", 1e-3), (3, "analytic", 3e-6)):
            size_of = block[:, e] + 1e-9 * R + 1e-300
            err = np.max([v["rows"][k][4][m] for v in vals], axis=0) / size_of
            if np.max(err) > tol:
                # the long stencil may reach over a kink of the fluxes
                err = np.max([v["rows"][k][5][m] for v in vals], axis=0) / size_of / 10
            q[name] = (float(np.max(err)), tol, int(np.argmax(err)))
        for name in ("complex", "fd", "rational"):
            err, tol, j = q[name]
            worst[name] = max(worst.get(name, 0.0), err)
            key = f"{base}: {name} product is not the derivative"
            if name == "complex" and err > tol and q["analytic"][0] <= tol:
                key = f"{base}: complex product loses the derivative of the absolute value of the wind"
            res.check(
                err <= tol, key,
                f"{base} {o} state {case['state']}: derivative of variable {j} with respect to variable {e} at point {i} of process {rr} by the "
                f"{name} method is off by {err:.2e} of the largest of its kind",
            )
    lin = 0.0
    for k, (name, tol, _, _) in enumerate(vals[0]["lin"]):
        off = np.max([v["lin"][k][3] for v in vals], axis=0) / (np.max([v["lin"][k][2] for v in vals], axis=0) + 1e-9 * R + 1e-300)
        lin = max(lin, float(np.max(off)) / tol)
        res.check(float(np.max(off)) < tol, f"{base}: product not linear",
                  f"{base} {o}: product of a sum of directions is not the sum of the products ({name}: {off})")
    res.states += 1
    res.sample = {"world": case["world"], "worst": worst, "linearity": lin}
    res.notes.append(f"{base} {case['world']} {case['state']} {worst} {lin:.1e}")
    return res
