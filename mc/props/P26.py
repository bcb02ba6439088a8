"""The stiff test problems (square grids shared by a square of processes): operators, equations, products, solutions."""
import contextlib
import io
import itertools

import numpy as np

from .. import repoenv
from ..common import Result
from ..world import execute, explore

LEVEL = "model_checking"
RULE = (
    "one evaluation = one operator (or equation, or Jacobian product) applied on the shared grid to one field of a "
    "generating set, every point compared with the stencil on the whole grid; or one integration compared with another "
    "number of processes or with a reference solution; distinct by operator, field, grid and number of processes"
)
ASSUMPTIONS = [
    "operators are linear, bilinear or quadratic in their arguments, so that their values on all unit fields (and all pairs "
    "of unit fields) determine them; grids of 4 and 6 points a side in full, larger ones on unit fields",
]
KERNELS = True
CASE_TIMEOUT = 600

OPS = {
    "laplacianDirichlet": ("Dirichlet", "lin"), "laplacianNeumann": ("Neumann", "lin"),
    "laplacianPeriodic": ("periodic", "lin"), "nonLinLapPeriodic": ("periodic", "bi"),
    "laplacianUsquared": ("periodic", "sq"), "advectionDirichlet": ("Dirichlet", "lin"),
    "advectionNeumann": ("Neumann", "lin"), "advectionPeriodic": ("periodic", "lin"),
    "nonLinAdvecDirichlet": ("Dirichlet", "bi"), "nonLinAdvecPeriodic": ("periodic", "bi"),
    "advectionUsquaredDir": ("Dirichlet", "sq"), "advectionUsquared": ("periodic", "sq"),
}
BC = {"allencahn": "Neumann", "adr": "Neumann", "porous": "periodic", "burgers": "Dirichlet"}
SPAN = [-0.5, 1.75]


def bounds(tier):
    return {
        "grid": "4, 6, 12 points a side" + (", 8, 16, 18" if tier == "thorough" else ""),
        "processes": "1, 4, 9" + (", 16, 36" if tier == "thorough" else ", 16"),
        "fields": "every unit field; every pair of unit fields (4 points a side; 6 in thorough)",
        "schedules": "all, on 4 processes, for each operator, sends that wait for their receiver included",
        "integrators": "epi 2..6, srerk 3..6 x 4 equations x 1, 4, 9 processes; every exponential solver but dcgs2 with four of them",
    }


def setup():
    repoenv.use_model_mpi()
    import integrators.epi_for_others  # noqa
    import integrators.srerk_for_others  # noqa
    import stiff_pdes.JTV  # noqa
    import stiff_pdes.initWorld  # noqa
    import stiff_pdes.rhs_jac_pdefuncs  # noqa
    import stiff_pdes.print_stuff  # noqa


# ------------------------------------------------------------------------------------------- oracle: whole grid


def pad(x, bc):
    if bc == "periodic":
        return np.pad(x, 1, mode="wrap")
    y = np.pad(x, 1)
    if bc == "Neumann":  # second-order one-sided derivative is zero
        y[0], y[-1] = (4 * y[1] - y[2]) / 3, (4 * y[-2] - y[-3]) / 3
        y[:, 0], y[:, -1] = (4 * y[:, 1] - y[:, 2]) / 3, (4 * y[:, -2] - y[:, -3]) / 3
    return y


def spacing(N, bc):
    return (SPAN[1] - SPAN[0]) / (N if bc == "periodic" else N + 1)


def lap(x, bc):
    y = pad(x, bc)
    return (y[2:, 1:-1] + y[:-2, 1:-1] + y[1:-1, 2:] + y[1:-1, :-2] - 4 * x) / spacing(x.shape[0], bc) ** 2


def adv(x, bc):
    y = pad(x, bc)
    return (y[2:, 1:-1] - y[:-2, 1:-1] + y[1:-1, 2:] - y[1:-1, :-2]) / (2 * spacing(x.shape[0], bc))


def op_oracle(op, args):
    bc, kind = OPS[op]
    d = lap if "ap" in op[:9] else adv
    if kind == "lin":
        return args[1] * d(args[0], bc)
    if kind == "bi":
        return args[2] * (2.0 if d is lap else 1.0) * d(args[0] * args[1], bc)
    return (1.0 if d is lap else 0.5) * d(args[0] ** 2, bc)


EPS, ALPHA, GAMMA = 0.03, 0.7, 1.3


def rhs_oracle(name, u):
    bc = BC[name]
    if name == "allencahn":
        return EPS * lap(u, bc) + u - u**3
    if name == "adr":
        return EPS * lap(u, bc) - ALPHA * adv(u, bc) + GAMMA * u * (u - 0.5) * (1 - u)
    if name == "porous":
        return lap(u**2, bc) + ALPHA * adv(u, bc)
    return EPS * lap(u, bc) - ALPHA * adv(0.5 * u**2, bc)


def jac_oracle(name, v, u):
    bc = BC[name]
    if name == "allencahn":
        return EPS * lap(v, bc) + v - 3 * u**2 * v
    if name == "adr":
        return EPS * lap(v, bc) - ALPHA * adv(v, bc) + GAMMA * (3 * u - 3 * u**2 - 0.5) * v
    if name == "porous":
        return 2 * lap(u * v, bc) + ALPHA * adv(v, bc)
    return EPS * lap(v, bc) - ALPHA * adv(u * v, bc)


def exact(name, u, t):
    """Reference solution of the semi-discrete equations"""
    from scipy.integrate import solve_ivp

    N = u.shape[0]
    r = solve_ivp(lambda s, y: rhs_oracle(name, y.reshape(N, N)).ravel(), (0, t), u.ravel(), method="DOP853", rtol=1e-13,
                  atol=1e-13)
    return r.y[:, -1].reshape(N, N)


# --------------------------------------------------------------------------------------------- in the processes


def world(bc, N):
    from mpi4py import MPI
    from stiff_pdes.initWorld import InitWorld

    return InitWorld(MPI.COMM_WORLD, bc, SPAN, N + 1 if bc == "periodic" else N + 2)


def part(w, x):
    a, b = w.numPointsY, w.numPointsX
    return np.ascontiguousarray(x[w.procYID * a : (w.procYID + 1) * a, w.procXID * b : (w.procXID + 1) * b]).ravel()


def run_op(rank, op, N, tests):
    from stiff_pdes import JTV

    w = world(OPS[op][0], N)
    out = []
    for args in tests:
        loc = [part(w, x) if isinstance(x, np.ndarray) else x for x in args]
        before = [x.copy() if isinstance(x, np.ndarray) else x for x in loc]
        v = getattr(JTV, op)(*loc, w)
        out.append((np.array(v), all(np.array_equal(a, b) for a, b in zip(loc, before))))
    return out


def run_pde(rank, name, N, tests):
    from stiff_pdes import rhs_jac_pdefuncs as P

    w = world(BC[name], N)
    coeff = {"allencahn": (EPS,), "adr": (EPS, ALPHA, GAMMA), "porous": (ALPHA,), "burgers": (EPS, ALPHA)}[name]
    out = []
    for u, v, dt in tests:
        r = getattr(P, name + "_rhs")(part(w, u), *coeff, w)
        j = getattr(P, name + "_jtv")(part(w, v), part(w, u), dt, EPS, ALPHA, GAMMA, w)
        out.append((np.array(r), np.array(j)))
    return out


def run_grid(rank, bc, N):
    """Where the process believes its points are, and what the gathered field looks like"""
    from mpi4py import MPI
    from stiff_pdes import print_stuff

    try:
        w = world(bc, N)
    except SystemExit:
        return "refused"
    x = [w.startX + k * w.dx for k in range(w.numPointsX)]
    y = [w.startY + k * w.dx for k in range(w.numPointsY)]
    mine = np.array([100.0 * j + i for j in y for i in x])
    g = MPI.COMM_WORLD.gather(mine, root=0)
    tot = print_stuff.print_sol(g, f"sol_{bc}_{N}.txt", w) if w.IamRoot else None
    return x, y, tot


def run_step(rank, name, N, u, method, order, solver, dts, substeps):
    from integrators.epi_for_others import Epi_others
    from integrators.srerk_for_others import Srerk_others
    from stiff_pdes import rhs_jac_pdefuncs as P

    w = world(BC[name], N)
    coeff = {"allencahn": (EPS,), "adr": (EPS, ALPHA, GAMMA), "porous": (ALPHA,), "burgers": (EPS, ALPHA)}[name]
    rhs = getattr(P, name + "_rhs")
    jtv = getattr(P, name + "_jtv")
    f = lambda q: rhs(q, *coeff, w)  # noqa: E731
    with contextlib.redirect_stdout(io.StringIO()):
        if method == "srerk":
            s = Srerk_others(order, f, jtv, solver, w, [EPS, ALPHA, GAMMA])
        else:
            # the first steps are taken by a scheme of order six when the order is measured
            first = None if substeps else Srerk_others(6, f, jtv, solver, w, [EPS, ALPHA, GAMMA])
            s = Epi_others(order, f, jtv, solver, w, [EPS, ALPHA, GAMMA], init_method=first, init_substeps=substeps or 1)
        q = part(w, u)
        for dt in dts:
            q = s.step(q, dt)
    return np.array(q)


def assemble(vals, N):
    n = len(vals)
    p = int(round(n**0.5))
    k = N // p
    out = np.empty((N, N))
    for r, v in enumerate(vals):
        y, x = divmod(r, p)
        out[y * k : (y + 1) * k, x * k : (x + 1) * k] = v.reshape(k, k)
    return out


# --------------------------------------------------------------------------------------------------------- cases


def unit(N):
    for j, i in itertools.product(range(N), range(N)):
        e = np.zeros((N, N))
        e[j, i] = 1.0
        yield e


def smooth(N, bc, k=0):
    """Field (positive, no symmetry)"""
    y, x = np.meshgrid(np.arange(N), np.arange(N), indexing="ij")
    return 0.55 + 0.2 * np.sin(2 * np.pi * (x + 0.3 * k) / N + 0.4) * np.cos(2 * np.pi * y / N - 0.2 * k) + 0.1 * np.cos(
        2 * np.pi * (x - y) / N + 0.1
    )


def tests_for(op, N, pairs):
    kind = OPS[op][1]
    es = list(unit(N))
    if kind == "lin":
        return [(e, c) for c in (1.0, -0.37) for e in es]
    if kind == "bi":
        t = [(e, e2, 0.6) for e in es for e2 in es] if pairs else [(e, smooth(N, 0), 0.6) for e in es]
        return t + [(smooth(N, 0, 1), e, 0.6) for e in es]
    t = [(e,) for e in es]
    return t + ([(a + b,) for a, b in itertools.combinations(es, 2)] if pairs else [(smooth(N, 0) + e,) for e in es])


def grids(tier):
    g = [(4, 1), (4, 4), (6, 1), (6, 4), (6, 9), (12, 4), (12, 9), (8, 16)]
    if tier == "thorough":
        g += [(8, 1), (8, 4), (12, 1), (12, 16), (18, 9), (16, 16), (12, 36)]
    return g


def cases(tier, seed):
    for op in OPS:
        for N, n in grids(tier):
            yield {"kind": "op", "op": op, "N": N, "n": n, "pairs": N == 4 or (tier == "thorough" and N == 6)}
        yield {"kind": "schedules", "op": op, "N": 4, "n": 4}
    for name in BC:
        for N, n in grids(tier):
            yield {"kind": "pde", "name": name, "N": N, "n": n}
    for n in (1, 4, 9, 16, 2, 3, 5, 8):
        yield {"kind": "grid", "n": n, "sizes": list(range(2, 21))}
    for name in BC:
        for method, order in [("epi", o) for o in (2, 3, 4, 5, 6)] + [("srerk", o) for o in (3, 4, 5, 6)]:
            yield {"kind": "order", "name": name, "method": method, "order": order}
    for name in BC:
        for method, order in [("epi", 2), ("epi", 4), ("epi", 6), ("srerk", 3), ("srerk", 6)]:
            for solver in ("kiops", "pmex"):
                yield {"kind": "procs", "name": name, "method": method, "order": order, "solver": solver}
    for name in BC:
        for solver in SOLVERS:
            for method, order in [("epi", 3), ("epi", 6), ("srerk", 4), ("srerk", 6)]:
                if method == "epi" or solver not in ("icwy_neiop", "kiops_ne"):
                    yield {"kind": "solver", "name": name, "method": method, "order": order, "solver": solver}


# dcgs2 does not work (finding recorded under P16)
SOLVERS = ["pmex", "pmex_1s", "pmex_ne1s", "icwy_ne1s", "icwy_ne", "icwy_1s", "icwy_neiop", "cwy_ne1s", "cwy_ne", "cwy_1s", "kiops_ne"]
STEP = {"allencahn": 0.4, "adr": 0.2, "porous": 0.01, "burgers": 0.2}


def run_case(case):
    res = Result()
    k = case["kind"]
    if k == "op":
        op, N, n = case["op"], case["N"], case["n"]
        tests = tests_for(op, N, case["pairs"])
        r = execute(n, run_op, (op, N, tests), timeout=300)
        what = f"{op} on {N}x{N} points, {n} processes"
        if not r.ok:
            res.bad("operator", f"{what}: {r.problem()}")
            return res
        res.states += r.states
        res.transitions += len(r.trace)
        scale = 8.0 / spacing(N, OPS[op][0]) ** 2
        for i, t in enumerate(tests):
            got = assemble([v[i][0] for v in r.values], N)
            want = op_oracle(op, t)
            e = np.abs(got - want)
            res.check(
                e.max() <= 1e-13 * scale, "operator",
                lambda: f"{what}, field {i}: point {np.unravel_index(e.argmax(), e.shape)} (y, x) is "
                        f"{got.flat[e.argmax()]:.6g} instead of {want.flat[e.argmax()]:.6g}",
            )
            res.check(all(v[i][1] for v in r.values), "operator", lambda: f"{what}: changes its input")
    elif k == "schedules":
        op, N, n = case["op"], case["N"], case["n"]
        bc, kind = OPS[op]
        a = (smooth(N, bc), smooth(N, bc, 1), 0.6) if kind == "bi" else (smooth(N, bc), 0.6) if kind == "lin" else (smooth(N, bc),)
        want = op_oracle(op, a)
        for sync in (False, True):
            for policy in ("all", "asc", "desc") + tuple(("last", r) for r in range(n)) + tuple(("first", r) for r in range(n)):
                r = execute(n, run_op, (op, N, [a]), policy=policy, sync=sync, timeout=100)
                res.states += r.states
                res.transitions += len(r.trace)
                res.traces += 1
                if not r.ok:
                    res.bad("schedule", f"{op}, {policy}, waiting sends {sync}: {r.problem()}")
                    return res
                got = assemble([v[0][0] for v in r.values], N)
                res.check(np.abs(got - want).max() <= 1e-11, "schedule", lambda: f"{op}, {policy}, {sync}: result differs")
    elif k == "pde":
        name, N, n = case["name"], case["N"], case["n"]
        u = smooth(N, 0)
        tests = [(u, e, 1.0) for e in unit(N)] + [(smooth(N, 0, 1) - 0.9, smooth(N, 0, 2), 0.01), (np.zeros((N, N)), u, 1.0)]
        r = execute(n, run_pde, (name, N, tests), timeout=300)
        what = f"{name} on {N}x{N} points, {n} processes"
        if not r.ok:
            res.bad("equation", f"{what}: {r.problem()}")
            return res
        res.states += r.states
        res.transitions += len(r.trace)
        scale = 8.0 / spacing(N, BC[name]) ** 2
        for i, (u, v, dt) in enumerate(tests):
            e = np.abs(assemble([x[i][0] for x in r.values], N) - rhs_oracle(name, u)).max()
            res.check(e <= 1e-13 * scale, "equation", lambda: f"{what}: tendency differs by {e:.2e}")
            want = dt * jac_oracle(name, v, u)
            e2 = np.abs(assemble([x[i][1] for x in r.values], N) - want).max()
            res.check(e2 <= 1e-13 * scale, "product", lambda: f"{what}: Jacobian product {i} differs by {e2:.2e}")
    elif k == "grid":
        n = case["n"]
        p = int(round(n**0.5))
        for bc in ("Dirichlet", "Neumann", "periodic"):
            for N in case["sizes"]:
                r = execute(n, run_grid, (bc, N), timeout=60)
                what = f"{bc} grid of {N}x{N} points on {n} processes"
                if not r.ok:
                    res.bad("grid", f"{what}: {r.problem()}")
                    continue
                if p * p != n or N % p:
                    res.check(all(v == "refused" for v in r.values), "grid", lambda: f"{what}: accepted")
                    continue
                if any(v == "refused" for v in r.values):
                    res.bad("grid", f"{what}: refused")
                    continue
                h = spacing(N, bc)
                x0 = SPAN[0] + (0 if bc == "periodic" else h)
                want = x0 + h * np.arange(N)
                m = N // p
                ok = True
                for q, v in enumerate(r.values):
                    y, x = divmod(q, p)
                    ok &= np.allclose(v[0], want[x * m : (x + 1) * m], rtol=0, atol=1e-12)
                    ok &= np.allclose(v[1], want[y * m : (y + 1) * m], rtol=0, atol=1e-12)
                tot = r.values[0][2]
                full = (100 * want[:, None] + want[None, :]).ravel()
                res.check(ok, "grid", lambda: f"{what}: points are not where they should be")
                res.check(len(tot) == N * N and np.allclose(tot, full, rtol=0, atol=1e-10), "gathered solution",
                          lambda: f"{what}: gathered field is out of order")
    elif k == "order":
        name, m, o = case["name"], case["method"], case["order"]
        N = 6
        u = smooth(N, BC[name])
        T = STEP[name] * (2 if m == "epi" else 6 if name != "porous" else 20)
        ref = exact(name, u, T)
        errs = []
        for ns in (8, 16, 32) if m == "epi" else (2, 4, 8):
            r = execute(1, run_step, (name, N, u, m, o, "kiops", [T / ns] * ns, 0), timeout=200)
            if not r.ok:
                res.bad("integrator", f"{m}{o} on {name}: {r.problem()}")
                return res
            errs.append(np.abs(r.values[0].reshape(N, N) - ref).max())
        floor = 5e-12 * max(1.0, np.abs(ref).max())
        slopes = [np.log2(a / b) for a, b in zip(errs, errs[1:]) if a > 100 * floor and b > 10 * floor]
        worst = min(slopes) if slopes else None
        res.check(errs[-1] < 1e-3, "integrator", lambda: f"{m}{o} on {name}: error {errs}")
        if worst is not None:
            res.check(worst > o - 0.8, "order", lambda: f"{m}{o} on {name}: order {worst:.2f}, errors {errs}")
        res.sample = {"case": case, "errors": [float(f"{e:.1e}") for e in errs], "order": worst}
        return res
    elif k == "solver":
        # every exponential solver gives the same steps
        name, m, o = case["name"], case["method"], case["order"]
        N = 6
        u = smooth(N, BC[name])
        dts = [STEP[name] / 10] * 6 + [STEP[name] / 23] * 2
        base = None
        for solver, n in (("kiops", 1), (case["solver"], 1), (case["solver"], 4)):
            r = execute(n, run_step, (name, N, u, m, o, solver, dts, 2), timeout=200)
            if not r.ok:
                res.bad("integrator", f"{m}{o} ({solver}) on {name}, {n} processes: {r.problem()}")
                return res
            q = assemble(r.values, N)
            res.transitions += len(r.trace)
            res.states += r.states
            base = q if base is None else base
            e = np.abs(q - base).max()
            res.check(e < 1e-8, "exponential solver", lambda: f"{m}{o} ({solver}) on {name}, {n} processes: differs by {e:.1e} from kiops")
    else:
        name, m, o = case["name"], case["method"], case["order"]
        N = 6
        u = smooth(N, BC[name])
        dts = [STEP[name] / 10] * 6 + [STEP[name] / 23] * 2
        base = None
        for n in (1, 4, 9):
            r = execute(n, run_step, (name, N, u, m, o, case["solver"], dts, 2), timeout=200)
            if not r.ok:
                res.bad("integrator", f"{m}{o} ({case['solver']}) on {name}, {n} processes: {r.problem()}")
                return res
            q = assemble(r.values, N)
            res.transitions += len(r.trace)
            res.states += r.states
            if base is None:
                base = q
                ref = exact(name, u, sum(dts))
                res.check(np.abs(q - ref).max() < 1e-2, "integrator", lambda: f"{m}{o} on {name}: error {np.abs(q - ref).max():.1e}")
            e = np.abs(q - base).max()
            res.check(e < 1e-9, "number of processes", lambda: f"{m}{o} ({case['solver']}) on {name}: {n} processes differ by {e:.1e}")
    res.sample = res.sample or case
    return res
