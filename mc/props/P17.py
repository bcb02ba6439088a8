"""Time integrators: order of accuracy, exactness on linear problems and the equations of the implicit schemes, over all step histories of
bounded length."""
import contextlib
import io
import itertools
import warnings

import numpy as np

from .. import repoenv
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
KERNELS = True
RULE = (
    "one evaluation = one integrator advanced through one history of steps on one system of ordinary differential equations, compared with "
    "the exact flow; distinct by integrator, options, system and history"
)
ASSUMPTIONS = [
    "systems of 48 coupled unknowns with polynomial right-hand sides; the flow is integrated by scipy's DOP853 to 1e-13",
    "the order of accuracy is judged on two halvings of the step with 0.45 of tolerance, above a floor of 1e-11",
]
CASE_TIMEOUT = 900
BUDGET = {"quick": 700, "thorough": 3600}

ORDERS = {
    "euler1": 1, "tvdrk3": 3, "epi2": 2, "epi3": 3, "epi4": 4, "epi5": 5, "epi6": 6, "epi_stiff2": 2, "epi_stiff3": 3, "epi_stiff4": 4,
    "epi_stiff5": 5, "epi_stiff6": 6, "srerk3": 3, "srerk4": 4, "srerk5": 5, "srerk6": 6, "ros2": 2, "rosexp2": 2, "partrosexp2": 2,
    "imex2": 2, "backward_euler": 1, "crank_nicolson": 2, "bdf2": 2, "strang_epi2_ros2": 2, "strang_ros2_epi2": 2,
}
EXPONENTIAL = [k for k in ORDERS if k.startswith(("epi", "srerk"))]
MULTISTEP = ["epi3", "epi4", "epi5", "epi6", "epi_stiff3", "epi_stiff4", "epi_stiff5", "bdf2"]
SOLVERS = ["kiops", "pmex", "pmex_1s", "pmex_ne1s", "icwy_1s", "icwy_ne", "icwy_ne1s", "icwy_neiop", "cwy_1s", "cwy_ne", "cwy_ne1s", "kiops_ne", "exode"]
N = 12


def bounds(tier):
    return {
        "order": f"{len(ORDERS)} integrators x 3 nonlinear systems x 2 ways of differentiating x step halvings",
        "exponential solvers": "each of 13 solvers under epi3 and srerk3 (exode: epi3 only)",
        "histories": "all sequences of 5 (quick) or 6 steps of length h and 2h for the multistep schemes, of 3 and 4 steps of h, h/2, 2h on linear systems",
        "equations": "implicit and linearly implicit schemes: residual of the scheme's own equation at each step",
        "names": "each name of the configuration file builds the scheme it names",
    }


def setup():
    repoenv.use_model_mpi()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from .. import sim

    sim.warm()


def cases(tier, seed):
    for name in ORDERS:
        for system in ("quadratic", "cubic", "waves"):
            yield {"kind": "order", "name": name, "system": system, "jac": "complex"}
        if name in EXPONENTIAL:
            yield {"kind": "order", "name": name, "system": "quadratic", "jac": "fd"}
    for s in SOLVERS:
        yield {"kind": "order", "name": "epi3", "system": "quadratic", "jac": "complex", "solver": s}
        if s != "exode":
            yield {"kind": "order", "name": "srerk3", "system": "waves", "jac": "complex", "solver": s}
    for name in MULTISTEP:
        for first in itertools.product((1, 2), repeat=2):
            yield {"kind": "history", "name": name, "first": list(first), "length": 5 if tier == "quick" else 6}
    for name in EXPONENTIAL:
        yield {"kind": "linear", "name": name, "length": 3 if tier == "quick" else 4}
    for name in ("euler1", "tvdrk3", "ros2", "rosexp2", "backward_euler", "crank_nicolson", "bdf2", "epi2"):
        yield {"kind": "equation", "name": name}
    yield {"kind": "names"}
    yield {"kind": "book"}


# ------------------------------------------------------------------ systems

TH = np.arange(N)


def quadratic(Q):
    a, b, c, d = Q
    w = 1 + 0.3 * np.cos(TH)
    return np.stack([w * b - 0.5 * a * c, -w * a + 0.2 * c * d, 0.5 * a * a - 0.3 * c * b, -0.4 * d * d + 0.3 * a * b + 0.1])


def cubic(Q):
    a, b, c, d = Q
    return np.stack([b - 0.3 * a**3, -a + 0.25 * c * np.roll(d, 1), -0.5 * c + 0.2 * a * b * d, 0.4 * (np.roll(d, -1) - d) + 0.1 * a * a - 0.2 * d**3])


def waves(Q):
    """Transport with a speed that depends on the solution, along the line of points."""
    a, b, c, d = Q
    D = lambda x: (np.roll(x, -1) - np.roll(x, 1)) * 0.8
    return np.stack([-(0.5 + 0.3 * a) * D(a) - 0.2 * b, -(0.4 + 0.2 * c) * D(b) + 0.2 * a, -D(c) * b - 0.1 * c, 0.6 * (np.roll(d, 1) - 2 * d + np.roll(d, -1)) + 0.3 * a * c])


SYSTEMS = {"quadratic": quadratic, "cubic": cubic, "waves": waves}
Q0 = np.stack([np.cos(TH), np.sin(0.7 * TH), 0.5 + 0.1 * TH / N, 0.3 * np.cos(2 * TH)])


def flow(f, Q, t):
    from scipy.integrate import solve_ivp

    s = solve_ivp(lambda _, y: f(y.reshape(Q.shape)).ravel(), (0, t), Q.ravel(), method="DOP853", rtol=1e-13, atol=1e-14)
    return s.y[:, -1].reshape(Q.shape)


def jacobian(f, Q):
    n = Q.size
    J = np.zeros((n, n))
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1e-30
        J[:, i] = (f(Q + 1j * e.reshape(Q.shape)).imag / 1e-30).ravel()
    return J


class Exact:
    """A starting procedure without error."""

    def __init__(self, f):
        self.f = f

    def step(self, Q, dt):
        return flow(self.f, Q, dt)


def implicit_part(f):
    w = np.array([1.0, 0.0, 0.5, 0.2])[:, None]
    return lambda Q: f(Q) * w


def explicit_part(f):
    w = 1.0 - np.array([1.0, 0.0, 0.5, 0.2])[:, None]
    return lambda Q: f(Q) * w


def param(**kw):
    from .. import sim

    base = {"tolerance": 1e-12, "exponential_solver": "kiops", "gmres_restart": 20}
    base.update(kw)
    return sim.config(sim.BUBBLE, **base)


def build(name, f, exact_start=True, **kw):
    """The integrator of this name, on right-hand side f."""
    import integrators as I
    from integrators.splitting import StrangSplitting

    if name in ("backward_euler", "crank_nicolson", "bdf2"):
        kw.setdefault("tolerance", 1e-10)
    p = param(**kw)
    start = Exact(f) if exact_start else None
    if name == "euler1":
        return I.Euler1(p, f)
    if name == "tvdrk3":
        return I.Tvdrk3(p, f)
    if name.startswith("epi_stiff"):
        o = int(name[9:])
        return I.EpiStiff(p, o, f, init_method=start if o > 2 else None)
    if name.startswith("epi"):
        o = int(name[3:])
        return I.Epi(p, o, f, init_method=start if o > 2 else None)
    if name.startswith("srerk"):
        return I.Srerk(p, int(name[5:]), f)
    if name == "ros2":
        return I.Ros2(p, f)
    if name == "rosexp2":
        return I.RosExp2(p, f, f)
    if name == "partrosexp2":
        return I.PartRosExp2(p, f, implicit_part(f))
    if name == "imex2":
        return I.Imex2(p, explicit_part(f), implicit_part(f))
    if name == "backward_euler":
        return I.BackwardEuler(p, f)
    if name == "crank_nicolson":
        return I.CrankNicolson(p, f)
    if name == "bdf2":
        return I.Bdf2(p, f)
    if name == "strang_epi2_ros2":
        return StrangSplitting(p, I.Epi(p, 2, explicit_part(f)), I.Ros2(p, implicit_part(f)))
    if name == "strang_ros2_epi2":
        return StrangSplitting(p, I.Ros2(p, implicit_part(f)), I.Epi(p, 2, explicit_part(f)))
    raise KeyError(name)


def advance(it, Q, steps):
    with contextlib.redirect_stdout(io.StringIO()):
        for dt in steps:
            Q = it.step(Q, dt)
    return Q


def forget():
    import solvers

    if hasattr(solvers.exode, "first_step"):
        del solvers.exode.first_step


# ------------------------------------------------------------------ cases


def run_order(case, res):
    name, f = case["name"], SYSTEMS[case["system"]]
    want = ORDERS[name]
    T = 1.0
    ref = flow(f, Q0, T)
    solver = case.get("solver", "kiops")
    tol = 1e-12 if solver != "exode" else 1e-9
    errs = []
    ns = (8, 16, 32)
    for n in ns:
        forget()
        it = build(name, f, jacobian_method=case["jac"], exponential_solver=solver, **({} if name in ("backward_euler", "crank_nicolson", "bdf2") else {"tolerance": tol}))
        try:
            Q = advance(it, Q0.copy(), [T / n] * n)
        except Exception as e:
            res.bad(f"{name}: run fails", f"{case}: {type(e).__name__}: {e}")
            return
        errs.append(float(np.abs(Q - ref).max()))
        res.states += n
        res.transitions += n
    slope = float(np.log2(errs[1] / errs[2])) if errs[2] > 0 else 99.0
    # differences taken with single-precision increments are not exact derivatives: their error may hide the order
    floor = 1e-11 if case["jac"] == "complex" and solver != "exode" else 3e-6
    need = want - 0.45
    res.check(slope >= need or errs[2] <= floor, "order",
              f"{name} on {case['system']} ({case['jac']}, {solver}): errors {['%.2e' % e for e in errs]}, order {slope:.2f}, should be {want}")
    res.check(errs[0] < 0.25, "error", f"{name} on {case['system']}: error {errs[0]:.2e} with 8 steps")
    res.sample = {"integrator": name, "system": case["system"], "errors": [float(f"{e:.2e}") for e in errs], "order": round(slope, 2)}


def run_history(case, res):
    """All patterns of steps: with a fixed number of steps the error must fall like h^(p+1)."""
    name = case["name"]
    want = ORDERS[name]
    f = quadratic
    worst = 99.0
    for rest in itertools.product((1, 2), repeat=case["length"] - 2):
        pattern = tuple(case["first"]) + rest
        errs = []
        for h in (0.02, 0.01):
            it = build(name, f)
            steps = [h * k for k in pattern]
            Q = advance(it, Q0.copy(), steps)
            errs.append(float(np.abs(Q - flow(f, Q0, sum(steps))).max()))
            res.states += len(pattern)
            res.transitions += len(pattern)
        res.evaluations += 1
        slope = float(np.log2(errs[0] / errs[1])) if errs[1] > 0 else 99.0
        # bdf2 starts with one step of backward Euler, whose error falls like h^2
        need = (want + 1 if name != "bdf2" else 2) - 0.6
        worst = min(worst, slope)
        floor = 2e-11 if name != "bdf2" else 1e-8
        res.check(slope >= need or errs[1] <= floor, "order with a history of steps",
                  f"{name}: steps {pattern} x h: errors {errs[0]:.2e}, {errs[1]:.2e} for h=.02, .01: falls like h^{slope:.2f}, should be h^{need + .6:.0f}")
    res.sample = {"integrator": name, "length": case["length"], "least slope": round(worst, 2)}


def run_linear(case, res):
    """Exponential schemes solve linear systems exactly, whatever the steps and whatever came before."""
    import scipy.linalg

    name = case["name"]
    n = 4 * N
    i = np.arange(n)
    A = -np.diag(0.5 + 0.01 * i) + 0.8 * (np.eye(n, k=1) - np.eye(n, k=-1)) + 0.1 * np.eye(n, k=7)
    b = np.cos(0.3 * i)
    M = np.zeros((n + 1, n + 1))
    M[:n, :n] = A
    M[:n, n] = b
    f = lambda Q: (A @ Q.ravel() + b).reshape(Q.shape)
    E = {dt: scipy.linalg.expm(dt * M) for dt in (0.3, 0.15, 0.6)}
    worst = 0.0
    for steps in itertools.product((0.3, 0.15, 0.6), repeat=case["length"]):
        it = build(name, f, exact_start=False)
        Q = Q0.copy()
        for k, dt in enumerate(steps):
            x = E[dt] @ np.concatenate([Q.ravel(), [1.0]])
            before = Q.copy()
            new = advance(it, Q, [dt])
            err = float(np.abs(new.ravel() - x[:n]).max())
            worst = max(worst, err)
            res.evaluations += 1
            res.states += 1
            res.transitions += 1
            res.check(err <= 5e-9, "linear system", f"{name}: step {k} of {steps} off by {err:.2e} from the exact solution")
            res.check(np.array_equal(Q, before), "state given is changed", f"{name}: step {k} of {steps} changes the state it is given")
            Q = new
        if len(res.problems) > 10:
            return
    res.sample = {"integrator": name, "worst error": float(f"{worst:.2e}")}


def run_equation(case, res):
    name = case["name"]
    worst = 0.0
    for sysname, f in SYSTEMS.items():
        for dts in itertools.product((0.02, 0.1, 0.4), repeat=2):
            it = build(name, f)
            Q, prev, dprev = Q0.copy(), None, None
            for k, dt in enumerate(dts + (dts[-1],)):
                before = Q.copy()
                new = advance(it, Q, [dt])
                res.states += 1
                res.transitions += 1
                where = f"{name} on {sysname}, steps {dts}, step {k}"
                res.check(np.array_equal(Q, before), "state given is changed", f"{where}: changes the state it is given")
                res.check(new.shape == Q.shape and new.dtype == Q.dtype, "shape", f"{where}: {new.shape} {new.dtype}")
                tol = 2e-9
                if name == "euler1":
                    r = new - (Q + dt * f(Q))
                elif name == "tvdrk3":
                    q1 = Q + dt * f(Q)
                    q2 = (3 * Q + q1 + dt * f(q1)) / 4
                    r = new - (Q + 2 * q2 + 2 * dt * f(q2)) / 3
                elif name in ("ros2", "rosexp2"):
                    J = jacobian(f, Q)
                    x = np.linalg.solve(np.eye(Q.size) - 0.5 * dt * J, dt * f(Q).ravel())
                    r = new - Q - x.reshape(Q.shape)
                    tol = 2e-2 * dt**2  # differences with a single-precision increment
                elif name == "epi2":
                    import scipy.linalg

                    M = np.zeros((Q.size + 1, Q.size + 1))
                    M[:-1, :-1] = jacobian(f, Q)
                    M[:-1, -1] = f(Q).ravel()
                    r = new - Q - scipy.linalg.expm(dt * M)[:-1, -1].reshape(Q.shape)
                elif name == "backward_euler":
                    r = (new - Q) - dt * f(new)
                elif name == "crank_nicolson":
                    r = (new - Q) - 0.5 * dt * (f(new) + f(Q))
                elif name == "bdf2":
                    if prev is None or abs(dt - dprev) > 1e-10:
                        r = (new - Q) - dt * f(new)
                    else:
                        r = new - 4 / 3 * Q + 1 / 3 * prev - 2 / 3 * dt * f(new)
                err = float(np.abs(r).max())
                worst = max(worst, err / tol)
                res.check(err <= tol, "equation of the scheme", f"{where}: residual {err:.2e}")
                prev, dprev, Q = Q, dt, new
    res.sample = {"integrator": name, "worst residual / tolerance": float(f"{worst:.2e}")}


def toy(Q):
    """Same four fields whatever the grid."""
    a, b, c, d = Q
    return np.stack([b - 0.5 * a * c, -a + 0.2 * c * d, 0.5 * a * a - 0.3 * c * b, -0.4 * d * d + 0.3 * a * b + 0.1])


def drive_names(rank, names):
    import integrators as I

    from .. import sim

    out = []
    for name in names:
        with contextlib.redirect_stdout(io.StringIO()):
            s = sim.make(sim.BUBBLE, time_integrator=name, tolerance=1e-11, exponential_solver="kiops", num_solpts=2, num_elements_horizontal=2, num_elements_vertical=2)
        cls = type(s.rhs.full)
        shape = s.initial_Q.shape
        n = int(np.prod(shape[1:]))
        Q = np.stack([np.cos(np.arange(n)), np.sin(0.7 * np.arange(n)), 0.5 + 0.01 * np.arange(n), 0.3 * np.cos(2.0 * np.arange(n))]).reshape(shape)
        saved = cls.__call__
        state = s.initial_Q.copy()
        cls.__call__ = lambda self, q, *a, **k: (saved(self, state), toy(q))[1]
        try:
            if name.startswith("epi_stiff"):
                it = I.EpiStiff(s.config, int(name[9:]), toy, init_substeps=10)
            elif name.startswith("epi"):
                it = I.Epi(s.config, int(name[3:]), toy, init_substeps=10)
            elif name == "bdf2":
                it = I.Bdf2(s.config, toy)
            else:
                it = build(name, toy, tolerance=1e-11)
            got = advance(s.integrator, Q.copy(), [0.1] * 7)
            want = advance(it, Q.copy(), [0.1] * 7)
        finally:
            cls.__call__ = saved
        out.append((name, float(np.abs(got - want).max()), float(np.abs(got - flow(toy, Q, 0.7)).max())))
    return out


def run_names(case, res):
    names = [n for n in ORDERS if n not in ("partrosexp2", "imex2", "strang_epi2_ros2", "strang_ros2_epi2", "epi_stiff6")]
    r = execute(1, drive_names, (names,), timeout=600)
    if not r.ok:
        res.bad("run failed", f"{r.problem()}")
        return
    for name, diff, err in r.values[0]:
        res.states += 7
        res.transitions += 7
        res.check(diff <= 1e-8, "name of the scheme", f"time_integrator = {name}: differs by {diff:.2e} from the scheme of that name")
        res.check(err <= 0.2 if ORDERS[name] == 1 else err <= 0.02, "error", f"time_integrator = {name}: error {err:.2e} after seven steps")
    res.sample = {"errors": {n: float(f"{e:.1e}") for n, d, e in r.values[0]}}


def run_book(case, res):
    """Clock and counters, and independence of integrators."""
    for name in ORDERS:
        f = quadratic
        a, b = build(name, f, exact_start=False), build(name, f, exact_start=False)
        alone = advance(build(name, f, exact_start=False), Q0.copy(), [0.05] * 5)
        qa, qb = Q0.copy(), 0.5 * Q0
        t = 100.0
        a.sim_time = t
        for k in range(5):
            qa = advance(a, qa, [0.05])
            qb = advance(b, qb, [0.1])
            t += 0.05
            res.states += 2
            res.transitions += 2
            res.check(a.num_completed_steps == k + 1 and abs(a.sim_time - t) < 1e-9, "clock", f"{name}: after {k + 1} steps counts {a.num_completed_steps} and time {a.sim_time}, should be {t}")
        res.check(np.array_equal(qa, alone), "integrators interfere", f"{name}: another integrator stepping in between changes the result by {np.abs(qa - alone).max():.2e}")
    res.sample = {"integrators": len(ORDERS)}


def run_case(case):
    res = Result()
    {"order": run_order, "history": run_history, "linear": run_linear, "equation": run_equation, "names": run_names, "book": run_book}[case["kind"]](case, res)
    return res
