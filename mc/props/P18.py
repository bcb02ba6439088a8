"""Discrete operators (quadrature, extrapolation, derivative, filters): every operator applied to every member of a basis of the polynomials
it has to treat exactly, for every order, direction, memory layout and kind of grid."""
import contextlib
import io
import itertools
import warnings

import numpy as np
from numpy.polynomial import legendre as L

from .. import repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
KERNELS = True
RULE = (
    "one evaluation = one operator applied to one basis polynomial (the operators are linear: the basis decides the whole space), compared "
    "with the exact result; distinct by grid, order, operator and basis polynomial"
)
ASSUMPTIONS = [
    "the operators are linear maps (checked on sums of basis members), so agreement on a basis is agreement on the space",
    "nodes and weights of the oracle come from numpy.polynomial.legendre.leggauss",
]
CASE_TIMEOUT = 800
BUDGET = {"quick": 700, "thorough": 3600}


def bounds(tier):
    return {
        "orders": "1..8 points per direction (cartesian2d, cubed sphere 2D), 1..5 (3D; 1..6 thorough)",
        "basis": "all tensor monomials of degree <= n-1 (extrapolation), <= n+1 along the differentiated direction (derivative)",
        "filters": "strength x order x cutoff grid, every tensor Legendre mode",
        "sponge": "every point, 3 depths x 2 time scales x 3 steps",
    }


def setup():
    repoenv.use_model_mpi()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sim.warm()


def cases(tier, seed):
    for n in range(1, 9 if tier == "quick" else 11):
        yield {"kind": "points", "n": n}
        yield {"kind": "flat", "grid": "cartesian", "n": n}
        yield {"kind": "flat", "grid": "sphere", "n": n}
    for n in range(1, 6 if tier == "quick" else 7):
        yield {"kind": "solid", "n": n}
    for n, ne, nv in [(1, 2, 3), (2, 1, 1), (2, 3, 2), (3, 2, 1), (4, 1, 2), (2, 2, 3)]:
        yield {"kind": "lines", "n": n, "ne": ne, "nv": nv}
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for cutoff in (0.0, 0.3, 0.5, 0.75):
            yield {"kind": "expfilter", "n": n, "cutoff": cutoff}
    for n in range(1, 7):
        for cutoff in (0.0, 0.25, 0.5, 0.9):
            for order in (2, 8):
                yield {"kind": "fluxfilter", "n": n, "cutoff": cutoff, "order": order}
    for zs in (200.0, 400.0, 1500.0):
        for tau in (1.0, 250.0):
            yield {"kind": "sponge", "zscale": zs, "tau": tau}
    for n in range(1, 7):
        yield {"kind": "remesh", "n": n}
    for integrator in ("euler1", "tvdrk3", "epi2", "epi3", "ros2"):
        for what in ("sponge", "expfilter", "none"):
            yield {"kind": "run", "what": what, "integrator": integrator}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


OPS2 = ("extrap_x", "extrap_y", "extrap_z", "derivative_x", "derivative_y", "derivative_z", "correction_WE", "correction_SN", "correction_DU")


def operators(rank, base, o, extra=()):
    s = quiet(sim.make, {"SW": sim.SW, "EULER": sim.EULER, "BUBBLE": sim.BUBBLE}[base], **o)
    op, g = s.operators, s.geometry
    out = {k: np.array(getattr(op, k), dtype=float) for k in OPS2 + tuple(extra)}
    out["pts"] = np.array(g.solutionPoints, dtype=float)
    out["w"] = np.array(g.glweights, dtype=float)
    out["quad"] = np.array(op.quad_weights, dtype=float)
    return out


def axes(n, dim):
    """Coordinates of the points of an element; the first coordinate varies fastest."""
    x = L.leggauss(n)[0]
    if dim == 2:
        y, xx = np.meshgrid(x, x, indexing="ij")
        return [xx.ravel(), y.ravel()]
    z, y, xx = np.meshgrid(x, x, x, indexing="ij")
    return [xx.ravel(), y.ravel(), z.ravel()]


def faces(n, dim, axis):
    """Coordinates of the points on the two sides of an element across an axis, stacked side after side."""
    x = L.leggauss(n)[0]
    others = [a for a in range(dim) if a != axis]
    out = [[] for _ in range(dim)]
    for side in (-1.0, 1.0):
        if dim == 2:
            c = {others[0]: x}
        else:
            hi, lo = np.meshgrid(x, x, indexing="ij")  # the lower axis varies fastest
            c = {others[0]: lo.ravel(), others[1]: hi.ravel()}
        m = n ** (dim - 1)
        for a in range(dim):
            out[a].append(np.full(m, side) if a == axis else c[a])
    return [np.concatenate(o) for o in out]


def mono(c, powers):
    r = np.ones_like(c[0])
    for x, p in zip(c, powers):
        r = r * x**p
    return r


def dmono(c, powers, axis):
    p = powers[axis]
    if p == 0:
        return np.zeros_like(c[0])
    q = list(powers)
    q[axis] -= 1
    return p * mono(c, q)


def near(a, b, scale=1.0, tol=1e-11):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.isfinite(a).all()) and float(np.max(np.abs(a - b), initial=0.0)) <= tol * scale


def element(res, case, o, n, dim, names):
    """All operators of an element in the element-by-element layout. names: axis -> [(extrapolation, derivative, correction)]"""
    tol = 1e-12 * 8**n  # conditioning of the derivative matrices of the order
    c = axes(n, dim)
    for axis, ops in names.items():
        f = faces(n, dim, axis)
        others = [range(n)] * (dim - 1)
        for ext, der, cor in ops:
            for q in itertools.product(*others):
                for p in range(n + 2):
                    pw = list(q)
                    pw.insert(axis, p)
                    inside, edge = mono(c, pw), mono(f, pw)
                    if p < n:
                        res.check(near(inside @ o[ext], edge, tol=tol), "..: polynomial of powers .. is not carried exactly to the sides of the element", f"{ext}: polynomial of powers {pw} is not carried exactly to the sides of the element")
                    d = inside @ o[der] + edge @ o[cor]
                    res.check(near(d, dmono(c, pw, axis), tol=tol), ".. with ..: derivative of the polynomial of powers .. is wrong", f"{der} with {cor}: derivative of the polynomial of powers {pw} is wrong")
            res.states += 1
    x, w = L.leggauss(n)
    res.check(near(o["pts"], x, tol=1e-14), "solution points are not the Gauss-Legendre points", "solution points are not the Gauss-Legendre points")
    res.check(near(o["w"], w, tol=1e-13), "quadrature weights are not the Gauss-Legendre weights", "quadrature weights are not the Gauss-Legendre weights")
    res.check(near(o["quad"], np.outer(w, w), tol=1e-13), "weights over an element are not the products of the weights", "weights over an element are not the products of the weights")


def lines_rank(rank, o):
    """Operators in the grid-line layout."""
    s = quiet(sim.make, sim.EULER, **o)
    g, op = s.geometry, s.operators
    n, nx, ny, nz = g.num_solpts, g.num_elements_x1, g.num_elements_x2, g.num_elements_x3
    x = L.leggauss(n)[0]
    bad, count = [], 0
    rng = np.random.default_rng(7)
    sizes = (nz, ny, nx)
    # one polynomial of bounded degree per element and variable: nodal values, sides and derivatives, axis by axis
    for nvar in (1, 2):
        for axis in range(3):  # 0: k, 1: j, 2: i
            for power in range(n + 2):
                amp = rng.uniform(0.5, 1.5, (nvar,) + tuple(sizes[a] * (n if a != axis else 1) for a in range(3)))
                amp = np.repeat(amp, n, axis=1 + axis)
                shape1 = [1, 1, 1, 1]
                shape1[1 + axis] = sizes[axis] * n
                base = np.tile(x, sizes[axis])
                f = np.ascontiguousarray(amp * (base**power).reshape(shape1))
                want = amp * ((power * base ** (power - 1)) if power else np.zeros_like(base)).reshape(shape1)
                one = np.take(amp, range(0, sizes[axis] * n, n), axis=1 + axis)
                # sides: a new axis of length 2 after the element axis
                b = np.stack((one * (-1.0) ** power, one), axis=2 + axis)
                b = np.ascontiguousarray(b)
                name = "kji"[axis]
                fun, ext = getattr(op, "comma_" + name), getattr(op, "extrapolate_" + name)
                for out in (None, np.full_like(f, 7.0)):
                    f0, b0 = f.copy(), b.copy()
                    r = fun(f, b, g, out=out)
                    count += 1
                    if r.shape != want.shape or not np.max(np.abs(r - want)) <= 1e-12 * 8**n:
                        bad.append(f"comma_{name}: derivative of power {power} is wrong ({nvar} fields)")
                    if out is not None and not np.array_equal(out, r):
                        bad.append(f"comma_{name}: result not in the given array")
                    if not (np.array_equal(f, f0) and np.array_equal(b, b0)):
                        bad.append(f"comma_{name}: input changed")
                if power < n:
                    r = ext(f, g)
                    count += 1
                    if not np.max(np.abs(np.asarray(r).reshape(b.shape) - b)) <= 1e-12 * 8**n:
                        bad.append(f"extrapolate_{name}: power {power} is not carried exactly to the sides")
                    o2 = np.empty_like(b)
                    ext(f, g, out=o2)
                    if not np.max(np.abs(o2 - b)) <= 1e-12 * 8**n:
                        bad.append(f"extrapolate_{name}: result not in the given array")
                if axis == 0:
                    P = np.tile(L.legval(x, np.eye(n + 2)[power]), nz).reshape(shape1)
                    if power < n:
                        f = np.ascontiguousarray(amp * P)
                        want = f if power < n - 1 else np.zeros_like(f)
                        for out in (None, np.full_like(f, 7.0)):
                            r = op.filter_k(f, g, out=out)
                            count += 1
                            if not np.max(np.abs(r - want)) <= 1e-12 * 8**n:
                                bad.append(f"filter_k: vertical mode {power} of {n} is not treated as documented")
        # gradient of a continuous field: product of global polynomials along each line
        deg = min(n + 1, 3)
        coord = [np.concatenate([e + 0.5 * (1 + x) for e in range(s_)]) for s_ in sizes]
        edge = [np.arange(s_ + 1.0) for s_ in sizes]
        co = rng.uniform(-1, 1, (nvar, 3, deg + 1))
        pv = lambda v, a, t: np.polyval(co[v, a], t)
        dv = lambda v, a, t: np.polyval(np.polyder(co[v, a]), t) * 0.5
        t3 = lambda a, b, c: np.einsum("k,j,i->kji", a, b, c)
        field = np.stack([t3(pv(v, 0, coord[0]), pv(v, 1, coord[1]), pv(v, 2, coord[2])) for v in range(nvar)])
        iti = np.stack([t3(pv(v, 0, coord[0]), pv(v, 1, coord[1]), pv(v, 2, edge[2])) for v in range(nvar)])
        itj = np.stack([t3(pv(v, 0, coord[0]), pv(v, 1, edge[1]), pv(v, 2, coord[2])) for v in range(nvar)])
        itk = np.stack([t3(pv(v, 0, edge[0]), pv(v, 1, coord[1]), pv(v, 2, coord[2])) for v in range(nvar)])
        want = np.stack([
            np.stack([t3(pv(v, 0, coord[0]), pv(v, 1, coord[1]), dv(v, 2, coord[2])) for v in range(nvar)]),
            np.stack([t3(pv(v, 0, coord[0]), dv(v, 1, coord[1]), pv(v, 2, coord[2])) for v in range(nvar)]),
            np.stack([t3(dv(v, 0, coord[0]), pv(v, 1, coord[1]), pv(v, 2, coord[2])) for v in range(nvar)]),
        ])
        for out in (None, np.full(want.shape, 7.0)):
            r = op.grad(field, iti, itj, itk, g, out=out)
            count += 1
            if r.shape != want.shape or not np.max(np.abs(r - want)) <= 1e-9 * np.max(np.abs(want)):
                bad.append("grad: gradient of a polynomial field is wrong")
    return bad, count


def expfilter_rank(rank, o):
    from common.definitions import idx_rho  # noqa

    s = quiet(sim.make, sim.EULER, **o)
    op, m = s.operators, s.metric
    if not op.expfilter_apply:
        return None
    return {
        "one": np.array(op.expfilter), "new": np.array(op.expfilter_new), "Q": np.array(s.Q), "sqrtG": np.array(m.sqrtG_new),
        "out": np.array(op.apply_filters(s.Q.copy(), s.geometry, m, 1.0)),
    }


def sponge_rank(rank, o):
    s = quiet(sim.make, sim.BUBBLE, **o)
    rng = np.random.default_rng(3)
    r = []
    for dt in (0.5, 10.0, 1e4):
        Q = rng.uniform(-1, 1, s.Q.shape)
        before = Q.copy()
        after = np.array(s.operators.apply_filters(Q, s.geometry, s.metric if hasattr(s, "metric") else None, dt))
        r.append((dt, before, after))
    return np.array(s.geometry.X3), float(s.config.z1), r


def run_rank(rank, what, o):
    """A run with a filter, and the same steps made one by one with the filter applied by hand after each."""
    base = sim.EULER if what == "expfilter" else sim.BUBBLE
    a = quiet(sim.make, base, **o)
    quiet(a.run)
    b = quiet(sim.make, base, **{k: v for k, v in o.items() if not k.startswith(("expfilter", "apply_sponge", "sponge"))})
    Q = b.initial_Q.copy()
    for k in range(3):
        Q = quiet(b.integrator.step, Q, b.config.dt)
        if what == "sponge":
            z = np.array(b.geometry.X3)
            zs = b.config.z1 - o["sponge_zscale"]
            beta = np.where(z >= zs, np.sin(0.5 * np.pi * (z - zs) / (b.config.z1 - zs)) ** 2 / o["sponge_tscale"], 0.0)
            Q = np.array(Q)
            Q[2] = Q[2] / (1.0 + beta * b.config.dt)
        elif what == "expfilter":
            n = b.config.num_solpts
            x, w = L.leggauss(n)
            V = L.legvander(x, n - 1)
            F1 = V @ np.diag([damping(m, n, o["expfilter_strength"], o["expfilter_order"], o["expfilter_cutoff"]) for m in range(n)]) @ np.linalg.inv(V)
            g = np.array(b.metric.sqrtG_new)
            Q = ((g * Q) @ np.kron(F1, np.kron(F1, F1)).T) / g
    return np.array(a.Q), np.array(Q), np.array(b.initial_Q)


def damping(m, n, strength, order, cutoff):
    t = m / (n - 1)
    return 1.0 if t <= cutoff else float(np.exp(-strength * ((t - cutoff) / (1 - cutoff)) ** order))


def run_case(case):
    res = Result()
    kind = case["kind"]
    n = case.get("n")
    if kind == "points":
        from geometry.quadrature import gauss_legendre
        from geometry import operators as O

        sym, num, w = gauss_legendre(n)
        x, wx = L.leggauss(n)
        res.check(near(num, x, tol=1e-14), ".. points are not the Gauss-Legendre points", f"{n} points are not the Gauss-Legendre points")
        res.check(near([float(s) for s in sym], x, tol=1e-14), ".. symbolic points are not the Gauss-Legendre points", f"{n} symbolic points are not the Gauss-Legendre points")
        for d in range(2 * n):
            exact = 0.0 if d % 2 else 2.0 / (d + 1)
            res.check(abs(float(np.dot(w, np.asarray(num, float) ** d)) - exact) < 1e-13, "quadrature with .. points is not exact for degree ..", f"quadrature with {n} points is not exact for degree {d}")
        V = np.array(O.legvander(np.asarray(num, float), n - 1), float)
        res.check(near(V, L.legvander(x, n - 1), tol=1e-13), "Legendre polynomials at the points are wrong", "Legendre polynomials at the points are wrong")
        for t in np.linspace(-1.2, 1.2, 13):
            lv = O.lagrange_eval(np.asarray(num, float), t)
            for d in range(n):
                res.check(abs(np.dot(lv, x**d) - t**d) < 1e-11, "interpolation from .. points is not exact for degree ..", f"interpolation from {n} points is not exact for degree {d}")
        D = np.array(O.diffmat(np.asarray(num, float)), float)
        for d in range(n):
            res.check(near(D @ x**d, d * x ** max(d - 1, 0), tol=1e-12 * 8**n), "derivative matrix of .. points is not exact for degree ..", f"derivative matrix of {n} points is not exact for degree {d}")
        res.states += 1
        return res
    if kind == "remesh":
        from geometry import operators as O

        x = L.leggauss(n)[0]
        for m in range(1, 7):
            y = L.leggauss(m)[0]
            R = np.array(O.remesh_operator(x, y), float)
            low = min(n, m)
            for k in range(n):
                f = 1.0 if k < low - 1 else 0.5 if k == low - 1 else 0.0
                e = np.eye(n)[k]
                res.check(near(R @ L.legval(x, e), f * L.legval(y, e), tol=1e-11), "change of order .. -> ..: mode .. is not treated as documented", f"change of order {n} -> {m}: mode {k} is not treated as documented")
        res.states += 1
        return res
    if kind == "flat":
        base, nproc = ("BUBBLE", 1) if case["grid"] == "cartesian" else ("SW", 6)
        o = {"num_solpts": n}
        if base == "SW":
            o.update(num_elements_horizontal=1)
        r = execute(nproc, operators, (base, o), timeout=400)
        if not r.ok:
            res.bad("grid of .. points per direction cannot be built: ..", f"grid of {n} points per direction cannot be built: {r.problem()}")
            return res
        for v in r.values:
            element(res, case, v, n, 2, {0: [("extrap_x", "derivative_x", "correction_WE")],
                                         1: [("extrap_y", "derivative_y", "correction_SN"), ("extrap_z", "derivative_z", "correction_DU")]})
            if base == "SW":
                break
        return res
    if kind == "solid":
        r = execute(6, operators, ("EULER", {"num_solpts": n, "num_elements_horizontal": 1, "num_elements_vertical": 1}, ("highfilter", "highfilter_k")), timeout=400)
        if not r.ok:
            res.bad("grid of .. points per direction cannot be built: ..", f"grid of {n} points per direction cannot be built: {r.problem()}")
            return res
        v = r.values[3]
        element(res, case, v, n, 3, {0: [("extrap_x", "derivative_x", "correction_WE")], 1: [("extrap_y", "derivative_y", "correction_SN")],
                                     2: [("extrap_z", "derivative_z", "correction_DU")]})
        c = axes(n, 3)
        for q in itertools.product(range(n), repeat=3):
            f = np.ones(n**3)
            for a in range(3):
                f = f * L.legval(c[a], np.eye(n)[q[a]])
            res.check(near(f @ v["highfilter_k"], f if q[2] < n - 1 else 0 * f, tol=1e-11), "vertical filter: mode .. is not treated as documented", f"vertical filter: mode {q} is not treated as documented")
        return res
    if kind == "lines":
        o = {"num_solpts": n, "num_elements_horizontal": case["ne"], "num_elements_vertical": case["nv"]}
        r = execute(6, lines_rank, (o,), timeout=400)
        if not r.ok:
            res.bad("..", f"{r.problem()}")
            return res
        bad, count = r.values[2]
        for b in sorted(set(bad)):
            res.bad(b, b)
        res.evaluations += count
        res.states += 1
        return res
    if kind == "expfilter":
        for strength in (0.0, 2.0, 36.0):
            for order in (1, 4):
                o = {"num_solpts": n, "num_elements_horizontal": 2, "num_elements_vertical": 2, "case_number": 31 if order == 1 else 77,
                     "expfilter_apply": True, "expfilter_order": order, "expfilter_strength": strength, "expfilter_cutoff": case["cutoff"]}
                r = execute(6, expfilter_rank, (o,), timeout=400)
                if not r.ok:
                    res.bad("filter cannot be built: ..", f"filter cannot be built: {r.problem()}")
                    continue
                c = axes(n, 3)
                x = L.leggauss(n)[0]
                w = [damping(m, n, strength, order, case["cutoff"]) for m in range(n)]
                v = r.values[0]
                for m in range(n):
                    p = L.legval(x, np.eye(n)[m])
                    res.check(near(v["one"] @ p, w[m] * p, tol=1e-11), "exponential filter: mode .. of .. is not damped as documented (strength .., order ..)", f"exponential filter: mode {m} of {n} is not damped as documented (strength {strength}, order {order})")
                F = 0
                for q in itertools.product(range(n), repeat=3):
                    f = np.ones(n**3)
                    for a in range(3):
                        f = f * L.legval(c[a], np.eye(n)[q[a]])
                    k = w[q[0]] * w[q[1]] * w[q[2]]
                    res.check(near(f @ v["new"], k * f, tol=1e-11), "exponential filter: mode .. is not damped as documented (strength .., order ..)", f"exponential filter: mode {q} is not damped as documented (strength {strength}, order {order})")
                    nf = f / np.sqrt(np.prod([2.0 / (2 * a + 1) for a in q]))
                    wt = np.einsum("a,b,c->abc", *[L.leggauss(n)[1]] * 3).ravel()
                    F = F + k * np.outer(nf * wt, nf)
                for v in r.values:
                    want = ((v["sqrtG"] * v["Q"]) @ F) / v["sqrtG"]
                    for e in range(5):
                        s = np.max(np.abs(want[e])) + 1e-30
                        res.check(near(v["out"][e], want[e], scale=s + 1e-12 * np.max(np.abs(v["Q"])), tol=1e-10), "filtered state of variable .. is not the mode by mode damped one (strength .., order ..)", f"filtered state of variable {e} is not the mode by mode damped one (strength {strength}, order {order})")
                    w3 = wt * v["sqrtG"]
                    a, b = np.sum(v["out"] * w3, axis=-1), np.sum(v["Q"] * w3, axis=-1)
                    res.check(near(a, b, scale=np.max(np.abs(v["Q"] * w3)) * n**3, tol=1e-11), "filter changes the content of an element", "filter changes the content of an element")
                res.states += 1
        return res
    if kind == "fluxfilter":
        for base, nproc in (("BUBBLE", 1), ("SW", 6)):
            o = {"num_solpts": n, "filter_apply": True, "filter_order": case["order"], "filter_cutoff": case["cutoff"], "num_elements_horizontal": 1}
            r = execute(nproc, operators, (base, o), timeout=400)
            if not r.ok:
                res.bad("grid of .. points per direction with a filter cannot be built: ..", f"grid of {n} points per direction with a filter cannot be built: {r.problem()}")
                continue
            v = r.values[0]
            N = n + 1
            Nc = int(np.floor(case["cutoff"] * N))
            al = -np.log(np.finfo(float).eps)
            sig = np.array([1.0 if i <= Nc else np.exp(-al * ((i - Nc) / (N - Nc)) ** case["order"]) for i in range(N + 1)])
            tol = 1e-11 * 8**n
            for axis, ext, der, cor in ((0, "extrap_x", "derivative_x", "correction_WE"), (1, "extrap_z", "derivative_z", "correction_DU")):
                c, f = axes(n, 2), faces(n, 2, axis)
                for q in range(n):
                    for p in range(n + 2):
                        pw = [p, q] if axis == 0 else [q, p]
                        got = mono(c, pw) @ v[der] + mono(f, pw) @ v[cor]
                        dl = L.legder(L.poly2leg(np.eye(n + 2)[p]))
                        want = L.legval(c[axis], dl * sig[: len(dl)]) * c[1 - axis] ** q
                        res.check(near(got, want, tol=tol), "..: filtered derivative of powers .. is wrong (..)", f"{der}: filtered derivative of powers {pw} is wrong ({base})")
            res.states += 1
        return res
    if kind == "sponge":
        for n, nx, nz in ((1, 2, 3), (3, 3, 4), (4, 2, 2)):
            o = {"num_solpts": n, "num_elements_horizontal": nx, "num_elements_vertical": nz, "apply_sponge": True, "sponge_tscale": case["tau"], "sponge_zscale": case["zscale"]}
            r = execute(1, sponge_rank, (o,), timeout=300)
            if not r.ok:
                res.bad("run with a sponge fails: ..", f"run with a sponge fails: {r.problem()}")
                continue
            z, z1, runs = r.values[0]
            zs = z1 - case["zscale"]
            beta = np.where(z >= zs, np.sin(0.5 * np.pi * (z - zs) / (z1 - zs)) ** 2 / case["tau"], 0.0)
            for dt, before, after in runs:
                want = before.copy()
                want[2] = before[2] / (1 + beta * dt)
                res.check(near(after, want, tol=1e-13), "sponge with dt .. does not damp the vertical momentum (and only that) as documented", f"sponge with dt {dt} does not damp the vertical momentum (and only that) as documented")
                res.evaluations += before[0].size
            res.states += 1
        return res
    if kind == "run":
        what = case["what"]
        o = {"time_integrator": case["integrator"], "exponential_solver": "pmex"}
        if what == "sponge":
            o.update(apply_sponge=True, sponge_tscale=2.0, sponge_zscale=600.0)
        if what == "expfilter":
            o.update(expfilter_apply=True, expfilter_order=4, expfilter_strength=20.0, expfilter_cutoff=0.25, num_solpts=3, num_elements_horizontal=2, t_end=3.0)
        else:
            o.update(dt=0.5, t_end=1.5)
        r = execute(6 if what == "expfilter" else 1, run_rank, (what, o), timeout=600)
        if not r.ok:
            res.bad(f"run with {what} fails", f"run with {what} fails: {r.problem()}")
            return res
        for got, want, first in r.values:
            for e in range(len(got)):
                s = float(np.max(np.abs(want))) if e in (1, 2, 3) else float(np.max(np.abs(want[e])))
                res.check(near(got[e], want[e], scale=s, tol=1e-10), "run with a filter", f"run with {what}: variable {e} is not that of the steps with the filter after each")
        res.states += 1
        return res
    raise ValueError(kind)
