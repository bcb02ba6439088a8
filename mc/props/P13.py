"""Tendencies: conservation for every state, and agreement with the equations of motion on smooth flows over all grids and orientations."""
import contextlib
import io
import itertools
import warnings

import numpy as np

from .. import repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
KERNELS = True
RULE = (
    "one evaluation = one variable of the tendency of one state on one process: its global content (conservation) or its values against the "
    "equations in spherical or Cartesian coordinates differentiated symbolically; distinct by grid, state and variable"
)
ASSUMPTIONS = [
    "positions and winds of the grid are those decided by P19",
    "smooth flows are polynomials of Cartesian coordinates of degree at most 3; errors fall with the resolution as the order of the scheme says",
]
CASE_TIMEOUT = 800
BUDGET = {"quick": 700, "thorough": 3600}
ANGLES = [(0.0, 0.0, 0.0), (0.3, 0.5, 0.2), (-1.2, -0.7, 0.9), (3.0, 1.2, -0.4)]
G, OMEGA, R_EARTH = 9.80616, 7.29212e-5, 6371220.0
P0, RD, CPD = 100000.0, 287.05, 1005.46
F = {}


def bounds(tier):
    return {
        "conservation": "rough states (jumps of 20 % at every side, winds of both signs), 1, 6, 24, 54 processes, orders 1-4",
        "equations": "3 flows, flat and mountainous, shallow and deep atmosphere, 4 orientations, two resolutions each",
        "damping": "difference of the tendencies with and without the damping layer of cases 21 and 22, tops below and above its base",
        "balance": "solid-body rotation of shallow water on all orientations; columns at rest in hydrostatic balance",
    }


def poly(k, X, Y, Z):
    return [
        0.5 * X + 0.3 * Y * Z - 0.4 * Z**2 + 0.2 * X * Y * Z,
        -0.6 * Y + 0.35 * X * Z + 0.25 * X**2,
        0.45 * Z - 0.3 * X * Y + 0.3 * Y**2 * Z,
        0.4 * X * Y - 0.5 * Z * X + 0.2 * Y,
        0.3 * Z**3 - 0.2 * X**2 * Y + 0.35 * X,
    ][k % 5]


def setup():
    repoenv.use_model_mpi()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sim.warm()
    import sympy as sp

    lam, phi, z, a, om, zt, hm = sp.symbols("lam phi z a om zt hm")
    X, Y, Z = sp.cos(phi) * sp.cos(lam), sp.cos(phi) * sp.sin(lam), sp.sin(phi)

    def tangent(k):
        v = [poly(k + i, X, Y, Z) for i in range(3)]
        u = -sp.sin(lam) * v[0] + sp.cos(lam) * v[1]
        w = -sp.sin(phi) * (sp.cos(lam) * v[0] + sp.sin(lam) * v[1]) + sp.cos(phi) * v[2]
        return u, w

    def fn(args, exprs):
        return sp.lambdify(args, exprs, "numpy", cse=True)

    # shallow water
    for flow in range(3):
        u, v = tangent(flow)
        u, v = 30 * u, 30 * v
        h = 6000 * (1 + sp.Rational(1, 10) * poly(flow + 2, X, Y, Z))
        hs = hm * (1 + sp.Rational(1, 2) * poly(flow + 4, X, Y, Z))
        c = sp.cos(phi)
        f = 2 * om * sp.sin(phi)
        div = lambda q: (sp.diff(q * u, lam) + sp.diff(q * v * c, phi)) / (a * c)
        t = [
            -div(h),
            -div(h * u) + h * u * v * sp.tan(phi) / a + f * h * v - G * h * sp.diff(h + hs, lam) / (a * c),
            -div(h * v) - h * u**2 * sp.tan(phi) / a - f * h * u - G * h * sp.diff(h + hs, phi) / a,
        ]
        F["sw", flow] = fn((lam, phi, a, om, hm), [h, u, v, hs] + t)
    # Euler on the sphere; terrain-following levels, flow along the levels plus an overturning that vanishes on the floor and at the top
    for flow, deep in itertools.product(range(3), (False, True)):
        r = a + z if deep else a
        zs = hm * (1 + sp.Rational(1, 2) * poly(flow + 4, X, Y, Z))
        eta = (z - zs) / (zt - zs)
        u, v = tangent(flow)
        u, v = 25 * u * (1 + z / (2 * zt)), 25 * v * (1 + z / (2 * zt))
        # motion along the levels of constant eta, plus crossing them
        wf = (1 - eta) * (u * sp.diff(zs, lam) / (r * sp.cos(phi)) + v * sp.diff(zs, phi) / r)
        w = wf + 3 * eta * (1 - eta) * (1 + poly(flow + 3, X, Y, Z))
        rho = sp.exp(-z / 9000) * (1 + sp.Rational(1, 10) * poly(flow + 1, X, Y, Z))
        rt = 300 * sp.exp(-z / 12000) * (1 + sp.Rational(1, 20) * poly(flow + 2, X, Y, Z))
        p = P0 * (RD / P0 * rt) ** (CPD / (CPD - RD))
        c = sp.cos(phi)
        m = (r / a) ** 2 if deep else 1
        div = lambda q: (sp.diff(q * u, lam) + sp.diff(q * v * c, phi)) / (r * c) + sp.diff(m * q * w, z) / m
        # the whole Coriolis force in both; curvature terms of the radial direction only in the deep atmosphere
        f1, f2 = 2 * om * sp.sin(phi), 2 * om * sp.cos(phi)
        curv = 1 if deep else 0
        t = [
            -div(rho),
            -div(rho * u) + rho * u * v * sp.tan(phi) / r - curv * rho * u * w / r + f1 * rho * v - f2 * rho * w - sp.diff(p, lam) / (r * c),
            -div(rho * v) - rho * u**2 * sp.tan(phi) / r - curv * rho * v * w / r - f1 * rho * u - sp.diff(p, phi) / r,
            -div(rho * w) + curv * rho * (u**2 + v**2) / r + f2 * rho * u - sp.diff(p, z) - rho * G,
            -div(rt),
        ]
        F["euler", flow, deep] = fn((lam, phi, z, a, om, zt, hm), [rho, u, v, w, rt, zs] + t)
    # vertical plane
    x, z, lx, lz = sp.symbols("x z lx lz")
    for flow in range(3):
        sx, sz = sp.sin(sp.pi * x / lx), sp.sin(sp.pi * z / lz)
        cx, cz = sp.cos(sp.pi * x / lx), sp.cos(sp.pi * z / lz)
        u = 20 * sx * [1 + cz, cz, cx * cz][flow]
        w = 15 * sz * [cx, 1 + cx / 2, -cz][flow]
        rho = 1 + 0.1 * [cx * cz, cz, sx * cz][flow] - z / (10 * lz)
        rt = 300 * (1 + 0.05 * [cz, sx * cz, cx][flow])
        p = P0 * (RD / P0 * rt) ** (CPD / (CPD - RD))
        div = lambda q: sp.diff(q * u, x) + sp.diff(q * w, z)
        t = [-div(rho), -div(rho * u) - sp.diff(p, x), -div(rho * w) - sp.diff(p, z) - rho * G, -div(rt)]
        F["plane", flow] = fn((x, z, lx, lz), [rho, u, w, rt] + t)


def make(base, **o):
    with contextlib.redirect_stdout(io.StringIO()):
        return sim.make(base, **o)


def rhs_of(s):
    from rhs.rhs_selector import RhsBundle

    return RhsBundle(s.geometry, s.operators, s.metric, s.topography, s.process_topo, s.config, s.initial_Q.shape).full


def full(x, like):
    return np.asarray(x, dtype=float) * np.ones_like(like)


# ---------------------------------------------------------------- conservation


def conserve_rank(rank, base, o, kind):
    s = make(getattr(sim, base), **o)
    n = s.config.num_solpts
    w = np.polynomial.legendre.leggauss(n)[1]
    rng = np.random.default_rng(5 + rank)
    A = np.array(s.initial_Q)
    B = A * (1 + (0.1 if kind == "rough" else 0.0) * rng.uniform(-1, 1, A.shape))
    if base == "SW":
        wt, g = np.outer(w, w).ravel(), np.array(s.metric.sqrtG)
        amp = 30.0 * np.max(A[0])
        u = s.geometry.wind2contra(rng.uniform(-1, 1, A[0].shape) * amp, rng.uniform(-1, 1, A[0].shape) * amp)
        if kind == "rough":
            B[1], B[2] = u
        which = [0]
    elif base == "EULER":
        wt, g = np.einsum("a,b,c->abc", w, w, w).ravel(), np.array(s.metric.sqrtG_new)
        if kind == "rough":
            u = s.geometry.wind2contra(*[rng.uniform(-1, 1, A[0].shape) * k for k in (30.0, 30.0, 5.0)], s.metric)
            for e in range(3):
                B[1 + e] = B[0] * u[e]
        which = [0, 4]
    else:
        wt, g = np.outer(w, w).ravel(), np.ones(1)
        if kind == "rough":
            for e in (1, 2):
                B[e] = B[0] * rng.uniform(-20, 20, A[0].shape)
        which = [0, 3]
    R = rhs_of(s)(B)
    return [(e, float(np.sum(R[e] * g * wt)), float(np.sum(np.abs(R[e] * g * wt)))) for e in which], bool(np.isfinite(R).all())


# ---------------------------------------------------------------- equations


def sw_rank(rank, o, flow, mountain):
    s = make(sim.SW, **o)
    g = s.geometry
    lon, lat = np.array(g.lon), np.array(g.lat)
    v = F["sw", flow](lon, lat, R_EARTH, OMEGA, 1000.0 * mountain)
    h, u, vv, hs, t0, t1, t2 = [full(x, lon) for x in v]
    if mountain:
        T = s.topography
        for name, lo, la in (("i", g.lon_itf_i, g.lat_itf_i), ("j", g.lon_itf_j, g.lat_itf_j)):
            x = full(F["sw", flow](np.array(lo), np.array(la), R_EARTH, OMEGA, 1000.0)[3], lo)
            setattr(T, "hsurf_itf_" + name, x)
        T.hsurf_itf_i[g.west_edge] = 0.0
        T.hsurf_itf_i[g.east_edge] = 0.0
        T.hsurf_itf_j[g.south_edge] = 0.0
        T.hsurf_itf_j[g.north_edge] = 0.0
        T.hsurf = hs
        op = s.operators
        T.dzdx1 = hs @ op.derivative_x + g.middle_itf_i(T.hsurf_itf_i) @ op.correction_WE
        T.dzdx2 = hs @ op.derivative_y + g.middle_itf_j(T.hsurf_itf_j) @ op.correction_SN
    else:
        s.topography = None
    u1, u2 = g.wind2contra(u, vv)
    Q = np.stack([h, h * u1, h * u2])
    R = rhs_of(s)(Q)
    ru, rv = g.contra2wind(R[1], R[2])
    return [(float(np.max(np.abs(a - b))), float(np.max(np.abs(b)))) for a, b in ((R[0], t0), (ru, t1), (rv, t2))]


def euler_rank(rank, o, flow, deep, mountain):
    s = make(sim.EULER, **o)
    g, m = s.geometry, s.metric
    args = (float(g.earth_radius), float(g.rotation_speed), float(g.ztop), 400.0 * mountain)
    fun = F["euler", flow, deep]
    if mountain:
        def floor(latlon):
            lo, la = np.array(latlon[0]), np.array(latlon[1])
            return full(fun(lo, la, 0.0 * lo, *args)[5], lo)

        old = [floor(c[:, 0]) for c in (g.coordVec_latlon, g.coordVec_latlon_itf_i, g.coordVec_latlon_itf_j)]
        new = [floor(g.get_floor(g.polar)), floor(g.get_itf_i_floor(g.polar_itf_i)), floor(g.get_itf_j_floor(g.polar_itf_j))]
        new[1][g.floor_west_edge] = 0.0
        new[1][g.floor_east_edge] = 0.0
        new[2][g.floor_south_edge] = 0.0
        new[2][g.floor_north_edge] = 0.0
        g.apply_topography(*old, *new)
        m.build_metric()
    lon, lat, z = (np.array(g.polar[k]) for k in range(3))
    v = [full(x, lon) for x in fun(lon, lat, z, *args)]
    rho, u, vv, w, rt, zs = v[:6]
    # contravariant components that give these winds (the map from components to winds is linear at each point)
    one, zero = np.ones_like(lon), np.zeros_like(lon)
    M = np.stack([np.stack([np.array(c) * one for c in g.contra2wind_3d(*e, m)], axis=-1) for e in ((one, zero, zero), (zero, one, zero), (zero, zero, one))], axis=-1)
    comp = np.linalg.solve(M, np.stack([u, vv, w], axis=-1)[..., None])[..., 0]
    Q = np.stack([rho, rho * comp[..., 0], rho * comp[..., 1], rho * comp[..., 2], rt])
    R = rhs_of(s)(Q)
    wind = np.einsum("...ij,...j->...i", M, np.stack([R[1], R[2], R[3]], axis=-1))
    got = [R[0], wind[..., 0], wind[..., 1], wind[..., 2], R[4]]
    return [(float(np.max(np.abs(a - b))), float(np.max(np.abs(b)))) for a, b in zip(got, v[6:])]


def damp_rank(rank, o, kind):
    """Tendency with the damping layer of the mountain wave cases minus the one without, and what it must be"""
    import copy

    from rhs.rhs_selector import RhsBundle

    s = make(sim.EULER, **o)
    g, m = s.geometry, s.metric
    rng = np.random.default_rng(11 + rank)
    Q = np.array(s.initial_Q)
    if kind == "rough":
        Q = Q * (1 + 0.05 * rng.uniform(-1, 1, Q.shape))
        Q[3] += Q[0] * rng.uniform(-1, 1, Q[0].shape)
    plain = copy.deepcopy(s.config)
    plain.case_number = 31
    bundle = lambda c: RhsBundle(s.geometry, s.operators, s.metric, s.topography, s.process_topo, c, s.initial_Q.shape).full
    a, b = np.array(bundle(s.config)(Q)), np.array(bundle(plain)(Q))
    lat, z = np.array(g.polar[1]), np.array(g.polar[2])
    ztop = float(s.config.ztop)
    weight = np.where(z > 20000.0, np.sin(0.5 * np.pi * (z - 20000.0) / (ztop - 20000.0)) ** 2, 0.0) / 25.0
    if o["case_number"] == 22:
        cs = 2.5e-4
        T = 300.0 * (1 - cs * 400.0 / G * np.sin(lat) ** 2)
        u = 20.0 * np.cos(lat) * np.sqrt(2 * 300.0 / T * cs * z + T / 300.0)
    else:
        u = 20.0 * np.cos(lat)
    ref = g.wind2contra(u, 0.0 * u, 0.0 * u, m)
    want = np.zeros_like(Q)
    for k in range(3):
        want[1 + k] = -weight * (Q[1 + k] - Q[0] * np.array(ref[k]))
    # size of what is subtracted
    size = [max(float(np.max(np.abs(b[k]))), float(np.max(np.abs(weight * Q[k])))) for k in range(5)]
    return [(float(np.max(np.abs((a - b)[k] - want[k]))), size[k], float(np.max(np.abs(want[k])))) for k in range(5)]


def plane_rank(rank, o, flow):
    s = make(sim.BUBBLE, **o)
    g = s.geometry
    x, z = np.array(g.X1), np.array(g.X3)
    v = [full(k, x) for k in F["plane", flow](x, z, float(s.config.x1), float(s.config.z1))]
    rho, u, w, rt = v[:4]
    R = rhs_of(s)(np.stack([rho, rho * u, rho * w, rt]))
    return [(float(np.max(np.abs(a - b))), float(np.max(np.abs(b)))) for a, b in zip(R, v[4:])]


# ---------------------------------------------------------------- cases

CONSERVE = [
    ("SW", 6, dict(case_number=6, num_elements_horizontal=1, num_solpts=1)),
    ("SW", 6, dict(case_number=5, num_elements_horizontal=2, num_solpts=4)),
    ("SW", 24, dict(case_number=5, num_elements_horizontal=4, num_solpts=3)),
    ("SW", 54, dict(case_number=2, num_elements_horizontal=6, num_solpts=2)),
    ("EULER", 6, dict(case_number=31, num_elements_horizontal=1, num_elements_vertical=1, num_solpts=3)),
    ("EULER", 6, dict(case_number=21, num_elements_horizontal=3, num_elements_vertical=2, num_solpts=2, depth_approx="deep")),
    ("EULER", 24, dict(case_number=77, num_elements_horizontal=4, num_elements_vertical=3, num_solpts=2)),
    ("EULER", 6, dict(case_number=22, num_elements_horizontal=2, num_elements_vertical=1, num_solpts=1)),
    ("EULER", 6, dict(case_number=31, num_elements_horizontal=2, num_elements_vertical=2, num_solpts=4, depth_approx="deep")),
    ("BUBBLE", 1, dict(num_solpts=3)),
    ("BUBBLE", 1, dict(num_solpts=1, num_elements_horizontal=5, num_elements_vertical=2)),
    ("BUBBLE", 1, dict(num_solpts=4, num_elements_horizontal=1, num_elements_vertical=1)),
    ("BUBBLE", 1, dict(num_solpts=2, num_elements_horizontal=2, num_elements_vertical=5)),
]


def cases(tier, seed):
    for k, (base, n, o) in enumerate(CONSERVE):
        for ang in range(4 if base != "BUBBLE" else 1):
            for kind in ("rough", "initial"):
                yield {"kind": "conserve", "model": k, "angles": ang, "state": kind}
    for ang in range(4):
        for flow in range(3):
            for mountain in (0, 1):
                n = 24 if flow == 2 and (tier == "thorough" or (ang % 2 == 0 and mountain)) else 6
                yield {"kind": "sw", "angles": ang, "flow": flow, "mountain": mountain, "n": n}
    for ang in range(4):
        for flow in range(3):
            for deep in (False, True):
                for case_number in (31, 77):
                    mountain = (ang + flow + deep + case_number // 70) % 2
                    for mt in (0, 1) if tier == "thorough" else (mountain,):
                        yield {"kind": "euler", "angles": ang, "flow": flow, "deep": deep, "mountain": mt, "case": case_number}
    for ang in range(4):
        for case_number in (21, 22):
            for ztop in (15000.0, 30000.0):
                for kind in ("rough", "initial"):
                    n = 24 if ang == 1 and kind == "rough" and ztop > 2e4 else 6
                    yield {"kind": "damping", "angles": ang, "case": case_number, "ztop": ztop, "state": kind, "n": n}
    for flow in range(3):
        yield {"kind": "plane", "flow": flow}
    for ang in range(4):
        yield {"kind": "steady", "angles": ang}


def orient(o, ang):
    a = ANGLES[ang]
    return dict(o, lambda0=a[0], phi0=a[1], alpha0=a[2])


def steady_rank(rank, o):
    s = make(sim.SW, **o)
    R = rhs_of(s)(np.array(s.initial_Q))
    ru, rv = s.geometry.contra2wind(R[1], R[2])
    return [float(np.max(np.abs(x))) for x in (R[0], ru, rv)], float(np.max(np.abs(s.initial_Q[0])))


def converge(res, case, key, runs, names, tol, factor):
    """runs: coarse and fine results, each a list over processes of (error, size) per variable"""
    e = []
    for r in runs:
        if not r.ok:
            res.bad("run failed", f"{case}: {r.problem()}")
            return
        e.append([max(v[k][0] for v in r.values) / max(v[k][1] for v in r.values) for k in range(len(names))])
    for k, name in enumerate(names):
        res.check(
            e[1][k] <= tol and e[1][k] <= max(e[0][k] / factor, 1e-9), f"{key}: tendency of {name}",
            f"{case}: tendency of {name} is off by {e[0][k]:.2e} on a coarse and {e[1][k]:.2e} on a grid of twice the resolution (relative)",
        )
        res.nontrivial += 1
    res.sample = {"coarse": e[0], "fine": e[1]}


def run_case(case):
    res = Result()
    kind = case["kind"]
    if kind == "conserve":
        base, n, o = CONSERVE[case["model"]]
        if base != "BUBBLE":
            o = orient(o, case["angles"])
        r = execute(n, conserve_rank, (base, o, case["state"]), timeout=400)
        if not r.ok:
            res.bad("run failed", f"{base} {o}: {r.problem()}")
            return res
        for k in range(len(r.values[0][0])):
            e = r.values[0][0][k][0]
            total = sum(v[0][k][1] for v in r.values)
            size = sum(v[0][k][2] for v in r.values)
            res.check(abs(total) <= 1e-12 * size + 1e-300, f"{base}: content not conserved", f"{base} {o}: tendency of variable {e} changes its content: {total:.3e} of {size:.3e}")
        res.check(all(v[1] for v in r.values), f"{base}: not finite", f"{base} {o}: tendency is not finite")
        res.states += 1
        return res
    if kind == "sw":
        n = case["n"]
        runs = [
            execute(n, sw_rank, (orient(dict(case_number=5, num_elements_horizontal=ne * (2 if n == 24 else 1), num_solpts=5), case["angles"]), case["flow"], case["mountain"]), timeout=400)
            for ne in (2, 4)
        ]
        converge(res, case, "shallow water", runs, ["h", "zonal momentum", "meridional momentum"], 2e-2, 4.0)
        res.states += 1
        return res
    if kind == "euler":
        runs = []
        for ne, nv in ((2, 2), (4, 4)):
            o = orient(dict(case_number=case["case"], num_elements_horizontal=ne, num_elements_vertical=nv, num_solpts=5, depth_approx="deep" if case["deep"] else "shallow"), case["angles"])
            runs.append(execute(6, euler_rank, (o, case["flow"], case["deep"], case["mountain"]), timeout=500))
        converge(res, case, "Euler", runs, ["density", "zonal momentum", "meridional momentum", "vertical momentum", "potential temperature"], 5e-3, 4.0)
        res.states += 1
        return res
    if kind == "damping":
        o = orient(dict(case_number=case["case"], num_elements_horizontal=2 if case["n"] == 6 else 4, num_elements_vertical=3, num_solpts=3, ztop=case["ztop"]), case["angles"])
        r = execute(case["n"], damp_rank, (o, case["state"]), timeout=400)
        if not r.ok:
            res.bad("run failed", f"{case}: {r.problem()}")
            return res
        for rk, v in enumerate(r.values):
            for k, (err, size, want) in enumerate(v):
                res.check(err <= 1e-10 * size + 1e-300, "damping layer", f"{case}: process {rk}: damping of variable {k} is off by {err:.3e} (size of the terms {size:.3e}, of the damping {want:.3e})")
                res.nontrivial += want > 0
        res.states += 1
        return res
    if kind == "plane":
        runs = [execute(1, plane_rank, (dict(num_solpts=5, num_elements_horizontal=ne, num_elements_vertical=ne), case["flow"]), timeout=300) for ne in (3, 6)]
        converge(res, case, "plane", runs, ["density", "horizontal momentum", "vertical momentum", "potential temperature"], 2e-3, 4.0)
        res.states += 1
        return res
    if kind == "steady":
        e = []
        for ne in (2, 4):
            r = execute(6, steady_rank, (orient(dict(case_number=2, num_elements_horizontal=ne, num_solpts=5), case["angles"]),), timeout=300)
            if not r.ok:
                res.bad("run failed", f"{case}: {r.problem()}")
                return res
            e.append(np.max([v[0] for v in r.values], axis=0) / r.values[0][1])
        # sizes of the terms that balance: u h / R and f u
        size = np.array([38.6 / R_EARTH, 2 * OMEGA * 38.6, 2 * OMEGA * 38.6])
        for k in range(3):
            res.check(e[1][k] <= 2e-3 * size[k] and e[1][k] <= e[0][k] / 4, "steady flow", f"{case}: steady flow drifts in variable {k}: {e[0][k] / size[k]:.2e}, {e[1][k] / size[k]:.2e} of the balancing terms")
        res.states += 1
        res.sample = {"coarse": (e[0] / size).tolist(), "fine": (e[1] / size).tolist()}
        return res
    raise ValueError(kind)
