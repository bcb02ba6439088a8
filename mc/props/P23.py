"""Initial states: every test case starts from the fields its publication gives, at every point of every tile, for every
orientation, resolution, decomposition and option."""
import numpy as np

from .. import geo, repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
RULE = (
    "one evaluation = one field of one tile of the initial state (mass, momentum, temperature, surface, slope) compared "
    "point by point with the published formula at the true position; distinct by (case, orientation, process count, "
    "elements, points per element, depth, top, tile, field)"
)
ASSUMPTIONS = [
    "oracle: the formulas of Williamson et al. 1992, Galewsky et al. 2004, Shamir et al. 2019, Laeuter et al. 2005, "
    "DCMIP 2012 (2-1, 2-2, 3-1), Tomita and Satoh 2004, Robert 1993, evaluated at positions from vector geometry",
    "over mountains, the vertical component is either that of a purely horizontal wind or zero (see P19's finding)",
]
CASE_TIMEOUT = 300

ANGLES = [(0.0, 0.0, 0.0), (0.3, 0.5, 0.2), (-1.2, -0.7, 0.9), (3.0, 1.2, -0.4), (0.0, 0.7853981633974483, 0.0), (-2.2, 0.1, 2.9)]
DAY = 86400.0
RD, CPD, P0 = 287.05, 1005.46, 100000.0


def bounds(tier):
    return {
        "orientations (lon, lat, angle)": ANGLES,
        "process counts": [1, 6, 24, 54],
        "shallow-water cases": [2, 5, 6, 8, 9, 10],
        "Euler cases on the sphere": [21, 22, 31, 77],
        "Cartesian cases": [1, 2, 3],
        "elements per side and tile": "1-4",
        "points per element": "2-5",
        "options": "depth, top of the atmosphere, wave type and amplitude, background temperature, bubble radius, domain",
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


# ---------------------------------------------------------------------------------------------------------- real code
def start(rank, base, o):
    s = sim.make(base, **o)
    out = {
        "Q": np.array(s.Q), "angles": None,
    }
    g = s.geometry
    if hasattr(g, "earth_radius"):
        out["angles"] = (float(s.config.lambda0), float(s.config.phi0), float(s.config.alpha0))
        out["R"], out["omega"] = float(g.earth_radius), float(g.rotation_speed)
    if hasattr(g, "z_floor"):
        out["floor"] = np.array(g.z_floor)
        out["h_cov"] = np.array(s.metric.h_cov_new)
    t = s.topography
    if t is not None:
        out["topo"] = {k: np.array(getattr(t, k)) for k in ("hsurf", "dzdx1", "dzdx2", "hsurf_itf_i", "hsurf_itf_j")}
    return out


# ------------------------------------------------------------------------------------------------------------ oracles
def wrap(x):
    return (x + np.pi) % (2 * np.pi) - np.pi


def galewsky_jet(lat):
    a, b = np.pi / 7, np.pi / 2 - np.pi / 7
    inside = (lat > a) & (lat < b)
    x = np.where(inside, lat, 0.5 * (a + b))
    return np.where(inside, 80.0 * np.exp(4.0 / (b - a) ** 2) * np.exp(1.0 / ((x - a) * (x - b))), 0.0)


_balance = []


def galewsky_drop(lat):
    """Integral of the geostrophic balance from the south pole, by a fine Gauss rule and exact interpolation in between"""
    if not _balance:
        n = 4000
        e = np.linspace(np.pi / 7, np.pi / 2 - np.pi / 7, n + 1)
        t, w = np.polynomial.legendre.leggauss(6)
        x = 0.5 * (e[1:, None] + e[:-1, None]) + 0.5 * (e[1] - e[0]) * t
        u = galewsky_jet(x)
        f = geo.RADIUS * u * (2 * geo.OMEGA * np.sin(x) + u * np.tan(x) / geo.RADIUS)
        _balance.append((e, np.concatenate([[0.0], np.cumsum((f * w).sum(1) * 0.5 * (e[1] - e[0]))])))
    e, c = _balance[0]
    from scipy.interpolate import CubicSpline

    return CubicSpline(e, c)(np.clip(lat, e[0], e[-1])) / geo.GRAVITY


def matsuno(lat, lon, kind, amp):
    """Equatorial wave of the linearised equations (k=5, n=1, depth 30 m) at t=0; frequencies: roots of the dispersion relation"""
    g, a, om, H, k, n = 9.80616, 6371220.0, 7.29212e-5, 30.0, 5, 1
    roots = np.sort(np.roots([1.0, 0.0, -(g * H * (k / a) ** 2 + 2 * om * np.sqrt(g * H) * (2 * n + 1) / a), -2 * om * g * H * k / a**2]).real)
    w = {"WIG": roots[0], "Rossby": roots[1], "EIG": roots[2]}[kind]
    lamb = (2 * om * a) ** 2 / (g * H)
    y = lamb**0.25 * lat
    ex = amp * np.exp(-0.5 * y * y)
    h0 = np.ones_like(y) / np.pi**0.25
    h1 = (4.0 / np.pi) ** 0.25 * y
    h2 = y * h1 - np.sqrt(0.5) * h0
    v, vp, vm = ex * h1, ex * h2, ex * h0
    c = g * H * lamb**0.25 / (1j * a * (w**2 - g * H * (k / a) ** 2))
    up, um = np.sqrt((n + 1) / 2.0), np.sqrt(n / 2.0)
    u_ = c * (-up * (w / np.sqrt(g * H) + k / a) * vp - um * (w / np.sqrt(g * H) - k / a) * vm)
    p_ = c * (-up * (w + np.sqrt(g * H) * k / a) * vp + um * (w - np.sqrt(g * H) * k / a) * vm)
    ph = np.exp(1j * k * lon)
    return (ph * u_).real, (ph * v).real, (ph * p_).real / g + H


def shallow(case, o, lon, lat):
    """(u, v, depth, surface)"""
    R, Om, g = geo.RADIUS, geo.OMEGA, geo.GRAVITY
    z = np.zeros_like(lat)
    c, s = np.cos(lat), np.sin(lat)
    if case == 2:
        u0 = 2 * np.pi * R / (12 * DAY)
        return u0 * c, z, (29400.0 - (R * Om * u0 + u0**2 / 2) * s**2) / g, z
    if case == 5:
        u0, rr = 20.0, np.pi / 9
        r = np.minimum(rr, np.hypot(wrap(lon - 1.5 * np.pi), lat - np.pi / 6))
        hs = 2000.0 * (1 - r / rr)
        return u0 * c, z, 5960.0 - (R * Om * u0 + u0**2 / 2) * s**2 / g - hs, hs
    if case == 6:
        w = K = 7.848e-6
        r = 4
        A = w / 2 * (2 * Om + w) * c**2 + K**2 / 4 * ((r + 1) * c ** (2 * r + 2) + (2 * r * r - r - 2) * c ** (2 * r) - 2 * r * r * c ** (2 * r - 2))
        B = 2 * (Om + w) * K / ((r + 1) * (r + 2)) * c**r * ((r * r + 2 * r + 2) - (r + 1) ** 2 * c**2)
        C = K**2 / 4 * c ** (2 * r) * ((r + 1) * c**2 - (r + 2))
        h = 8000.0 + R * R / g * (A + B * np.cos(r * lon) + C * np.cos(2 * r * lon))
        u = R * w * c + R * K * c ** (r - 1) * (r * s**2 - c**2) * np.cos(r * lon)
        v = -R * K * r * c ** (r - 1) * s * np.sin(r * lon)
        return u, v, h, z
    if case == 8:
        bump = 120.0 * c * np.exp(-((wrap(lon) * 3.0) ** 2)) * np.exp(-((15.0 * (np.pi / 4 - lat)) ** 2))
        return galewsky_jet(lat), z, 10158.18617045463179 - galewsky_drop(lat) + bump, z
    if case == 9:
        u, v, h = matsuno(lat, lon, o["matsuno_wave_type"], o["matsuno_amp"])
        return u, v, h, z
    if case == 10:
        u0 = 2 * np.pi * R / (12 * DAY)
        hs = (0.5 * (R * Om * s) ** 2 + 10.0) / g
        top = (-0.5 * (u0 * s + R * Om * s) ** 2 + 0.5 * (R * Om * s) ** 2 + 133681.0) / g
        return u0 * c, z, top - hs, hs
    raise ValueError(case)


def mountain(case, lon, lat, R):
    if case in (21, 22):
        r = R * np.arccos(np.clip(np.cos(lat) * np.cos(lon - np.pi / 4), -1, 1))
        return 250.0 * np.exp(-((r / 5000.0) ** 2)) * np.cos(np.pi * r / 4000.0) ** 2
    return np.zeros_like(lat)


def euler(case, lon, lat, z, R):
    """(u, v, rho, theta)"""
    g = geo.GRAVITY
    zero = np.zeros_like(lat)
    if case in (21, 22):
        cs = 2.5e-4 if case == 22 else 0.0
        T = 300.0 * (1 - cs * 400.0 / g * np.sin(lat) ** 2)
        p = 1e5 * np.exp(-400.0 / (2 * RD * 300.0) * np.sin(lat) ** 2 - g * z / (RD * T))
        u = 20.0 * np.cos(lat) * np.sqrt(2 * 300.0 / T * cs * z + T / 300.0)
        return u, zero, p / (RD * T), T * (P0 / p) ** (RD / CPD)
    if case == 31:
        u0, N2, Om = 20.0, 1e-4, 0.0
        G = g * g / (N2 * CPD)
        q = np.cos(2 * lat) - 1
        Ts = G + (300.0 - G) * np.exp(-(u0 * N2 / (4 * g * g)) * (u0 + 2 * Om * R) * q)
        ps = 1e5 * np.exp(u0 / (4 * G * RD) * (u0 + 2 * Om * R) * q) * (Ts / 300.0) ** (CPD / RD)
        p = ps * (G / Ts * np.exp(-N2 * z / g) + 1 - G / Ts) ** (CPD / RD)
        T = G * (1 - np.exp(N2 * z / g)) + Ts * np.exp(N2 * z / g)
        r = R * np.arccos(np.clip(np.cos(lat) * np.cos(lon - 2 * np.pi / 3), -1, 1))
        pert = 5000.0**2 / (5000.0**2 + r * r) * np.sin(2 * np.pi * z / 20000.0)
        return u0 * np.cos(lat), zero, p / (RD * T), T * (P0 / p) ** (RD / CPD) + pert
    if case == 77:
        a = 6371000.0
        r = a * np.arccos(np.clip(np.cos(lat) * np.cos(lon), -1, 1))
        rc = a / 3
        f = np.where(r > rc, 0.0, 50.0 * (1 + np.cos(np.pi * r / rc)))
        p = P0 * np.exp(-z * g / (RD * 300.0)) + f * np.sin(np.pi * z / 10000.0)
        return zero, zero, p / (RD * 300.0), 300.0 * (P0 / p) ** (RD / CPD)
    raise ValueError(case)


def bubble(case, o, x, z):
    th = np.full_like(x, o["bubble_theta"])

    def blob(A, a, s, x0, z0):
        r = np.hypot(x - x0, z - z0)
        return np.where(r <= a, A, A * np.exp(-(((r - a) / s) ** 2)))

    if case == 1:
        th = th + np.where(np.hypot(x - 500.0, z - 260.0) < o["bubble_rad"], 0.5, 0.0)
    elif case == 2:
        th = th + blob(0.5, 50.0, 100.0, 500.0, 260.0)
    elif case == 3:
        th = th + blob(0.5, 150.0, 50.0, 500.0, 300.0) + blob(-0.15, 0.0, 50.0, 560.0, 640.0)
    ex = 1.0 - geo.GRAVITY / (CPD * th) * z
    return P0 / (RD * th) * ex ** ((CPD - RD) / RD), th


def slope_matrix(ns):
    """Derivative, at the solution points of an element, of the polynomial through both edges and the solution points"""
    x = np.concatenate([[-1.0], geo.gauss(ns), [1.0]])
    V = np.polynomial.legendre.legvander(x, ns + 1)
    D = np.stack([np.polynomial.legendre.legval(x[1:-1], np.polynomial.legendre.legder(np.eye(ns + 2)[k])) for k in range(ns + 2)], axis=1)
    return D @ np.linalg.inv(V)


# -------------------------------------------------------------------------------------------------------------- cases
def cases(tier, seed):
    grid = [(6, 1, 2), (6, 2, 3), (24, 2, 4), (54, 2, 2), (6, 3, 5)]
    if tier == "thorough":
        grid += [(24, 3, 3), (54, 3, 4), (96, 2, 3), (6, 5, 4), (6, 9, 3)]
    waves = [("Rossby", 1e-5), ("EIG", 1e-5), ("WIG", 2e-5), ("Rossby", 3.0)]
    for k, ang in enumerate(ANGLES):
        for case in (2, 5, 6, 8, 9, 10):
            for j, (n, ne, ns) in enumerate(grid):
                if case > 6 and (k, j) not in ((0, 0), (1, 1)):
                    continue  # known not to start
                if tier == "quick" and case <= 6 and (k + j + case) % 2:
                    continue
                o = {}
                if case == 9:
                    t, a = waves[(k + j) % 4]
                    o = {"matsuno_wave_type": t, "matsuno_amp": a}
                yield {"kind": "sw", "n": n, "ne": ne, "ns": ns, "case": case, "angles": ang, "o": o}
    # orientation chosen so that the features of the problems fall on panel corners, poles and the date line
    g3 = [(6, 1, 2, 1), (6, 2, 3, 2), (24, 2, 2, 2), (54, 2, 2, 1), (6, 1, 4, 3)]
    for k, ang in enumerate(ANGLES):
        for case in (21, 22, 31, 77):
            for d, depth in enumerate(("shallow", "deep")):
                for j, (n, ne, ns, nv) in enumerate(g3):
                    if tier == "quick" and (j + k + case + d) % 5 > 1:
                        continue
                    yield {"kind": "3d", "n": n, "ne": ne, "ns": ns, "nv": nv, "case": case, "angles": ang, "o": {"depth_approx": depth, "ztop": (10000.0, 12000.0, 30000.0)[(j + k) % 3]}}
    for case in (1, 2, 3):
        for ne, nv, ns in ((3, 4, 3), (5, 2, 2), (2, 6, 4), (1, 1, 6)) + (((10, 12, 5), (7, 9, 3)) if tier == "thorough" else ()):
            for th in (303.15, 250.0):
                for rad in (250.0, 120.0) if case == 1 else (250.0,):
                    for x0, x1, z0, z1 in ((0, 1000, 0, 1500), (0, 1000, 0, 1000), (-500, 1500, 0, 1200)):
                        yield {"kind": "xz", "n": 1, "ne": ne, "nv": nv, "ns": ns, "case": case,
                               "o": dict(bubble_theta=th, bubble_rad=rad, x0=x0, x1=x1, z0=z0, z1=z1)}


def run_case(case):
    res = Result()
    n, ne, ns = case["n"], case["ne"], case["ns"]
    lines = int(round((n / 6) ** 0.5)) if n > 1 else 1
    o = dict(case["o"], num_elements_horizontal=ne * lines, num_solpts=ns, case_number=case["case"])
    base = {"sw": sim.SW, "3d": sim.EULER, "xz": sim.BUBBLE}[case["kind"]]
    if n > 1:
        o.update(lambda0=case["angles"][0], phi0=case["angles"][1], alpha0=case["angles"][2])
    if "nv" in case:
        o["num_elements_vertical"] = case["nv"]
    r = execute(n, start, (base, o), timeout=250)
    if not r.ok:
        res.bad(f"case {case['case']} does not start", f"{case}: {r.problem()}")
        return res
    num = case["case"]

    def same(key, a, b, scale=None, t=1e-10):
        a, b = np.asarray(a), np.asarray(b)
        s = scale if scale is not None else float(np.max(np.abs(b)))
        d = float(np.max(np.abs(a - b)) / (s or 1.0)) if a.shape == b.shape else np.inf
        # written so that a not-a-number fails too
        res.check(bool(d <= t), f"case {num}: {key}", lambda: f"{case} rank {rank}: {key} differs by {d:.3g} of its size")

    for rank in range(n):
        v = r.values[rank]
        Q = v["Q"]
        if case["kind"] == "xz":
            x = geo.element_points(o["x0"], o["x1"], ne, ns)
            z = geo.element_points(o["z0"], o["z1"], case["nv"], ns)
            sh = (case["nv"], ne, ns, ns)
            X = np.broadcast_to(x[None, :, None, :], sh).reshape(case["nv"], ne, ns * ns)
            Z = np.broadcast_to(z[:, None, :, None], sh).reshape(case["nv"], ne, ns * ns)
            if Q.shape != (4, *X.shape):
                res.bad("layout", f"{case}: state has shape {Q.shape}")
                return res
            rho, th = bubble(num, o, X, Z)
            same("density", Q[0], rho)
            same("horizontal momentum", Q[1], np.zeros_like(rho), 1.0)
            same("vertical momentum", Q[2], np.zeros_like(rho), 1.0)
            same("temperature", Q[3] / Q[0], th)
            continue
        rot = geo.rotation(*v["angles"])
        p = geo.interior(rank, lines, ne, ns, rot)
        # the sphere may be a small one: positions and directions are the same, lengths shrink
        if case["kind"] == "sw":
            if Q.shape != (3, *p.lon.shape):
                res.bad("layout", f"{case}: state has shape {Q.shape}")
                return res
            u, vv, h, hs = shallow(num, o, p.lon, p.lat)
            t = 1e-10
            if num == 8:
                t = 2e-7  # the balanced height is the outcome of a numerical integration
            same("depth", Q[0], h, t=t)
            W = np.stack(p.wind(Q[1] / Q[0], Q[2] / Q[0]))
            want = np.stack([u, vv])
            ok = np.abs(p.lat) < np.pi / 2 - 1e-6
            size = {2: 40.0, 5: 20.0, 6: 100.0, 8: 80.0, 10: 40.0}.get(num, 1e-1 * o.get("matsuno_amp", 0) * 1e5 * 1e-5)
            if ok.any():
                same("wind", W[:, ok], want[:, ok], size, 1e-9)
            if num in (5, 10):
                if "topo" not in v:
                    res.bad("mountain missing", f"{case} rank {rank}: no surface height")
                    return res
                tp = v["topo"]
                H = max(float(np.max(np.abs(hs))), 1.0)
                same("surface", tp["hsurf"], hs, H)
                pi, pj = geo.edges_i(rank, lines, ne, ns, rot), geo.edges_j(rank, lines, ne, ns, rot)
                ei, ej = (shallow(num, o, q.lon, q.lat)[3] for q in (pi, pj))
                same("surface at edges", tp["hsurf_itf_i"].reshape(ne, ne + 2, 2 * ns)[:, 1:-1], ei, H)
                same("surface at edges", tp["hsurf_itf_j"].reshape(ne + 2, ne, 2 * ns)[1:-1], ej, H)
                D = slope_matrix(ns)
                b = hs.reshape(ne, ne, ns, ns)
                ei, ej = ei.reshape(ne, ne, 2, ns), ej.reshape(ne, ne, 2, ns)
                fx = np.concatenate([ei[:, :, 0][..., None], b, ei[:, :, 1][..., None]], axis=-1)
                fy = np.concatenate([ej[:, :, 0][:, :, None], b, ej[:, :, 1][:, :, None]], axis=2)
                same("slope", tp["dzdx1"], np.einsum("pq,abjq->abjp", D, fx).reshape(hs.shape), H)
                same("slope", tp["dzdx2"], np.einsum("pq,abqi->abpi", D, fy).reshape(hs.shape), H)
            elif "topo" in v:
                res.check(not np.any(v["topo"]["hsurf"]), "mountain where there is none", f"{case} rank {rank}")
        else:
            nv = case["nv"]
            sh = (nv, ne, ne, ns**3)
            if Q.shape != (5, *sh):
                res.bad("layout", f"{case}: state has shape {Q.shape}")
                return res
            R = geo.RADIUS / {21: 500.0, 22: 500.0, 31: 125.0}.get(num, 1.0)
            om = 0.0 if num in (21, 22, 31) else geo.OMEGA
            res.check(abs(v["R"] / R - 1) < 1e-12 and abs(v["omega"] - om) < 1e-12 * geo.OMEGA, f"case {num}: planet",
                      f"{case}: radius {v['R']}, rotation {v['omega']}")
            up = lambda x: np.broadcast_to(np.tile(x, ns)[None], sh)
            lon, lat = up(p.lon), up(p.lat)
            floor = mountain(num, p.lon, p.lat, R)
            same("surface", v["floor"], floor, 250.0)
            eta = geo.element_points(0.0, 1.0, nv, ns)
            eta = np.broadcast_to(np.repeat(eta, ns * ns, axis=1)[:, None, None, :], sh)
            z = up(floor) + eta * (o["ztop"] - up(floor))
            u, vv, rho, th = euler(num, lon, lat, z, R)
            same("density", Q[0], rho)
            same("temperature", Q[4] / Q[0], th)
            far = (R + (z if o["depth_approx"] == "deep" else 0.0)) / geo.RADIUS
            u1, u2 = Q[1] / Q[0] * far, Q[2] / Q[0] * far
            e = [np.stack([up(p.e[k][i]) for i in range(3)]) for k in range(2)]
            east = np.stack([up(p.east[i]) for i in range(3)])
            north = np.stack([up(p.north[i]) for i in range(3)])
            V = u1 * e[0] + u2 * e[1]
            same("eastward wind", (V * east).sum(0), u, 20.0, 1e-9)
            same("northward wind", (V * north).sum(0), vv, 20.0, 1e-9)
            zeta = (o["ztop"] - up(floor)) / (2.0 * nv)
            w = Q[3] / Q[0] * zeta
            slope = [v["h_cov"][i, 2] / zeta for i in range(2)]
            lift = Q[1] / Q[0] * slope[0] + Q[2] / Q[0] * slope[1]
            d = min(float(np.max(np.abs(w))), float(np.max(np.abs(w + lift))))
            res.check(bool(d <= 1e-8), f"case {num}: upward wind", lambda: f"{case} rank {rank}: upward wind is off by {d:.3g} m/s")
    res.states += n
    res.transitions += len(r.trace)
    res.sample = {"case": case}
    return res

