"""Geometry: positions, wind conversions, metric, rotation terms and integrals are those of the rotated sphere, on every
panel, tile, orientation and resolution."""
import numpy as np

from .. import geo, repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
RULE = (
    "one evaluation = one field of one tile (positions, wind conversion, metric, rotation terms, integral, vorticity) "
    "compared point by point with vector geometry on the sphere; distinct by (orientation, process count, elements, "
    "points per element, problem, depth, tile, field)"
)
ASSUMPTIONS = [
    "conversions are linear in the components: random components at every point decide them",
    "oracle: vector calculus in three dimensions, with complex-step derivatives, agrees to rounding on the tree",
]
CASE_TIMEOUT = 300

ANGLES = [(0.0, 0.0, 0.0), (0.3, 0.5, 0.2), (-1.2, -0.7, 0.9), (3.0, 1.2, -0.4), (0.0, 0.7853981633974483, 0.0), (-2.2, 0.1, 2.9)]


def bounds(tier):
    return {
        "orientations (lon, lat, angle)": ANGLES,
        "process counts": [6, 24, 54],
        "elements per side and tile": "1-4",
        "points per element": "2-5 (2-D), 2-4 (3-D)",
        "3-D": "flat and mountain problems, shallow and deep atmosphere, 1-3 vertical elements",
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


def noise(shape, k):
    i = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
    x = np.sin(i * 12.9898 + k * 78.233 + 1.0) * 43758.5453
    return 2.0 * (x - np.floor(x)) - 1.0


def flat2d(rank, o):
    from output.diagnostic import global_integral_2d, relative_vorticity, potential_vorticity, total_energy

    s = sim.make(sim.SW, **o)
    g, m = s.geometry, s.metric
    sh = s.Q[0].shape
    out = {"angles": (float(s.config.lambda0), float(s.config.phi0), float(s.config.alpha0)), "shape": sh}
    out["lon"], out["lat"] = np.array(g.lon), np.array(g.lat)
    a, b = noise(sh, rank), noise(sh, rank + 100)
    out["winds"] = [np.array(x) for x in g.contra2wind(a * 1e-6, b * 1e-6)]
    out["comps"] = [np.array(x) for x in g.wind2contra(a * 10.0, b * 10.0)]
    out["roundtrip"] = [np.array(x) for x in g.wind2contra(*g.contra2wind(a, b))]
    for k in ("sqrtG", "inv_sqrtG", "coriolis_f", "sqrtG_itf_i", "sqrtG_itf_j"):
        out[k] = np.array(getattr(m, k))
    for i in "12":
        for j in "12":
            out["cov" + i + j] = np.array(getattr(m, "H_cov_" + i + j))
            out["contra" + i + j] = np.array(getattr(m, "H_contra_" + i + j))
            out["contra_i" + i + j] = np.array(getattr(m, f"H_contra_{i}{j}_itf_i"))
            out["contra_j" + i + j] = np.array(getattr(m, f"H_contra_{i}{j}_itf_j"))
            out["cor" + i + j] = np.array(getattr(m, f"christoffel_{i}_0{j}"))
            for k in "12":
                out["chr" + i + j + k] = np.array(getattr(m, f"christoffel_{i}_{j}{k}")) * np.ones(sh)
    ops, ns = s.operators, s.config.num_solpts
    lat, lon = out["lat"], out["lon"]
    out["integrals"] = [
        float(global_integral_2d(f, ops, m, ns, s.comm))
        for f in (np.ones(sh), np.sin(lat) ** 2, np.cos(lat) * np.cos(lon), np.sin(lat))
    ]
    # rigid rotation around the pole: known vorticity
    u = 20.0 * np.cos(lat)
    c = g.wind2contra(u, np.zeros_like(u))
    out["vort"] = np.array(relative_vorticity(c[0], c[1], m, ops))
    h = 1000.0 + 10.0 * np.sin(lat)
    out["pv"] = np.array(potential_vorticity(h, c[0], c[1], m, ops))
    out["energy"] = np.array(total_energy(h, a * 1e-6, b * 1e-6, None, m))
    return out


def solid3d(rank, o):
    s = sim.make(sim.EULER, **o)
    g, m = s.geometry, s.metric
    sh = s.Q[0].shape
    out = {
        "angles": (float(s.config.lambda0), float(s.config.phi0), float(s.config.alpha0)), "shape": sh,
        "deep": bool(g.deep), "R": float(g.earth_radius), "omega": float(g.rotation_speed),
        "lon": np.array(g.polar[0]), "lat": np.array(g.polar[1]), "z": np.array(g.polar[2]),
        "floor": np.array(g.z_floor),
    }
    a, b, c = (noise(sh, rank + 100 * k) for k in range(3))
    out["winds"] = [np.array(x) for x in g.contra2wind_3d(a * 1e-4, b * 1e-4, c * 1e-3, m)]
    w2c = g.wind2contra
    out["comps"] = [np.array(x) for x in w2c(a * 10.0, b * 10.0, c * 2.0, m)]
    out["roundtrip"] = [np.array(x) for x in w2c(*g.contra2wind_3d(a, b, c, m), m)]
    for k in ("sqrtG_new", "h_contra_new", "h_cov_new", "christoffel", "inv_dzdeta_new", "inv_sqrtG_new"):
        out[k] = np.array(getattr(m, k))
    return out


def cases(tier, seed):
    grid = [(6, 1, 2), (6, 2, 3), (24, 2, 4), (24, 2, 2), (54, 2, 3), (6, 3, 5), (6, 1, 6)]
    if tier == "thorough":
        grid += [(24, 3, 5), (54, 3, 4), (96, 2, 3), (6, 5, 4)]
    for ang in ANGLES:
        for n, ne, ns in grid:
            yield {"kind": "2d", "n": n, "ne": ne, "ns": ns, "angles": ang}
    # finer grids: integrals and vorticity converge to the analytic values
    for ang in ANGLES[:3]:
        yield {"kind": "2d", "n": 6, "ne": 4, "ns": 6, "angles": ang, "fine": True}
    g3 = [(6, 1, 2, 1), (6, 2, 3, 2), (24, 2, 2, 2), (54, 2, 2, 1), (6, 1, 4, 3)]
    for k, ang in enumerate(ANGLES):
        for case in (31, 21, 77):
            for depth in ("shallow", "deep"):
                for n, ne, ns, nv in g3 if tier == "thorough" else (g3[(k + case) % 5], g3[(k + case + 2) % 5]):
                    yield {"kind": "3d", "n": n, "ne": ne, "ns": ns, "nv": nv, "case": case, "depth": depth, "angles": ang}


def rel(a, b):
    b = np.asarray(b)
    a = np.asarray(a)
    if a.shape != b.shape or not np.isfinite(a).all():
        return np.inf
    s = np.max(np.abs(b))
    return float(np.max(np.abs(a - b)) / (s if s else 1.0))


def pointing(lon, lat):
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])


def run_case(case):
    res = Result()
    n = case["n"]
    lines = int(round((n / 6) ** 0.5))
    ne, ns = case["ne"], case["ns"]
    o = dict(lambda0=case["angles"][0], phi0=case["angles"][1], alpha0=case["angles"][2],
             num_elements_horizontal=ne * lines, num_solpts=ns)
    if case["kind"] == "2d":
        r = execute(n, flat2d, (o,), timeout=250)
    else:
        ztop = 12000.0
        o.update(num_elements_vertical=case["nv"], case_number=case["case"], depth_approx=case["depth"], ztop=ztop)
        r = execute(n, solid3d, (o,), timeout=250)
    if not r.ok:
        # very small tiles are refused with too many processes: not the business of this check
        res.bad("run failed", f"{case}: {r.problem()}")
        return res
    where = f"{case}"
    tol = 1e-11

    def same(key, a, b, t=tol, extra=""):
        d = rel(a, b)
        res.check(d <= t, key, lambda: f"{where} rank {rank} {extra}: {key} differs by {d:.3g} (relative)")

    # values at element edges, without the outer side of the tile
    at_i = lambda x: x.reshape(ne, ne + 2, 2 * ns)[:, 1:-1]
    at_j = lambda x: x.reshape(ne + 2, ne, 2 * ns)[1:-1]

    for rank in range(n):
        v = r.values[rank]
        for got, want in zip(v["angles"], case["angles"]):
            # angles are stored with 24 bits: only nearly what was asked
            res.check(abs((got - want + np.pi) % (2 * np.pi) - np.pi) < 1e-6, "angles", f"{where}: angle {got} instead of {want}")
        rot = geo.rotation(*v["angles"])
        if case["kind"] == "2d":
            p = geo.interior(rank, lines, ne, ns, rot)
            if v["shape"] != p.lon.shape:
                res.bad("layout", f"{where}: tile has shape {v['shape']}")
                return res
            same("positions", pointing(v["lon"], v["lat"]), p.p)
            a, b = noise(v["shape"], rank), noise(v["shape"], rank + 100)
            w = p.wind(a * 1e-6, b * 1e-6)
            # east is undefined at the poles
            ok = np.abs(p.lat) < np.pi / 2 - 1e-6
            same("winds from components", np.stack(v["winds"])[:, ok], np.stack(w)[:, ok], 1e-10)
            same("components from winds", np.stack(v["comps"])[:, ok], np.stack(p.components(a * 10.0, b * 10.0))[:, ok], 1e-10)
            same("wind round trip", np.stack(v["roundtrip"]), np.stack([a, b]), 1e-10)
            same("area element", v["sqrtG"], p.sqrtG)
            same("area element", v["inv_sqrtG"], 1.0 / p.sqrtG)
            same("Coriolis parameter", v["coriolis_f"], p.f)
            pi, pj = geo.edges_i(rank, lines, ne, ns, rot), geo.edges_j(rank, lines, ne, ns, rot)
            same("area element at edges", at_i(v["sqrtG_itf_i"]), pi.sqrtG)
            same("area element at edges", at_j(v["sqrtG_itf_j"]), pj.sqrtG)
            G, C = p.christoffel(), p.coriolis()
            gs = max(np.max(np.abs(G[i][j][k])) for i in range(2) for j in range(2) for k in range(2))
            cs = max(np.max(np.abs(C[i][j])) for i in range(2) for j in range(2))
            for i in range(2):
                for j in range(2):
                    ij = f"{i + 1}{j + 1}"
                    same("covariant metric", v["cov" + ij], p.cov[i, j])
                    same("contravariant metric", v["contra" + ij], p.contra[i, j])
                    same("contravariant metric at edges", at_i(v["contra_i" + ij]), pi.contra[i, j])
                    same("contravariant metric at edges", at_j(v["contra_j" + ij]), pj.contra[i, j])
                    d = np.max(np.abs(v["cor" + ij] - C[i][j])) / cs
                    res.check(d < tol, "rotation terms", f"{where} rank {rank}: rotation term {ij} differs by {d:.3g}")
                    for k in range(2):
                        d = np.max(np.abs(v["chr" + ij + str(k + 1)] - G[i][j][k])) / gs
                        res.check(d < tol, "curvature terms", f"{where} rank {rank}: curvature term {ij}{k+1} differs by {d:.3g}")
            h = 1000.0 + 10.0 * np.sin(p.lat)
            wz = 0.5 * h * (w[0] ** 2 + w[1] ** 2) + 0.5 * geo.GRAVITY * h**2
            same("energy", v["energy"], wz, 1e-10)
            # vorticity of rigid rotation, to discretisation error
            want = 2 * 20.0 / geo.RADIUS * np.sin(p.lat)
            width = (np.pi / 2) / (ne * lines)
            t = 3e-4 if case.get("fine") else 3.0 * (0.55 * width) ** (ns - 1) + 1e-12
            d = np.max(np.abs(v["vort"] - want)) / (40.0 / geo.RADIUS)
            res.check(d < t, "vorticity", f"{where} rank {rank}: vorticity of a rigid rotation is off by {d:.3g} (allowed {t:.3g})")
            same("potential vorticity", v["pv"], (v["vort"] + p.f) / h, 1e-11)
            area = 4 * np.pi * geo.RADIUS**2
            t = 1e-8 if case.get("fine") else 2.0 * (0.45 * width) ** (2 * ns) + 1e-12
            for val, ex, nm in zip(v["integrals"], (1.0, 1.0 / 3.0, 0.0, 0.0), ("1", "sin^2(lat)", "x", "z")):
                d = abs(val / area - ex)
                res.check(d < t, "integrals", f"{where} rank {rank}: integral of {nm} off by {d:.3g} of the sphere (allowed {t:.3g})")
        else:
            nv = case["nv"]
            p = geo.interior(rank, lines, ne, ns, rot)
            up = lambda x: np.broadcast_to(np.tile(x, ns)[None], v["shape"])
            if v["shape"] != (nv, ne, ne, ns**3):
                res.bad("layout", f"{where}: tile has shape {v['shape']}")
                return res
            same("positions", pointing(v["lon"], v["lat"]), np.stack([up(p.p[i]) for i in range(3)]))
            eta = geo.element_points(0.0, 1.0, nv, ns)
            eta = np.broadcast_to(np.repeat(eta, ns * ns, axis=1)[:, None, None, :], v["shape"])
            floor = up(v["floor"])
            zeta = (ztop - floor) / (2.0 * nv)
            same("heights", v["z"], floor + eta * (ztop - floor))
            same("vertical spacing", v["inv_dzdeta_new"], 1.0 / zeta, 1e-10)
            R = v["R"] + (v["z"] if v["deep"] else 0.0)
            res.check(v["deep"] == (case["depth"] == "deep"), "depth", f"{where}: deep={v['deep']}")
            fac = R / geo.RADIUS
            same("volume element", v["sqrtG_new"], up(p.sqrtG) * fac**2 * zeta, 1e-10)
            same("volume element", v["inv_sqrtG_new"], 1.0 / v["sqrtG_new"])
            hc, hk = v["h_contra_new"], v["h_cov_new"]
            for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
                same("contravariant metric", hc[i, j], up(p.contra[i, j]) / fac**2, 1e-10)
            ident = np.einsum("ij...,jk...->ik...", hk, hc)
            sc = np.sqrt(np.stack([hk[i, i] for i in range(3)]))
            ident = ident / sc[:, None] * sc[None, :]
            d = float(np.max(np.abs(ident - np.eye(3)[:, :, None, None, None, None])))
            res.check(d < 1e-9, "metric inverse", f"{where} rank {rank}: metric tensors are not inverse ({d:.3g})")
            nrm = hk / (sc[:, None] * sc[None, :])
            det = np.linalg.det(np.moveaxis(nrm, (0, 1), (-2, -1))) * np.prod(sc, axis=0) ** 2
            same("volume element", v["sqrtG_new"], np.sqrt(det), 1e-9)
            same("vertical metric", hk[2, 2], zeta**2, 1e-9)
            # winds: horizontal ones from the first two components, vertical one includes the slope of the levels
            a, b, c = (noise(v["shape"], rank + 100 * k) for k in range(3))
            e1 = [np.stack([up(p.e[k][i]) for i in range(3)]) * fac for k in range(2)]
            east = np.stack([up(p.east[i]) for i in range(3)])
            north = np.stack([up(p.north[i]) for i in range(3)])
            slope = [hk[0, 2] / zeta, hk[1, 2] / zeta]

            def wind(x, y, q):
                V = x * e1[0] + y * e1[1]
                return np.stack([(V * east).sum(0), (V * north).sum(0), x * slope[0] + y * slope[1] + q * zeta])

            got = np.stack(v["winds"])
            want = wind(a * 1e-4, b * 1e-4, c * 1e-3)
            for k, nm in enumerate(("eastward", "northward", "upward")):
                same("winds from components", got[k], want[k], 1e-9, nm)
            inp = np.stack([a * 10.0, b * 10.0, c * 2.0])
            back = np.stack(wind(*v["comps"]))
            tag = ""
            if max(rel(back[k], inp[k]) for k in range(3)) > 1e-9:
                # recorded finding: over topography the vertical wind is converted as if it were normal to the levels
                G2 = np.stack([np.stack([(e1[i] * e1[j]).sum(0) for j in range(2)]) for i in range(2)])
                hi = np.moveaxis(np.linalg.inv(np.moveaxis(G2, (0, 1), (-2, -1))), (-2, -1), (0, 1))
                V = inp[0] * east + inp[1] * north
                low = np.stack([(V * e1[i]).sum(0) for i in range(2)])
                w3 = inp[2] * zeta
                rec = [hi[i, 0] * low[0] + hi[i, 1] * low[1] + hc[i, 2] * w3 for i in range(2)] + [hc[2, 2] * w3]
                if max(rel(x, y) for x, y in zip(v["comps"], rec)) < 1e-9:
                    tag = " over topography: vertical wind taken normal to the levels"
            for k in range(3):
                same("components from winds" + tag, back[k], inp[k], 1e-9)
            d = rel(np.stack(v["roundtrip"]), np.stack([a, b, c]))
            res.check(tag != "" or d < 1e-8, "wind round trip", f"{where} rank {rank}: wind round trip differs by {d:.3g}")
            # rotation terms (flat ground)
            if np.max(np.abs(v["floor"])) == 0.0:
                e3 = np.stack([up(p.p[i]) for i in range(3)]) * zeta
                E = np.stack(e1 + [e3])
                G = np.einsum("ia...,ja...->ij...", E, E)
                D = np.einsum("ij...,ja...->ia...", np.moveaxis(np.linalg.inv(np.moveaxis(G, (0, 1), (-2, -1))), (-2, -1), (0, 1)), E)
                size = np.sqrt(np.array([G[i, i].max() for i in range(3)]))
                Om = np.zeros_like(e3)
                Om[2] = v["omega"]
                for j in range(3):
                    X = np.cross(Om, E[j], axis=0)
                    for i in range(3):
                        d = np.max(np.abs(v["christoffel"][i, j] - (X * D[i]).sum(0))) * size[i] / size[j]
                        res.check(d <= 1e-10 * max(v["omega"], 1e-12), "rotation terms",
                                  f"{where} rank {rank}: rotation term {i+1}0{j+1} differs by {d:.3g}")
    res.states += n
    res.transitions += len(r.trace)
    res.sample = {"case": case}
    return res
