"""Solution file: every record holds the state of its step, at the right grid point of the right panel, in the declared
quantities, for every number of processes."""
import itertools
import os
import re

import numpy as np

from .. import geo, repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
RULE = (
    "one evaluation = one variable of one record (or one coordinate variable) of one solution file, compared point by "
    "point with what follows from the states of all processes and the geometry of the sphere; distinct by (problem, "
    "process count, orientation, resolution, frequency, record, variable)"
)
ASSUMPTIONS = ["the file is read back with the same netCDF library that wrote it"]
CASE_TIMEOUT = 300
ANGLES = [(0.0, 0.0, 0.0), (0.3, 0.5, 0.2), (-1.2, -0.7, 0.9)]
RD, CPD, P0 = 287.05, 1005.46, 100000.0


def bounds(tier):
    return {
        "process counts": [6, 24, 54],
        "problems": "shallow water 2, 5, 6; Euler 21, 22, 31, 77",
        "orientations": ANGLES,
        "elements per side, points": "1-6, 2-4",
        "frequency, steps": "1-3, 0-4, shorter last step; restarted at step 1, 2 or 3",
        "schedules": "all at once, ascending, descending, late messages",
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


def go(rank, eq, o):
    s = sim.make(sim.SW if eq == "sw" else sim.EULER, **o)
    out = {"angles": (float(s.config.lambda0), float(s.config.phi0), float(s.config.alpha0))}
    states = {s.step_id: np.array(s.Q)}
    if eq == "euler":
        g = s.geometry
        out.update(R=float(g.earth_radius), deep=bool(g.deep), z=np.array(g.polar[2]), floor=np.array(g.z_floor),
                   slope=np.array(s.metric.h_cov_new[:2, 2]), zeta=1.0 / np.array(s.metric.inv_dzdeta_new))
    more = True
    while more:
        before = s.step_id
        more = s.step()
        if s.step_id != before:
            states[s.step_id] = np.array(s.Q)
    s.output.finalize(0.0)
    out["states"] = states
    return out


def cases(tier, seed):
    tag = 0
    pol = ["all", "desc", "asc", ("last", 0)]
    sw = []
    for ang in ANGLES:
        for c in (2, 5, 6):
            for n, ne, ns in ((6, 2, 3), (6, 1, 4), (24, 4, 2), (54, 6, 2)):
                sw.append((ang, c, n, ne, ns))
    if tier == "thorough":
        sw += [(a, c, n, ne, ns) for a in ANGLES for c in (2, 5, 6) for n, ne, ns in ((24, 4, 4), (24, 6, 3), (54, 6, 4), (96, 8, 2), (6, 5, 5))]
    for k, (ang, c, n, ne, ns) in enumerate(sw):
        f = 1 + k % 3
        yield {"eq": "sw", "n": n, "policy": pol[k % 4], "late": k % 2 == 1, "o": dict(
            case_number=c, num_elements_horizontal=ne, num_solpts=ns, lambda0=ang[0], phi0=ang[1], alpha0=ang[2],
            output_freq=f, dt=300.0, t_end=[900.0, 1050.0, 1200.0][k % 3])}
    # no step at all; one short step; frequency larger than the run
    for f, te in ((1, 0.0), (1, 100.0), (3, 600.0), (4, 300.0)):
        yield {"eq": "sw", "n": 6, "policy": "all", "late": False, "o": dict(
            case_number=6, num_elements_horizontal=2, num_solpts=2, output_freq=f, dt=300.0, t_end=te)}
    # restarted from the saved state of a step, with frequencies that divide it or not
    for k, (start, f) in enumerate(itertools.product((1, 2, 3), (1, 2, 3))):
        yield {"eq": "sw", "n": (6, 24)[k % 2], "policy": pol[k % 4], "late": False, "start": start, "o": dict(
            case_number=(2, 5, 6)[k % 3], num_elements_horizontal=4, num_solpts=2, output_freq=f, dt=300.0, t_end=1350.0)}
    for start, f in ((1, 2), (2, 1)):
        yield {"eq": "euler", "n": 6, "policy": "all", "late": False, "start": start, "o": dict(
            case_number=31, num_elements_horizontal=2, num_solpts=2, num_elements_vertical=1, output_freq=f, dt=0.5, t_end=2.0)}
    eu = []
    for k, ang in enumerate(ANGLES):
        for c in (21, 22, 31, 77):
            for n, ne, ns, nv in ((6, 2, 2, 2), (6, 1, 3, 1), (24, 4, 2, 2), (54, 6, 2, 1)):
                if tier == "thorough" or n == 6 or (c + k) % 2 == 0:
                    eu.append((ang, c, n, ne, ns, nv))
    for k, (ang, c, n, ne, ns, nv) in enumerate(eu):
        yield {"eq": "euler", "n": n, "policy": pol[k % 4], "late": k % 2 == 1, "o": dict(
            case_number=c, num_elements_horizontal=ne, num_solpts=ns, num_elements_vertical=nv, lambda0=ang[0], phi0=ang[1],
            alpha0=ang[2], output_freq=1 + k % 2, dt=0.5, t_end=1.0, depth_approx=("shallow", "deep")[(k // 4) % 2])}


def block2(x, ne, ns):
    """(..., ne, ne, ns*ns) -> (..., ne*ns, ne*ns)"""
    lead = x.shape[:-3]
    x = x.reshape(lead + (ne, ne, ns, ns))
    return np.moveaxis(x, -2, -3).reshape(lead + (ne * ns, ne * ns))


def block3(x, ne, ns):
    """(nv, ne, ne, ns^3) -> (nv*ns, ne*ns, ne*ns)"""
    nv = x.shape[0]
    x = x.reshape(nv, ne, ne, ns, ns, ns)
    return x.transpose(0, 3, 1, 4, 2, 5).reshape(nv * ns, ne * ns, ne * ns)


def place(blocks, lines):
    """Tiles of all processes in the panels."""
    b = blocks[0]
    nj, ni = b.shape[-2:]
    out = np.full((6,) + b.shape[:-2] + (nj * lines, ni * lines), np.nan)
    for r, x in enumerate(blocks):
        panel, k = divmod(r, lines * lines)
        row, col = divmod(k, lines)
        out[(panel, Ellipsis, slice(row * nj, (row + 1) * nj), slice(col * ni, (col + 1) * ni))] = x
    return out


def lagrange_diff(ns):
    x = geo.gauss(ns)
    D = np.zeros((ns, ns))
    for j in range(ns):
        c = np.zeros(ns)
        c[j] = 1.0
        D[:, j] = np.polyval(np.polyder(np.polyfit(x, c, ns - 1)), x) if ns > 1 else 0.0
    return D


def mountain5(lon, lat):
    d = np.minimum(np.abs(lon - 1.5 * np.pi), 2 * np.pi - np.abs(lon - 1.5 * np.pi))
    r = np.sqrt(np.minimum((np.pi / 9) ** 2, d**2 + (lat - np.pi / 6) ** 2))
    return 2000.0 * (1.0 - r / (np.pi / 9))


def run_case(case):
    import netCDF4

    res = Result()
    n, o, eq = case["n"], case["o"], case["eq"]
    lines = int(round((n / 6) ** 0.5))
    net, ns = o["num_elements_horizontal"], o["num_solpts"]
    ne = net // lines
    where = f"{eq} {o} on {n} processes"
    if case.get("start"):
        first = dict(o, save_state_freq=1, t_end=case["start"] * o["dt"])
        r = execute(n, go, (eq, first), timeout=280)
        if not r.ok:
            res.bad("run failed", f"{where}, first part: {r.problem()}")
            return res
        o = dict(o, starting_step=case["start"])
        where += f" from step {case['start']}"
    r = execute(n, go, (eq, o), policy=tuple(case["policy"]) if isinstance(case["policy"], list) else case["policy"],
                opts={"late_send": case["late"], "late_recv": case["late"]}, timeout=280)
    if not r.ok:
        res.bad("run failed", f"{where}: {r.problem()}")
        return res
    files = [f for f in os.listdir("results") if f.endswith(".nc")]
    if len(files) != 1:
        res.bad("files", f"{where}: solution files {files}")
        return res
    V = r.values
    rot = geo.rotation(*V[0]["angles"])
    pts = [geo.interior(k, lines, ne, ns, rot) for k in range(n)]
    f = o["output_freq"]
    steps = [k for k in sorted(V[0]["states"]) if k % f == 0]
    if case.get("start"):
        res.check(min(V[0]["states"]) == case["start"], "start", f"{where}: starts at step {min(V[0]['states'])}")
    times = [min(k * o["dt"], o["t_end"]) for k in steps]
    with netCDF4.Dataset(os.path.join("results", files[0])) as nc:
        def get(name):
            a = np.ma.filled(np.ma.masked_invalid(nc[name][...]), np.nan) if nc[name].dtype.kind == "f" else nc[name][...]
            return np.asarray(a)

        def same(name, got, want, tol=1e-11, scale=None):
            if got.shape != want.shape:
                res.bad(name, f"{where}: {name} has shape {got.shape} instead of {want.shape}")
                return
            s = scale if scale is not None else np.max(np.abs(want)) or 1.0
            d = np.abs(got - want)
            d = np.where(np.isfinite(d), d, np.inf)
            k = np.unravel_index(np.argmax(d), d.shape) if d.size else None
            res.check(d.size and d[k] <= tol * s, name,
                      lambda: f"{where}: {name} at {tuple(int(i) for i in k)} is {got[k]} instead of {want[k]}")

        missing = [x for x in ("time", "lats", "lons", "Xdim", "Ydim", "npe") if x not in nc.variables]
        if missing:
            res.bad("variables", f"{where}: no {missing}")
            return res
        t = get("time")
        unit = nc["time"].units.split()[0].lower()
        per = {"s": 1.0, "sec": 1.0, "second": 1.0, "seconds": 1.0, "minutes": 60.0, "hours": 3600.0, "days": 86400.0}.get(unit)
        res.check(per is not None and t.shape == (len(times),) and np.allclose(t * per, times, rtol=1e-13, atol=1e-9), "time",
                  f"{where}: times {list(t)} {unit} instead of {times} s")
        same("npe", get("npe").astype(float), np.arange(6.0))
        x = geo.element_points(-np.pi / 4, np.pi / 4, net, ns).ravel()
        same("Xdim", get("Xdim"), x)
        same("Ydim", get("Ydim"), x)
        lat = place([block2(p.lat, ne, ns) for p in pts], lines)
        lon = place([block2(p.lon, ne, ns) for p in pts], lines)
        pt = lambda la, lo: np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
        same("lats, lons", pt(np.deg2rad(get("lats")), np.deg2rad(get("lons"))), pt(lat, lon), 1e-11)
        same("lats", get("lats"), np.rad2deg(lat), 1e-8)
        names = ("h", "U", "V", "RV", "PV") if eq == "sw" else ("rho", "U", "V", "W", "theta", "P", "elev", "topo")
        missing = [x for x in names if x not in nc.variables]
        if missing:
            res.bad("variables", f"{where}: no {missing}")
            return res
        data = {k: get(k) for k in names}
        for k in names:
            if k not in ("elev", "topo"):
                res.check(data[k].shape[0] == len(steps), "records", f"{where}: {k} has {data[k].shape[0]} records instead of {len(steps)}")
        if any(data[k].shape[0] != len(steps) for k in names if k not in ("elev", "topo")):
            return res
        D = lagrange_diff(ns)
        for idx, step in enumerate(steps):
            want = {k: [] for k in names}
            for rank in range(n):
                p, Q = pts[rank], V[rank]["states"][step]
                if eq == "sw":
                    h = Q[0]
                    u1, u2 = Q[1] / h, Q[2] / h
                    hs = mountain5(p.lon, p.lat) if o["case_number"] == 5 else 0.0
                    u, v = p.wind(u1, u2)
                    c = [(p.cov[i, 0] * u1 + p.cov[i, 1] * u2).reshape(ne, ne, ns, ns) for i in range(2)]
                    rv = (np.einsum("ab,jicb->jica", D, c[1]) - np.einsum("ab,jibc->jiac", D, c[0])).reshape(h.shape) / p.sqrtG
                    got = {"h": h + hs, "U": u, "V": v, "RV": rv, "PV": (rv + p.f) / h}
                    for k in names:
                        want[k].append(block2(got[k], ne, ns))
                else:
                    v_ = V[rank]
                    up = lambda x: np.broadcast_to(np.tile(x, ns)[None], Q[0].shape)
                    rho = Q[0]
                    fac = (v_["R"] + (v_["z"] if v_["deep"] else 0.0)) / geo.RADIUS
                    u1, u2, u3 = Q[1] / rho, Q[2] / rho, Q[3] / rho
                    VV = [u1 * up(p.e[0][i]) * fac + u2 * up(p.e[1][i]) * fac for i in range(3)]
                    east = [up(p.east[i]) for i in range(3)]
                    north = [up(p.north[i]) for i in range(3)]
                    got = {
                        "rho": rho, "theta": Q[4] / rho, "P": P0 * (Q[4] * RD / P0) ** (CPD / (CPD - RD)),
                        "U": sum(a * b for a, b in zip(VV, east)), "V": sum(a * b for a, b in zip(VV, north)),
                        "W": (u1 * v_["slope"][0] + u2 * v_["slope"][1]) / v_["zeta"] + u3 * v_["zeta"],
                    }
                    for k in got:
                        want[k].append(block3(got[k], ne, ns))
                    want["elev"].append(block3(v_["z"], ne, ns))
                    want["topo"].append(block2(v_["floor"], ne, ns))
            full = {k: place(want[k], lines) for k in names}
            wind = max(np.max(np.abs(full["U"])), np.max(np.abs(full["V"])))
            ok = np.abs(lat) < np.pi / 2 - 1e-6
            for k in names:
                w = full[k]
                g = data[k] if k in ("elev", "topo") else data[k][idx]
                if g.shape == w.shape and k in ("U", "V"):
                    m = ok if eq == "sw" else np.broadcast_to(ok[:, None], w.shape)
                    g, w = np.where(m, g, 0.0), np.where(m, w, 0.0)
                tol, sc = 1e-9, None
                if k in ("U", "V", "W"):
                    sc = wind + 1e-3
                if k == "RV":
                    sc = np.max(np.abs(w)) + 1e-6
                same(k, g, w, tol, sc)
        if eq == "euler":
            res.check("elev" in data, "variables", "")
    res.states += len(steps)
    res.transitions += len(r.trace)
    res.sample = {"case": case, "steps": steps, "times": times}
    return res
