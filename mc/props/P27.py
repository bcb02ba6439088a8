"""Block diagnostics: the numbers printed are the global integrals, extremes and errors of the states they are printed for."""
import itertools
import os
import re

import numpy as np

from .. import geo, repoenv, sim
from ..common import Result
from ..world import execute
from .P21 import lagrange_diff
from .P23 import shallow

LEVEL = "model_checking"
RULE = (
    "one evaluation = one number printed in one block of diagnostics of one history (first state, then every sequence of "
    "states and step numbers of the depth given), compared with the integral, extreme or error norm of the global state "
    "given to it; distinct by (problem, process count, orientation, resolution, frequency, first step, history, number)"
)
ASSUMPTIONS = [
    "changes are relative to the first block that this run printed (a restarted run starts a new reference)",
    "numbers are compared to the digits that are printed",
]
CASE_TIMEOUT = 300
ANGLES = [(0.0, 0.0, 0.0), (0.3, 0.5, 0.2), (-1.2, -0.7, 0.9)]
KINDS = ["same", "deep", "one", "fast"]


def bounds(tier):
    return {
        "process counts": [1, 6, 24, 54] if tier == "quick" else [1, 6, 24, 54, 96],
        "problems": "shallow water 2, 5, 6; Cartesian 1, 2, 3; Euler on the sphere 31 (prints none)",
        "orientations": ANGLES,
        "histories": "the states of a run; all sequences of up to 2 (thorough: 3) of 4 kinds of states; frequency 1-3; first step 0-3",
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


def vary(kind, Q, rank, n):
    Q = np.array(Q)
    if kind == "deep":
        Q[0] *= 1.05 + 0.02 * np.sin(np.arange(Q[0].size).reshape(Q[0].shape) + rank)
    elif kind == "one":
        if rank == n - 1:
            Q[0] *= 1.3
            Q[1] *= -2.0
    elif kind == "fast":
        Q[1] = 1.5 * Q[1] + 1e-6 * (rank + 1) * Q[0]
        Q[2] = 0.5 * Q[2] - 2e-6 * Q[0]
    return Q


BASE = {"sw": sim.SW, "cart": sim.BUBBLE, "euler": sim.EULER}


def go(rank, case):
    o = dict(case["o"])
    base = BASE[case["eq"]]
    if case["start"]:
        s = sim.make(base, **dict(o, stat_freq=0, save_state_freq=case["start"], t_end=case["start"] * o["dt"]))
        while s.step_id < case["start"]:
            s.step()
        o["starting_step"] = case["start"]
    print("@begin", flush=True)
    s = sim.make(base, **o)
    states = [(s.step_id, np.array(s.Q))]
    if case["hist"] == "run":
        more = True
        while more:
            before = s.step_id
            more = s.step()
            if s.step_id != before:
                states.append((s.step_id, np.array(s.Q)))
    else:
        k = s.step_id
        for kind, inc in case["hist"]:
            k += inc
            q = vary(kind, s.Q, rank, case["n"])
            keep = q.copy()
            s.output.step(q, k)
            if not np.array_equal(q, keep):
                raise AssertionError("the diagnostics changed the state")
            states.append((k, keep))
    print("@end", flush=True)
    g = s.geometry
    return {"states": states, "angles": (float(s.config.lambda0), float(s.config.phi0), float(s.config.alpha0)) if case["eq"] == "sw" else None}


def sw(c, ne, ns, ang, freq, **k):
    o = dict(case_number=c, num_elements_horizontal=ne, num_solpts=ns, lambda0=ang[0], phi0=ang[1], alpha0=ang[2],
             stat_freq=freq, dt=300.0, t_end=1000.0)
    if c == 9:
        o.update(matsuno_wave_type="EIG", matsuno_amp=0.1)
    o.update(k)
    return o


def cases(tier, seed):
    thorough = tier == "thorough"
    pol = ["all", "desc", "asc", ("last", 0)]
    k = 0
    grids = [(6, 2, 3), (6, 1, 4), (24, 4, 2), (54, 6, 2)] + ([(24, 6, 3), (96, 8, 2), (6, 5, 4)] if thorough else [])
    for ang in ANGLES:
        for c in (2, 5, 6):
            for n, ne, ns in grids:
                if n > 24 and not thorough and (k % 3):
                    k += 1
                    continue
                yield {"eq": "sw", "n": n, "policy": pol[k % 4], "o": sw(c, ne, ns, ang, 1 + k % 3), "start": 0, "hist": "run"}
                k += 1
    depth = 3 if thorough else 2
    incs = (1, 2)
    for c in (2, 5, 6):
        for d in range(1, depth + 1):
            for kinds in itertools.product(KINDS, repeat=d):
                k += 1
                hist = [[x, incs[(k + j) % 2]] for j, x in enumerate(kinds)]
                yield {"eq": "sw", "n": 24 if k % 5 == 0 else 6, "policy": pol[k % 4],
                       "o": sw(c, 2 * (1 + (k % 5 == 0)), 2 + k % 2, ANGLES[k % 3], 1 + (k % 7 == 0)), "start": 0, "hist": hist}
    for c in (2, 5, 6):
        for start in (1, 2, 3):
            for freq in (1, 2):
                k += 1
                yield {"eq": "sw", "n": 6, "policy": pol[k % 4], "o": sw(c, 2, 3, ANGLES[k % 3], freq), "start": start,
                       "hist": "run" if k % 2 else [["one", 1], ["deep", 1]]}
    cart = dict(num_elements_horizontal=3, num_elements_vertical=4, num_solpts=3, dt=0.5, t_end=1.7)
    for c in (1, 2, 3):
        for freq in (1, 2):
            for start in (0, 2):
                yield {"eq": "cart", "n": 1, "policy": "all", "o": dict(cart, case_number=c, stat_freq=freq), "start": start, "hist": "run"}
        for kinds in itertools.product(KINDS, repeat=2):
            yield {"eq": "cart", "n": 1, "policy": "all", "o": dict(cart, case_number=c, stat_freq=1), "start": 0, "hist": [[x, 1] for x in kinds]}
    yield {"eq": "euler", "n": 6, "policy": "all", "o": dict(case_number=31, stat_freq=1, num_elements_horizontal=2, num_elements_vertical=1,
                                                            dt=0.5, t_end=1.0), "start": 0, "hist": "run"}


NUM = r"([-+0-9.eE]+|nan|inf|-inf)"


def parse(text):
    """Blocks of [step, {name: value}] in the order printed; totals are printed before the first block"""
    blocks, pending = [], {}
    for line in text.splitlines():
        m = re.search(r"Blockstats for timestep\s+(-?\d+)", line)
        if m:
            blocks.append([int(m[1]), pending])
            pending = {}
            continue
        m = re.search(rf"Integral of (\w+) = {NUM}\s*$", line)
        if m:
            pending[f"total {m[1]}"] = float(m[2])
        m = re.search(rf"normalized error for (\w+) = {NUM}\s*$", line)
        if m and blocks:
            blocks[-1][1][f"change {m[1]}"] = float(m[2])
        m = re.search(rf"l1 = {NUM}\s+l2 = {NUM}\s+linf = {NUM}", line)
        if m and blocks:
            blocks[-1][1].update({"l1": float(m[1]), "l2": float(m[2]), "linf": float(m[3])})
        m = re.match(rf"\s*(ρ|u|w|θ)\s+{NUM}\s+{NUM}\s+{NUM}\s*$", line)
        if m and blocks:
            for name, v in zip(("min", "max", "mean"), m.groups()[1:]):
                blocks[-1][1][f"{m[1]} {name}"] = float(v)
    return blocks, pending


def run_case(case):
    res = Result()
    n, o, eq = case["n"], case["o"], case["eq"]
    r = execute(n, go, (case,), policy=tuple(case["policy"]) if isinstance(case["policy"], list) else case["policy"],
                opts={"stdout": os.path.abspath("out.{rank}")}, timeout=280)
    where = f"{eq} {o} from step {case['start']}, {case['hist']}, on {n} processes"
    if not r.ok:
        res.bad("run failed", f"{where}: {r.problem()}")
        return res
    V = r.values
    if case["start"] and V[0]["states"][0][0] != case["start"]:
        res.bad("run failed", f"{where}: did not restart")
        return res
    out = []
    for rank in range(n):
        t = open(f"out.{rank}", errors="replace").read()
        t = t[t.rindex("@begin"):t.rindex("@end")]
        out.append(parse(t))
    for rank in range(1, n):
        res.check(not out[rank][0] and not out[rank][1], "who prints", f"{where}: rank {rank} prints diagnostics too")
    blocks, rest = out[0]
    res.check(not rest, "order", f"{where}: totals without a block: {rest}")
    hist = [h[0] for h in V[0]["states"]]
    f = o["stat_freq"]
    if eq == "euler":
        res.check(not blocks, "blocks", f"{where}: {blocks}")
        return res
    due = [j for j, step in enumerate(hist) if step % f == 0]
    if [b[0] for b in blocks] != [hist[j] for j in due]:
        res.bad("steps", f"{where}: diagnostics for steps {[b[0] for b in blocks]} instead of {[hist[j] for j in due]}")
        return res
    first = None
    for (step, got), j in zip(blocks, due):
        want, tol = {}, {}
        Qs = [V[k]["states"][j][1] for k in range(n)]
        if eq == "cart":
            q = Qs[0]
            for name, x in (("ρ", q[0]), ("u", q[1]), ("w", q[2]), ("θ", q[3])):
                x = x if name == "ρ" else x / q[0]
                for key, y in (("min", x.min()), ("max", x.max()), ("mean", x.mean())):
                    want[f"{name} {key}"] = float(y)
                    tol[f"{name} {key}"] = 0.00501 * 10.0 ** np.floor(np.log10(abs(y))) if y else 0.0
                    tol[f"{name} {key}"] = tol[f"{name} {key}"] + 1e-13 * np.abs(x).max()
        else:
            lines = int(round((n / 6) ** 0.5))
            net, ns = o["num_elements_horizontal"], o["num_solpts"]
            ne = net // lines
            D = lagrange_diff(ns)
            w1 = np.polynomial.legendre.leggauss(ns)[1]
            w = np.outer(w1, w1).ravel()
            c = o["case_number"]
            tot = {"mass": 0.0, "energy": 0.0, "enstrophy": 0.0}
            e1 = e2 = a1 = a2 = 0.0
            emax = amax = -np.inf
            rot = geo.rotation(*V[0]["angles"])
            for k, Q in enumerate(Qs):
                p = geo.interior(k, lines, ne, ns, rot)
                h = Q[0]
                u1, u2 = Q[1] / h, Q[2] / h
                u, v, ha, hs = shallow(c, o, p.lon, p.lat)
                cv = [(p.cov[i, 0] * u1 + p.cov[i, 1] * u2).reshape(ne, ne, ns, ns) for i in range(2)]
                rv = (np.einsum("ab,jicb->jica", D, cv[1]) - np.einsum("ab,jibc->jiac", D, cv[0])).reshape(h.shape) / p.sqrtG
                east, north = p.wind(u1, u2)
                integral = lambda x: float((x * p.sqrtG * w).sum())
                tot["mass"] += integral(h)
                tot["energy"] += integral(0.5 * h * (east**2 + north**2) + 0.5 * geo.GRAVITY * ((h + hs) ** 2 - hs**2))
                tot["enstrophy"] += integral((rv + p.f) ** 2 / (2 * h))
                e1 += integral(np.abs(h - ha))
                a1 += integral(np.abs(ha))
                e2 += integral((h - ha) ** 2)
                a2 += integral(ha**2)
                emax, amax = max(emax, np.abs(h - ha).max()), max(amax, ha.max())
            if first is None:
                first = tot
                want.update({f"total {k}": v for k, v in tot.items()})
                tol.update({f"total {k}": 1e-10 * abs(v) for k, v in tot.items()})
            want.update({f"change {k}": (tot[k] - first[k]) / first[k] for k in tot})
            tol.update({f"change {k}": 1e-9 * abs(want[f"change {k}"]) + 2e-11 for k in tot})
            if c in (2, 10):
                want.update({"l1": e1 / a1, "l2": np.sqrt(e2 / a2), "linf": emax / amax})
                tol.update({k: 1e-9 * want[k] + 1e-11 for k in ("l1", "l2", "linf")})
        if set(want) != set(got):
            res.bad("numbers", f"{where}: step {step} prints {sorted(got)} instead of {sorted(want)}")
            continue
        for key in want:
            res.check(abs(got[key] - want[key]) <= tol[key], key,
                      lambda: f"{where}: {key} at step {step} is {got[key]!r} instead of {want[key]!r}")
    res.states += len(hist)
    res.transitions += len(r.trace)
    res.sample = {"case": case, "steps": hist, "blocks": [b[0] for b in blocks]}
    return res
