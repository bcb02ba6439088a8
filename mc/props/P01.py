"""Halo exchange: all process counts, edges, layouts, wait orders, delivery timings; oracle is 3-D geometry."""
import functools
import itertools

import numpy as np

from .. import cube, repoenv
from ..common import Result
from ..world import execute, explore

LEVEL = "model_checking"
JOBS = 8
RULE = (
    "one evaluation = one received edge array of one rank compared point by point with what the tile across the edge "
    "sent (found by position on the sphere); distinct by (process count, layout, kind, wait order, delivery timing, "
    "schedule, rank, edge)"
)
ASSUMPTIONS = [
    "MPI model delivers non-blocking data as early or as late as the standard allows and reads send buffers as early or late as allowed; validated against Open MPI",
    "conversion is linear in the vector components: two basis fields plus one generic field decide it at every point",
]

#  name -> (data shape without points, boundary shape fn, flip_dim, vertical repeat)
LAYOUTS = ["line", "vars", "elems", "block3d", "vars3d"]


def shapes(layout, ne, ns):
    """(data shape, boundary_shape, flip_dim, function index -> position of a data entry)"""
    if layout == "line":
        return (ne * ns,), (ne * ns,), -1
    if layout == "vars":
        return (3, ne * ns), (ne * ns,), -1
    if layout == "elems":
        return (ne, ns), (ne * ns,), -1
    if layout == "block3d":
        return (2, ne, ns * ns), (ne, ns, ns), (-3, -1)
    if layout == "vars3d":
        return (2, 3, ne, ns * ns), (ne, ns, ns), (-3, -1)
    raise AssertionError


def point_index(layout, ne, ns):
    """For each entry of a data array: (index of the point along the edge, index of everything else)."""
    sh, _, _ = shapes(layout, ne, ns)
    idx = np.indices(sh)
    if layout in ("line", "vars"):
        pt = idx[-1]
    elif layout == "elems":
        pt = idx[-2] * ns + idx[-1]
    else:
        pt = idx[-2] * ns + idx[-1] % ns
    other = np.zeros(sh, dtype=int)
    if layout == "vars":
        other = idx[0]
    elif layout == "block3d":
        other = idx[0] * ns + idx[-1] // ns
    elif layout == "vars3d":
        other = (idx[0] * 3 + idx[1]) * ns + idx[-1] // ns
    return pt, other


def field(rank, d, pt, other, comp, kind):
    """Distinct value for every rank / edge / point / level / component."""
    if kind == "e1":
        return np.where(comp == 0, 1.0, 0.0) + 0.0 * pt
    if kind == "e2":
        return np.where(comp == 1, 1.0, 0.0) + 0.0 * pt
    base = ((rank * 4 + d) * 64 + pt) * 32 + other
    return (base * 3.0 + comp + 1.0) / 7.0


def stored(a, memory):
    """The same array, laid out otherwise in memory"""
    if memory == "F":
        return np.asfortranarray(a)
    if memory == "stride":
        big = np.full(a.shape + (2,), -999.0, dtype=a.dtype)
        big[..., 1] = a
        return big[..., 1]
    if memory == "swap" and a.ndim > 1:
        return np.ascontiguousarray(np.moveaxis(a, 0, -1)).transpose((a.ndim - 1,) + tuple(range(a.ndim - 1)))
    if memory == "back":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    return a


def driver(rank, spec):
    """Start the exchanges of the program, scribble over the inputs, wait in the given order; possibly two rounds."""
    from mpi4py import MPI
    from device import CpuDevice
    from process_topology import ProcessTopology

    comm = MPI.COMM_WORLD
    dev = CpuDevice.get_default()
    topo = ProcessTopology(dev, comm=comm)
    lines, ne, ns, layout = spec["lines"], spec["ne"], spec["ns"], spec["layout"]
    dtype = np.dtype(spec["dtype"])
    t = cube.Tile(rank, lines)
    sh, bsh, flip = shapes(layout, ne, ns)
    pt, other = point_index(layout, ne, ns)
    b1 = np.tan(t.line(*t.x1, ne, ns))
    b2 = np.tan(t.line(*t.x2, ne, ns))
    if len(bsh) == 3:
        b1 = np.tile(b1.reshape(ne, ns), ns).reshape(bsh)
        b2 = np.tile(b2.reshape(ne, ns), ns).reshape(bsh)
    unit = 1.0 + 0.5j if dtype.kind == "c" else 1.0
    out = []
    for rnd in range(spec.get("rounds", 1)):
        reqs = []
        keep = []
        for num, (kind, ncomp, data_kind) in enumerate(spec["program"]):
            # every exchange in flight carries other values
            shift = rnd * 1000.0 + (num * 77777.0 if data_kind == "g" else 0.0)
            arrs = []
            for d in range(4):
                comps = [
                    stored(((field(rank, d, pt, other, c, data_kind) + shift) * unit).astype(dtype), spec.get("memory", "C"))
                    for c in range(max(ncomp, 1))
                ]
                arrs.append(comps)
            if kind == "scalar":
                req = topo.start_exchange_scalars(
                    arrs[0][0], arrs[1][0], arrs[2][0], arrs[3][0], boundary_shape=bsh, flip_dim=flip
                )
            else:
                args = [tuple(a) for a in arrs] if spec.get("tuples", True) else [stored(np.stack(a), spec.get("memory", "C")) for a in arrs]
                if not spec.get("tuples", True):
                    arrs = args
                req = topo.start_exchange_vectors(
                    *args, boundary_sn=b1, boundary_we=b2, flip_dim=flip, covariant=(kind == "cov")
                )
            reqs.append(req)
            keep.append(arrs)
        for arrs in keep:
            for a in arrs:
                for c in a:
                    c[...] = -777.0
        got = [None] * len(reqs)
        for i in spec["order"]:
            res = reqs[i].wait()
            got[i] = [
                np.array(x) if spec["program"][i][0] == "scalar" else [np.array(c) for c in x] for x in res
            ]
        out.append(got)
    return out


@functools.lru_cache(None)
def matching(lines, ne, ns):
    return cube.edge_match(lines, ne, ns)


@functools.lru_cache(None)
def conversion(lines, ne, ns, covariant):
    """For every (receiving rank, edge, point): 2x2 matrix from sender components to receiver components."""
    m = {}
    for (r, d, i), (r2, d2, i2) in matching(lines, ne, ns).items():
        ta, tb = cube.Tile(r, lines), cube.Tile(r2, lines)
        x1, x2 = ta.edge(d, ne, ns)
        y1, y2 = tb.edge(d2, ne, ns)
        M = np.stack(
            [
                cube.convert(v, (tb.panel, y1[i2], y2[i2]), (ta.panel, x1[i], x2[i]), covariant)
                for v in (np.array([1.0, 0.0]), np.array([0.0, 1.0]))
            ],
            axis=-1,
        )
        m[(r, d, i)] = M
    return m


def verify(spec, values, res, tag):
    lines, ne, ns, layout = spec["lines"], spec["ne"], spec["ns"], spec["layout"]
    match = matching(lines, ne, ns)
    pt, other = point_index(layout, ne, ns)
    npts = ne * ns
    n = 6 * lines * lines
    unit = 1.0 + 0.5j if np.dtype(spec["dtype"]).kind == "c" else 1.0
    tol = 3e-5 if spec["dtype"] in ("float32",) else 1e-11
    for r in range(n):
        for rnd, got in enumerate(values[r]):
            for i, (kind, ncomp, dk) in enumerate(spec["program"]):
                for d in range(4):
                    partner = [match[(r, d, p)] for p in range(npts)]
                    pr = np.array([q[0] for q in partner])[pt]
                    pd = np.array([q[1] for q in partner])[pt]
                    pp = np.array([q[2] for q in partner])[pt]

                    def sent(c):
                        shift = rnd * 1000.0 + (i * 77777.0 if dk == "g" else 0.0)
                        return (field(pr, pd, pp, other, c, dk) + shift) * unit

                    g = got[i][d]
                    key = f"{kind} exchange"
                    where = f"rank {r} ({cube.Tile(r, lines).panel}) edge {d} {spec} {tag}"
                    if kind == "scalar":
                        want = sent(0)
                        ok = g.shape == pt.shape and np.array_equal(g, want.astype(spec["dtype"]))
                        res.check(ok, key, lambda: f"wrong values at {where}: got {g.ravel()[:6]} want {want.ravel()[:6]}")
                    else:
                        conv = conversion(lines, ne, ns, kind == "cov")
                        M = np.stack([conv[(r, d, p)] for p in range(npts)])[pt]
                        s0, s1 = sent(0), sent(1)
                        want = [M[..., 0, 0] * s0 + M[..., 0, 1] * s1, M[..., 1, 0] * s0 + M[..., 1, 1] * s1]
                        if ncomp == 3:
                            want.append(sent(2))
                        scale = max(np.max(np.abs(w)) for w in want)
                        ok = len(g) == ncomp and all(
                            a.shape == pt.shape and np.max(np.abs(a - w)) <= tol * scale for a, w in zip(g, want)
                        )
                        res.check(
                            ok, key,
                            lambda: f"wrong vector at {where}: got {[a.ravel()[:4] for a in g]} want {[w.ravel()[:4] for w in want]}",
                        )


def setup():
    repoenv.use_model_mpi()
    from device import CpuDevice
    import process_topology  # noqa

    CpuDevice.get_default()


MEMORY = ["C", "F", "stride", "swap", "back"]
PROG_A = [["scalar", 1, "g"], ["contra", 2, "g"], ["scalar", 1, "g"]]
PROG_B = [["contra", 3, "g"], ["cov", 2, "g"], ["cov", 3, "g"]]
PROG_C = [["contra", 2, "e1"], ["contra", 2, "e2"], ["cov", 2, "e1"], ["cov", 2, "e2"]]


def bounds(tier):
    return {
        "process counts": [6, 24, 54] if tier == "quick" else [6, 24, 54, 96, 150],
        "elements x points per edge": "1..3 x 1..4",
        "layouts": LAYOUTS,
        "memory of the arrays sent": "C, Fortran, strided, transposed, backwards; at least once with each layout",
        "outstanding exchanges": "1-4, every wait order of 3",
        "delivery": "send buffer read at post / as late as possible; receive buffer written at post / at wait",
        "schedules": "all, ascending, descending, each rank last (6 ranks); full interleaving exploration in thorough",
    }


def cases(tier, seed):
    orders = list(itertools.permutations(range(3)))
    timings = [(False, True), (True, True), (False, False), (True, False)]
    sizes = [(1, 2), (2, 1), (2, 3), (3, 2)] if tier == "quick" else [(a, b) for a in (1, 2, 3) for b in (1, 2, 3, 4)]
    k = 0
    for lines in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for layout in LAYOUTS:
            for ne, ns in sizes:
                for pi, prog in enumerate((PROG_A, PROG_B, PROG_C)):
                    if lines == 1:
                        combos = [(timings[j % 4], orders[(k + j) % 6], ("all", "asc", "desc")[j % 3]) for j in range(12)]
                    elif lines == 2:
                        combos = [(timings[(k + j) % 4], orders[(k + j) % 6], "all") for j in range(2)]
                    else:
                        combos = [(timings[k % 4], orders[k % 6], "all")]
                    if lines >= 3 and (ne, ns) not in ((1, 2), (2, 3)):
                        continue
                    k += 1
                    yield {
                        "lines": lines, "ne": ne, "ns": ns, "layout": layout,
                        "dtype": ["float64", "complex128", "float64"][k % 3],
                        "program": prog, "rounds": 1 + (k % 2), "tuples": bool(k % 5), "memory": MEMORY[k % 7 % 5] if k % 7 else "C",
                        "combos": [[list(t), list(o) if len(prog) == 3 else list(o) + [3], p] for t, o, p in combos],
                    }
    for layout in LAYOUTS:
        for mem in MEMORY[1:]:
            for tup in (True, False):
                yield {"lines": 1, "ne": 3, "ns": 2, "layout": layout, "dtype": "float64", "program": PROG_A[:2] + PROG_B[2:],
                       "rounds": 1, "memory": mem, "tuples": tup, "combos": [[[True, True], [2, 0, 1], "all"]]}
    # the slowest / fastest rank is each rank in turn
    for r in range(6):
        yield {
            "lines": 1, "ne": 2, "ns": 2, "layout": "elems", "dtype": "float64", "program": PROG_A, "rounds": 2,
            "combos": [[list(t), [2, 0, 1], [w, r]] for t in timings for w in ("last", "first")],
        }
    yield {"lines": 1, "ne": 2, "ns": 3, "layout": "vars3d", "dtype": "float64", "program": PROG_A + PROG_B, "rounds": 2,
           "real": True, "combos": []}
    yield {"lines": 2, "ne": 2, "ns": 2, "layout": "elems", "dtype": "complex128", "program": PROG_A + PROG_B, "rounds": 2,
           "real": True, "combos": []}
    if tier == "thorough":
        yield {"lines": 1, "ne": 1, "ns": 2, "layout": "line", "dtype": "float64", "program": PROG_A[:1], "rounds": 1,
               "explore": True, "combos": []}


def run_case(case):
    res = Result()
    n = 6 * case["lines"] ** 2
    spec = {k: case[k] for k in ("lines", "ne", "ns", "layout", "dtype", "program", "rounds")}
    spec["tuples"] = case.get("tuples", True)
    spec["memory"] = case.get("memory", "C")
    for (late_send, late_recv), order, pol in case["combos"]:
        spec["order"] = order
        pol = tuple(pol) if isinstance(pol, list) else pol
        for sync in (False, True) if n == 6 else (False,):
            r = execute(
                n, driver, (spec,), policy=pol, sync=sync, opts={"late_send": late_send, "late_recv": late_recv}
            )
            res.states += r.states
            res.transitions += len(r.trace)
            if not r.ok:
                res.bad("exchange failed", f"{r.problem()} {spec} policy={pol} sync={sync}")
                continue
            verify(spec, r.values, res, f"late_send={late_send} late_recv={late_recv} policy={pol} sync={sync}")
        if res.problems:
            break
    if case.get("real"):
        from .. import realmpi

        spec["order"] = list(range(len(spec["program"])))[::-1]
        out = realmpi.run(n, "mc.props.P01:driver", (spec,), timeout=200)
        if out is None or any(o[0] != "ok" for o in out):
            res.notes.append(f"real MPI run incomplete: {None if out is None else [o for o in out if o[0] != 'ok'][:1]}")
            if out is not None:
                res.bad("exchange failed", f"under real MPI: {[o for o in out if o[0] != 'ok'][:1]}")
        else:
            verify(spec, [o[1] for o in out], res, "real MPI")
            res.traces += n
    if case.get("explore"):
        spec["order"] = [0]

        def chk(r):
            if not r.ok:
                return r.problem()
            rr = Result()
            verify(spec, r.values, rr, "explored")
            return rr.problems[0][1] if rr.problems else None

        for sync in (False, True):
            ex = explore(n, driver, (spec,), check=chk, sync=sync, max_executions=60000,
                         opts={"late_send": True, "late_recv": True})
            res.exploration(ex, "exchange")
    res.sample = {"spec": spec, "ranks": n}
    return res
