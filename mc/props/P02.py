"""Gather / distribute between tiles and the global cube: placement, mutual inverses, collective rejection."""
import itertools

import numpy as np

from .. import repoenv, sim
from ..common import Result
from ..world import execute, explore

LEVEL = "model_checking"
RULE = (
    "one evaluation = one tile or global array produced by a gather/distribute and compared entry by entry with the "
    "placement computed from the numbering of tiles; distinct by (process count, dims, tile size, trailing shape, "
    "dtype, operation sequence, schedule)"
)
ASSUMPTIONS = [
    "placement depends on shapes and rank numbers only, not on values: every entry carries a distinct value",
    "MPI model validated against Open MPI on the same programs",
]


def bounds(tier):
    return {
        "process counts": "6, 24, 54 (96, 150 in thorough)",
        "data dims": "1-4 leading dims, 0-2 trailing dims, tile side 1-3",
        "histories": "gather; distribute; gather-distribute-gather; two fields in sequence; rejected then accepted",
        "schedules": "all / ascending / descending / ranks 0, 1, 5 last (6 ranks), buffered and synchronous; full exploration with 6 ranks in thorough",
    }


def global_array(spec):
    lines = spec["lines"]
    side = spec["tile"] * lines
    sh = [6] + spec["lead"] + [side, side] + spec["trail"]
    a = np.arange(int(np.prod(sh)), dtype=float).reshape(sh)
    if spec["dtype"] == "complex128":
        a = a * (1.0 + 2.0j)
    return a.astype(spec["dtype"])


def own_tile(spec, rank):
    g = global_array(spec)
    p, rows, cols = sim.tile_slices(rank, spec["lines"], spec["tile"], 0)
    return g[tuple([p] + [slice(None)] * len(spec["lead"]) + [rows, cols])]


def driver(rank, spec):
    from mpi4py import MPI
    from device import CpuDevice
    from process_topology import ProcessTopology

    comm = MPI.COMM_WORLD
    if spec.get("sub"):
        # only part of the processes take part; they are not numbered as in the whole world
        extra = rank >= 6 * spec["lines"] ** 2
        comm = comm.Split(int(extra), -rank)
        if extra:
            return []
        rank = comm.rank
    topo = ProcessTopology(CpuDevice.get_default(), comm=comm)
    nd = len(spec["lead"]) + 2
    out = []
    for op in spec["ops"]:
        if op == "gather":
            t = own_tile(spec, rank)
            if spec.get("noncontig"):
                t = np.asfortranarray(t)
            out.append(topo.gather_cube(np.array(t) if not spec.get("noncontig") else t, nd))
        elif op == "panel":
            out.append(topo.gather_tiles_to_panel(np.array(own_tile(spec, rank)), nd))
        elif op == "line":
            out.append(topo.gather_tiles_to_panel(1000.0 * topo.my_col + np.arange(float(spec["tile"])), 1))
        elif op == "distribute":
            g = global_array(spec) if rank == 0 else None
            out.append(topo.distribute_cube(g, nd))
        elif op == "distribute_junk":  # non-root processes pass something: must be ignored
            g = global_array(spec) if rank == 0 else np.zeros((2, 2))
            out.append(topo.distribute_cube(g, nd))
        elif op == "roundtrip":
            g = topo.gather_cube(np.array(own_tile(spec, rank)), nd)
            out.append(topo.distribute_cube(g, nd))
        elif op == "bad":
            g = np.zeros(spec["badshape"]) if rank == 0 else None
            try:
                r = topo.distribute_cube(g, spec["bad_nd"])
                out.append(("returned", None if r is None else r.shape))
            except (Exception, SystemExit) as e:
                out.append(("rejected", type(e).__name__, [c.__name__ for c in type(e).__mro__]))
        else:
            raise AssertionError(op)
    return out


def verify(spec, values, res, tag):
    g = global_array(spec)
    n = 6 * spec["lines"] ** 2
    per = spec["lines"] ** 2
    vals = values
    if spec.get("sub"):
        vals = list(values[:n])[::-1]
    for r in range(n):
        for op, v in zip(spec["ops"], vals[r]):
            where = f"rank {r} of {n} op {op} {spec} {tag}"
            if op == "gather":
                ok = (v is None) if r else (v is not None and np.array_equal(v, g) and v.dtype == g.dtype)
            elif op == "panel":
                ok = (v is None) if r % per else (v is not None and np.array_equal(v, g[r // per]))
            elif op == "line":
                want = np.concatenate([1000.0 * c + np.arange(float(spec["tile"])) for c in range(spec["lines"])])
                ok = (v is None) if r % per else (v is not None and np.array_equal(v, want))
            elif op in ("distribute", "distribute_junk", "roundtrip"):
                t = own_tile(spec, r)
                ok = v is not None and v.shape == t.shape and np.array_equal(v, t) and v.dtype == t.dtype
            else:
                ok = v[0] == "rejected" and (r != 0 or "ValueError" in v[2])
            res.check(ok, op, lambda: f"{where}: got {getattr(v, 'shape', None)} "
                      f"{np.asarray(v).ravel()[:6] if not isinstance(v, tuple) else v}")


def setup():
    repoenv.use_model_mpi()
    from device import CpuDevice
    import process_topology  # noqa

    CpuDevice.get_default()


def cases(tier, seed):
    leads = [[], [3], [2, 3]]
    trails = [[], [4], [2, 2]]
    k = 0
    for lines in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for lead, trail in itertools.product(leads, trails):
            for tile in (1, 2, 3):
                for ops in (
                    ["gather", "distribute", "roundtrip", "line"],
                    ["roundtrip", "panel", "distribute_junk", "gather"],
                    ["distribute", "distribute", "gather", "gather"],
                ):
                    if lines == 3 and (tile == 3 or k % 2) and tier == "quick":
                        k += 1
                        continue
                    k += 1
                    yield {
                        "lines": lines, "lead": lead, "trail": trail, "tile": tile, "ops": ops,
                        "dtype": ["float64", "complex128", "float32", "int64"][k % 4], "noncontig": bool(k % 3 == 0),
                        "mode": "schedules" if lines == 1 else "one",
                    }
        # rejected shapes, then an accepted one
        nd = 2
        ms = 2 * lines
        bads = [
            [[6, ms, ms + lines], 2], [[5, ms, ms], 2], [[6, ms], 2], [[6, 3, ms, ms + lines, 4], 3],
            [[6, 2, 2, ms + lines, ms], 4], [[7, ms, ms], 2],
        ]
        if lines > 1:
            bads += [[[6, ms + 1, ms + 1], 2], [[6, 3, ms - 1, ms - 1, 2], 3], [[6, 1, 1], 2]]
        for bshape, bnd in bads:
            yield {
                "lines": lines, "lead": [2], "trail": [], "tile": 2, "dtype": "float64",
                "ops": ["bad", "distribute", "gather"], "badshape": bshape, "bad_nd": bnd,
                "mode": "schedules" if lines == 1 else "one",
            }
    for lines, extra in ((1, 1), (1, 3), (2, 2)):
        yield {"lines": lines, "lead": [2], "trail": [3], "tile": 2, "dtype": "float64", "sub": extra,
               "ops": ["gather", "distribute", "roundtrip"], "mode": "one"}
    for ops in (["gather"], ["bad", "gather"], ["roundtrip"]) if tier == "thorough" else ():
        yield {"lines": 1, "lead": [], "trail": [], "tile": 1, "dtype": "float64", "ops": ops,
               "badshape": [6, 2, 3], "bad_nd": 2, "mode": "explore"}
    for lines in (1, 2):
        yield {"lines": lines, "lead": [3], "trail": [2], "tile": 2, "dtype": "float64", "mode": "real",
               "ops": ["gather", "bad", "distribute", "roundtrip", "line", "panel"], "badshape": [6, 2, 3], "bad_nd": 2}


def run_case(case):
    res = Result()
    n = 6 * case["lines"] ** 2
    total = n + case.get("sub", 0)
    mode = case["mode"]
    if mode in ("one", "schedules"):
        pols = ["all"] if mode == "one" else ["all", "asc", "desc"] + [("last", r) for r in (0, 1, 5)]
        for pol in pols:
            for sync in (False, True) if mode == "schedules" else (False,):
                r = execute(total, driver, (case,), policy=pol, sync=sync)
                res.states += r.states
                res.transitions += len(r.trace)
                if not r.ok:
                    res.bad("failed", f"{r.problem()} {case} policy={pol} sync={sync}")
                    return res
                verify(case, r.values, res, f"policy={pol} sync={sync}")
    elif mode == "explore":

        def chk(r):
            if not r.ok:
                return r.problem()
            rr = Result()
            verify(case, r.values, rr, "explored")
            return rr.problems[0][1] if rr.problems else None

        for sync in (False, True):
            ex = explore(n, driver, (case,), check=chk, sync=sync, max_executions=60000)
            res.exploration(ex, "explored")
    else:
        from .. import realmpi

        out = realmpi.run(n, "mc.props.P02:driver", (case,), timeout=200)
        if out is None:
            res.notes.append("real MPI run timed out")
        elif any(o[0] != "ok" for o in out):
            res.bad("failed", f"real MPI: {[o for o in out if o[0] != 'ok'][:1]}")
        else:
            verify(case, [o[1] for o in out], res, "real MPI")
            res.traces += n
    res.sample = {"ops": case["ops"], "ranks": n}
    return res
