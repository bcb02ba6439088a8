"""Tendencies are a function of the state: all short sequences of evaluations over a set of states of both number types."""
import contextlib
import hashlib
import io
import itertools
import warnings

import numpy as np

from .. import repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
KERNELS = True
RULE = (
    "one evaluation = one call of the tendency (or of a Jacobian-vector product) at one place of one sequence of calls, compared with "
    "the same call made on a newly built model; distinct by equations, grid and sequence"
)
ASSUMPTIONS = ["every process makes the same sequence of calls, as the integrators do"]
CASE_TIMEOUT = 800
BUDGET = {"quick": 700, "thorough": 3600}

WORLDS = [
    ("SW", 6, dict(case_number=6, num_elements_horizontal=2, num_solpts=3)),
    ("SW", 6, dict(case_number=5, num_elements_horizontal=1, num_solpts=4)),
    ("SW", 24, dict(case_number=5, num_elements_horizontal=4, num_solpts=2)),
    ("EULER", 6, dict(case_number=31, num_elements_horizontal=2, num_elements_vertical=2, num_solpts=2)),
    ("EULER", 6, dict(case_number=21, num_elements_horizontal=1, num_elements_vertical=3, num_solpts=3)),
    ("EULER", 24, dict(case_number=77, num_elements_horizontal=4, num_elements_vertical=1, num_solpts=2)),
    ("BUBBLE", 1, dict(num_solpts=3)),
    ("BUBBLE", 1, dict(num_solpts=1, num_elements_horizontal=4, num_elements_vertical=3)),
    ("BUBBLE", 1, dict(num_solpts=2, num_elements_horizontal=1, num_elements_vertical=1)),
]
LETTERS = ["a", "b", "ca", "cb", "ja", "fa"]


def bounds(tier):
    return {
        "sequences": f"all sequences of {2 if tier == 'quick' else 3} calls over {len(LETTERS)} kinds (two real and two complex states, "
        "complex-step and finite-difference Jacobian products), each followed by the overwriting of its result; all of 3 over real/complex",
        "models": f"{len(WORLDS)} grids of the three sets of equations, 1, 6 and 24 processes",
    }


def setup():
    repoenv.use_model_mpi()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sim.warm()


def cases(tier, seed):
    for w in range(len(WORLDS)):
        for first in LETTERS:
            yield {"world": w, "first": first, "length": 2 if tier == "quick" else 3, "letters": LETTERS}
        yield {"world": w, "first": None, "length": 3, "letters": ["a", "b", "ca", "cb"]}


def arrays(*objects):
    for o in objects:
        for k, v in sorted(vars(o).items()) if o is not None and hasattr(o, "__dict__") else ():
            if isinstance(v, np.ndarray) and v.dtype != object:
                yield k, v


def fingerprint(s):
    h = hashlib.sha256()
    for k, v in arrays(s.geometry, s.metric, s.operators, s.topography):
        h.update(k.encode())
        h.update(np.ascontiguousarray(v).tobytes())
    return h.hexdigest()


def same(a, b, k):
    """Equal up to differences that instruction selection can make (alignment of temporary arrays)."""
    if np.array_equal(a, b):
        return True
    if a.shape != b.shape or a.dtype != b.dtype or not np.isfinite(a).all():
        return False
    tol = 1e-9 if k in ("ja", "fa") else 1e-12
    for x, y in ((a.real, b.real), (a.imag, b.imag)):
        if np.max(np.abs(x - y)) > tol * np.max(np.abs(y)):
            return False
    return True


def rank_main(rank, base, o, first, length, letters):
    from solvers import matvec_fun
    from rhs.rhs_selector import RhsBundle

    with contextlib.redirect_stdout(io.StringIO()):
        s = sim.make(getattr(sim, base), **o)

    def fresh():
        return RhsBundle(s.geometry, s.operators, s.metric, s.topography, s.process_topo, s.config, s.initial_Q.shape).full

    rng = np.random.default_rng(11 + rank)
    A = np.array(s.initial_Q)
    scale = np.array([np.max(np.abs(A[e])) for e in range(len(A))])
    scale[1:-1 if base != "SW" else None] = np.maximum(scale[1:-1 if base != "SW" else None], 1e-3)
    up = scale.reshape((-1,) + (1,) * (A.ndim - 1))
    B = A * (1 + 0.01 * rng.uniform(-1, 1, A.shape)) + 1e-3 * up * rng.uniform(-1, 1, A.shape)
    v = 1e-3 * up * rng.uniform(-1, 1, A.shape)
    inputs = {"a": A, "b": B, "ca": A + 1e-8j * v, "cb": B - 1e-8j * v, "ja": v, "fa": v}

    def call(f, k, q):
        if k == "ja":
            return matvec_fun(q, 10.0, A, RA, f, method="complex")
        if k == "fa":
            return matvec_fun(q, 10.0, A, RA, f, method="fd")
        return f(q)

    RA = fresh()(A.copy())
    want = {}
    for k in letters:
        want[k] = np.array(call(fresh(), k, inputs[k].copy()))
    bad, n = [], 0
    if not np.isfinite(want.get("a", np.zeros(1))).all():
        bad.append("tendency of the initial state is not finite")
    before = fingerprint(s)
    for seq in itertools.product(letters, repeat=length - (first is not None)):
        if first is not None:
            seq = (first,) + seq
        f = fresh()
        held = []
        for k in seq:
            q = inputs[k]
            keep = q.copy()
            r = call(f, k, q)
            n += 1
            if not np.array_equal(q, keep):
                bad.append("a call changes the state it is given")
                q[...] = keep
            if not same(r, want[k], k):
                bad.append(f"tendency depends on earlier calls: {'-'.join(seq)} at {k}")
            for hk, hr, hc in held:
                if not np.array_equal(hr, hc):
                    bad.append(f"a later call changes an earlier result: {'-'.join(seq)}")
            held.append((k, r, np.array(r)))
        # results belong to the caller: overwriting them changes nothing
        for hk, hr, hc in held:
            try:
                hr[...] = np.nan
            except ValueError:
                pass
        for k in seq[-1:]:
            r = call(f, k, inputs[k])
            n += 1
            if not same(r, want[k], k):
                bad.append(f"overwriting a result changes later ones: {'-'.join(seq)}")
    if fingerprint(s) != before:
        bad.append("evaluating tendencies changes the grid, metric, operators or topography")
    return bad, n


def run_case(case):
    res = Result()
    base, n, o = WORLDS[case["world"]]
    r = execute(n, rank_main, (base, o, case["first"], case["length"], case["letters"]), timeout=700)
    if not r.ok:
        res.bad("run failed", f"{base} {o}: {r.problem()}")
        return res
    for bad, count in r.values:
        for b in sorted(set(bad))[:3]:
            res.bad(b.split(":")[0], f"{base} {o}: {b}")
        res.evaluations += count
        res.nontrivial += count
    res.states += len(case["letters"]) ** (case["length"] - (case["first"] is not None))
    return res
