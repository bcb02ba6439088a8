"""Damaged state files: every crash point of the save, every wrong shape; all processes agree on where to start."""
import glob
import itertools
import os
import pickle

import numpy as np

from .. import repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
RULE = (
    "one evaluation = one start of a run from one (damaged) state file on all its processes: starting step and "
    "starting state of each process compared with each other and with the saved / the initial state"
)
ASSUMPTIONS = [
    "a crash while saving leaves a prefix of the file (every prefix length is tried); changed bytes of the numbers themselves cannot be noticed and are not tried",
    "a file whose numbers are complete but whose trailing copy of the configuration is cut may be used or refused, by all processes alike",
]
CASE_TIMEOUT = 300
KERNELS = True
STEP = 2


def bounds(tier):
    return {
        "prefixes": "every length of the file (about 1300 bytes), shallow water on 6 processes; every length in thorough for the Cartesian and Euler problems, strided in quick",
        "shapes": "every dimension -1, +1, x2, removed, added, transposed; 0-d; empty; objects; npz; text; directory; absent",
        "process counts": [6, 24],
        "schedules": "all at once, ascending, descending, each rank last; eager and synchronising",
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


BASES = {
    "sw": (sim.SW, dict(num_elements_horizontal=2, num_solpts=2, case_number=6, dt=300.0, t_end=900.0)),
    "sw4": (sim.SW, dict(num_elements_horizontal=4, num_solpts=2, case_number=6, dt=300.0, t_end=900.0)),
    "euler": (sim.EULER, dict(num_elements_horizontal=2, num_elements_vertical=1, num_solpts=2, case_number=31, dt=2.0, t_end=6.0)),
    "bubble": (sim.BUBBLE, dict(num_elements_horizontal=2, num_elements_vertical=2, num_solpts=2, dt=0.5, t_end=1.5)),
}


def make(eq, **o):
    base, opt = BASES[eq]
    return sim.make(base, **dict(opt, **o))


def create(rank, eq, d):
    s = make(eq, save_state_freq=1, output_dir=d)
    init = np.array(s.initial_Q)
    states = [init]
    while True:
        more = s.step()
        if len(states) < s.step_id + 1:
            states.append(np.array(s.Q))
        if not more:
            break
    s.output.finalize(0.0)
    return states, os.path.basename(s.output.state_file_name(STEP))


def attempt(rank, eq, d, jobs, run, spec):
    """For each damaged file (its content is written by rank 0): where does this process start, with which state?"""
    from mpi4py import MPI

    out = []
    comm = MPI.COMM_WORLD
    with open(spec, "rb") as f:
        name, contents = pickle.load(f)
    for j in jobs:
        if comm.rank == 0:
            path = os.path.join(d, name)
            if os.path.isdir(path):
                os.rmdir(path)
            elif os.path.exists(path):
                os.remove(path)
            c = contents[j]
            if c == "directory":
                os.makedirs(path)
            elif c is not None:
                with open(path, "wb") as f:
                    f.write(c)
        comm.Barrier()
        s = make(eq, starting_step=STEP, output_dir=d)
        first = (int(s.starting_step), int(s.step_id), float(s.t), int(s.num_steps), np.array(s.Q))
        final = None
        if run:
            s.run()
            final = np.array(s.Q)
        out.append(first + (final,))
        comm.Barrier()
    return out


def npy(a, tail=b""):
    import io

    b = io.BytesIO()
    np.save(b, a, allow_pickle=True)
    return b.getvalue() + tail


def damaged_shapes(a, tail):
    out = []
    for i in range(a.ndim):
        for f in ("cut", "more", "double", "drop", "insert"):
            if f == "cut":
                b = np.take(a, range(a.shape[i] - 1), axis=i)
            elif f == "more":
                b = np.concatenate([a, np.take(a, [0], axis=i)], axis=i)
            elif f == "double":
                b = np.concatenate([a, a], axis=i)
            elif f == "drop":
                b = np.take(a, 0, axis=i)
            else:
                b = np.expand_dims(a, i)
            if b.shape != a.shape:
                out.append((f"{f} dim {i}", npy(b, tail)))
    for i, j in itertools.combinations(range(a.ndim), 2):
        b = np.swapaxes(a, i, j)
        if b.shape != a.shape:
            out.append((f"swap {i},{j}", npy(np.ascontiguousarray(b), tail)))
    out += [
        ("flat", npy(a.ravel(), tail)), ("0-d", npy(np.array(1.0), tail)), ("empty array", npy(np.zeros(0), tail)),
        ("objects of the right shape", npy(a.astype(object), tail)),
        ("objects", npy(np.array([None, {}], dtype=object), tail)), ("text", b"hello, this is not a state\n"),
        ("pickle", pickle.dumps({"a": 1})), ("directory", "directory"), ("absent", None), ("empty file", b""),
        ("zeros", b"\0" * 4096), ("zip", b"PK\x03\x04" + b"\0" * 100),
        ("future version", b"\x93NUMPY\x09\x00" + npy(a, tail)[8:]),
    ]
    return out


SCHEDULES = ["all", "asc", "desc"]


def cases(tier, seed):
    chunks = {"sw": 24, "euler": 16, "bubble": 16, "sw4": 8}
    for eq in ("sw", "bubble", "euler"):
        n = chunks[eq]
        for c in range(n):
            yield {"kind": "prefix", "eq": eq, "n": 1 if eq == "bubble" else 6, "chunk": c, "of": n, "tier": tier}
    for eq, n in (("sw", 6), ("sw4", 24), ("euler", 6), ("bubble", 1)):
        for c in range(4):
            yield {"kind": "shapes", "eq": eq, "n": n, "chunk": c, "of": 4}
    for pol in ["all", "asc", "desc"] + [("last", r) for r in (0, 1, 5)] + [("first", r) for r in (0, 3)]:
        for sync in (False, True):
            yield {"kind": "schedule", "eq": "sw", "n": 6, "policy": pol, "sync": sync}


def run_case(case):
    res = Result()
    eq, n = case["eq"], case["n"]
    r0 = execute(n, create, (eq, "ref"), timeout=200)
    if not r0.ok:
        res.bad("run failed", f"{case}: {r0.problem()}")
        return res
    name = r0.values[0][1]
    with open(os.path.join("ref", name), "rb") as f:
        full = f.read()
    a = np.load(os.path.join("ref", name))
    size = len(npy(a))
    data_end = size
    tail = full[size:]
    os.makedirs("work_d")
    initial = [v[0][0] for v in r0.values]
    saved = [v[0][STEP] for v in r0.values]
    final = [v[0][-1] for v in r0.values]
    if case["kind"] == "prefix":
        lengths = list(range(len(full) + 1))
        if case["tier"] == "quick" and eq != "sw":
            lengths = sorted(set(range(0, len(full), 7)) | set(range(140)) | set(range(data_end - 12, min(data_end + 30, len(full)))) | {len(full)})
        if case["tier"] == "quick" and eq == "sw":
            lengths = sorted(set(range(0, len(full), 2)) | set(range(200)) | set(range(data_end - 70, len(full))) | {len(full)})
        mine = lengths[case["chunk"] :: case["of"]]
        contents = [(f"first {L} of {len(full)} bytes", full[:L]) for L in mine]
        expect = [("initial" if L < data_end else ("saved" if L == len(full) else "either")) for L in mine]
        runs, opts = False, {}
    elif case["kind"] == "shapes":
        contents = damaged_shapes(a, tail)[case["chunk"] :: case["of"]]
        expect = ["initial"] * len(contents)
        contents.append(("good", full))
        expect.append("saved")
        runs, opts = True, {}
    else:
        picks = [("half", full[: data_end // 2]), ("absent", None), ("good", full), ("header", full[:50]),
                 ("shape", npy(a[:, :-1], tail)), ("empty", b"")]
        contents = picks
        expect = ["initial", "initial", "saved", "initial", "initial", "initial"]
        runs = False
        opts = {"policy": tuple(case["policy"]) if isinstance(case["policy"], list) else case["policy"], "sync": case["sync"]}
    with open("spec.pkl", "wb") as f:
        pickle.dump((name, [c for _, c in contents]), f)
    # small batches so that a hang is attributed to one file
    jobs = list(range(len(contents)))
    r = execute(n, attempt, (eq, os.path.abspath("work_d"), jobs, runs, os.path.abspath("spec.pkl")), timeout=240, **opts)
    if not r.ok:
        # find the file responsible
        for j in jobs:
            r1 = execute(n, attempt, (eq, os.path.abspath("work_d"), [j], runs, os.path.abspath("spec.pkl")), timeout=60, **opts)
            if not r1.ok:
                res.bad("start failed", f"{case} file={contents[j][0]}: {r1.problem()}")
                break
        else:
            res.bad("start failed", f"{case}: {r.problem()}")
        return res
    for j in jobs:
        what = contents[j][0]
        got = [v[j] for v in r.values]
        starts = sorted({g[0] for g in got})
        ok = len(starts) == 1
        res.check(ok, "agreement", f"{case} file={what}: processes start from steps {starts}")
        if not ok:
            continue
        k = starts[0]
        allowed = {"initial": [0], "saved": [STEP], "either": [0, STEP]}[expect[j]]
        res.check(k in allowed, "accepted", f"{case} file={what}: starts from step {k}, should be {allowed}")
        want = initial if k == 0 else saved
        ok = all(g[4].shape == w.shape and g[4].dtype == w.dtype and np.array_equal(g[4], w) for g, w in zip(got, want))
        res.check(ok, "starting state", f"{case} file={what}: state at the start (step {k}) is not the {'initial' if k == 0 else 'saved'} state")
        dt = BASES[eq][1]["dt"]
        ok = all(g[1] == k and abs(g[2] - k * dt) < 1e-9 and g[3] == 3 - k for g in got)
        res.check(ok, "starting time", f"{case} file={what}: step/time/steps to go {got[0][1:4]}")
        if runs:
            ok = all(np.array_equal(g[5], w) for g, w in zip(got, final))
            res.check(ok, "final state", f"{case} file={what}: the run does not end like the original run")
    res.states += r.states
    res.transitions += len(r.trace)
    res.sample = {"eq": eq, "file": contents[-1][0], "start": int(r.values[0][-1][0])}
    return res
