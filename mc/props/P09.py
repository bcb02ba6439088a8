"""Time loop: number of steps, their lengths, final time and output schedule for every end time / time step."""
import glob
import math
import os
import re
from fractions import Fraction

import numpy as np

from .. import probe, repoenv, sim
from ..common import Result
from ..world import execute

LEVEL = "model_checking"
RULE = (
    "one evaluation = one complete run (time step, end time, starting step, output frequencies, way of driving the "
    "run) whose sequence of step lengths, final time and set of outputs is compared with exact rational arithmetic"
)
ASSUMPTIONS = [
    "the integrator is replaced by one that adds the step length to the state (the time loop does not look at values)",
    "an end time within a relative 1e-12 of a whole number of steps counts as that number",
]

DTS = ["0.1", "0.2", "0.3", "0.7", "1", "1.1", "0.01", "0.025", "3", "7.5", "600", "1e-3", "0.6", "1800", "0.15"]


def bounds(tier):
    return {
        "time steps": DTS,
        "end times": "k*dt, k*dt + dt/2, k*dt + dt/10, k*dt + 9dt/10, some k*dt + dt/10^4, k*dt + dt/10^7 and k*dt + dt(1-1/10^7), for k in 0..24 (0..120 in thorough)",
        "starting step": "0..k+1 from a saved state",
        "output frequencies": "0..4 for states, 0..3 for solution output, with and without restart",
        "driving": "run; step by step; j steps then run; step beyond the end; failure at each step",
    }


def setup():
    repoenv.use_model_mpi()
    sim.warm()


def exact_steps(dt, tend):
    return max(0, math.ceil(Fraction(tend) / Fraction(dt)))


def fixed(x):
    return repr(float(x))


def loop(rank, dt, ends, drive):
    """Cartesian problem on one process: several end times with the same time step."""
    out = []
    for i, te in enumerate(ends):
        s = sim.make(sim.BUBBLE, dt=dt, t_end=te, num_elements_horizontal=2, num_elements_vertical=2, num_solpts=3,
                     output_dir=f"r{i}")
        p = probe.install(s)
        q0 = np.array(s.Q)
        cap = 4000
        if drive == "run":
            s.run()
        elif drive == "step":
            n = 0
            while s.step() and n < cap:
                n += 1
            extra = s.step()
            if extra:
                out.append(("goes on", n))
                continue
        else:
            for _ in range(drive):
                s.step()
            mark = len(p.dts)
            s.run()
            p.dts = p.dts[mark:]
        out.append((p.dts, s.step_id, float(s.t), float(np.max(np.abs(s.Q - q0 - sum(p.dts)))), float(s.config.dt)))
    return out


def sched(rank, o, mode):
    """6 processes; returns what was written and when."""
    s = sim.make(sim.SW, num_elements_horizontal=1, num_solpts=2, **o)
    p = probe.install(s, mode)
    try:
        s.run()
        end = "ok"
    except Exception as e:
        end = type(e).__name__
    return end, p.dts, s.step_id, float(s.t), s.starting_step


def cases(tier, seed):
    K = 24 if tier == "quick" else 120
    for dt in DTS:
        d = Fraction(dt)
        ends = []
        for k in range(0, K + 1):
            for f in (Fraction(0), Fraction(1, 2), Fraction(1, 10), Fraction(9, 10)) + ((Fraction(1, 10**4), Fraction(1, 10**7), 1 - Fraction(1, 10**7)) if k % 4 < 2 else ()):
                te = k * d + f * d
                if te > 0:
                    ends.append(format(float(te), ".12g"))
        ends = sorted(set(ends), key=float)
        for lo in range(0, len(ends), 50):
            yield {"kind": "loop", "dt": dt, "ends": ends[lo : lo + 50], "drive": "run" if lo % 100 == 0 else "step"}
        yield {"kind": "loop", "dt": dt, "ends": ends[::9], "drive": "step"}
        yield {"kind": "loop", "dt": dt, "ends": ends[4::11], "drive": 2}
    for dt in ("0.1", "600", "0.7"):
        for k in (1, 3, 5):
            for frac in ("0", "0.4"):
                for sf in (0, 1, 2, 3, 4):
                    yield {"kind": "sched", "dt": dt, "k": k, "frac": frac, "save": sf, "out": (sf + k) % 4, "stat": (sf * 2 + k) % 3}
    for start in range(0, 7):
        for k, frac in ((5, "0"), (5, "0.4"), (3, "0")):
            for save, out, stat in ((0, 1, 0), (2, 2, 3), (3, 1, 2)):
                yield {"kind": "restart", "dt": "0.1", "k": k, "frac": frac, "start": start, "save": save, "out": out, "stat": stat}
    for j in range(1, 5):
        for kind in ("flag", "raise"):
            yield {"kind": "fault", "j": j, "fault": kind}


def check_loop(res, dt, te, start, dts, step_id, t, where):
    n = exact_steps(dt, te)
    d, e = float(dt), float(te)
    m = max(0, n - start)
    tail = e - (n - 1) * d
    want = [d] * (m - 1) + [tail] if m else []
    ok = len(dts) == m
    res.check(ok, "number of steps", lambda: f"{where}: {len(dts)} steps, should be {m}; last lengths {dts[-3:]}")
    if not ok:
        return
    ok = all(a == b for a, b in zip(dts[:-1], want[:-1])) and (m == 0 or abs(dts[-1] - tail) <= 1e-9 * d)
    res.check(ok, "step lengths", lambda: f"{where}: lengths {dts[:3]}...{dts[-2:]}, should be {want[:3]}...{want[-2:]}")
    if m:
        res.check(abs(t - e) <= 1e-12 * max(e, d), "final time", lambda: f"{where}: ends at {t!r} instead of {e!r}")
        res.check(step_id == n, "step count", lambda: f"{where}: final step number {step_id} instead of {n}")


def netcdf_times(path):
    import netCDF4

    with netCDF4.Dataset(path) as nc:
        return [float(x) for x in nc["time"][:]]


def run_case(case):
    res = Result()
    if case["kind"] == "loop":
        r = execute(1, loop, (float(case["dt"]), [float(x) for x in case["ends"]], case["drive"]), timeout=280)
        if not r.ok:
            res.bad("run failed", f"{case}: {r.problem()}")
            return res
        for te, o in zip(case["ends"], r.values[0]):
            where = f"dt={case['dt']} t_end={te} drive={case['drive']}"
            if o[0] == "goes on":
                res.check(False, "stops", f"{where}: still stepping after the end")
                continue
            dts, sid, t, err, cdt = o
            check_loop(res, case["dt"], te, 0, dts, sid, t, where)
            res.check(err <= 1e-9 * max(1.0, float(te)), "state", f"{where}: final state is not the result of the steps taken")
            res.transitions += len(dts)
            res.states += len(dts) + 1
        res.sample = {"dt": case["dt"], "t_end": case["ends"][-1], "steps": len(r.values[0][-1][0])}
        return res
    if case["kind"] in ("sched", "restart"):
        dt = case["dt"]
        te = (case["k"] + Fraction(case["frac"])) * Fraction(dt)
        te = format(float(te), ".12g")
        n = exact_steps(dt, te)
        o = {"dt": float(dt), "t_end": float(te)}
        if case["kind"] == "sched":
            o.update(save_state_freq=case["save"], output_freq=case["out"], stat_freq=case["stat"], case_number=2)
            log = os.path.abspath("log.{rank}")
            r = execute(6, sched, (o, None), opts={"stdout": log})
            start = 0
        else:
            o.update(save_state_freq=1, case_number=2)
            r = execute(6, sched, (o, None))
            if not r.ok:
                res.bad("run failed", f"{case}: {r.problem()}")
                return res
            start = case["start"]
            for f in glob.glob("results/state_vector_*.npy"):
                if not f.endswith(f".{start:08d}.npy"):
                    os.remove(f)
            o.update(starting_step=start, save_state_freq=case["save"], output_freq=case["out"], stat_freq=case["stat"], case_number=2)
            log = os.path.abspath("log.{rank}")
            r = execute(6, sched, (o, None), opts={"stdout": log})
            if start > n:
                start = 0  # no such file: from the beginning
        if not r.ok:
            res.bad("run failed", f"{case}: {r.problem()}")
            return res
        where = f"{case} t_end={te}"
        for rk, (end, dts, sid, t, st) in enumerate(r.values):
            if st != start:
                res.check(False, "starting step", f"{where}: rank {rk} starts from step {st} instead of {start}")
                return res
            check_loop(res, dt, te, start, dts, sid, t, f"{where} rank {rk}")
        if True:
            got = sorted(int(re.search(r"\.(\d+)\.npy$", f).group(1)) for f in glob.glob("results/state_vector_*.npy"))
            want = [k for k in range(start, n + 1) if (case["save"] and k % case["save"] == 0)]
            if case["kind"] == "restart" and case["start"] <= n and start not in want:
                want = [start] + want  # the file it started from
            res.check(got == want, "saved states", lambda: f"{where}: saved steps {got}, should be {want}")
            with open("log.0") as f:
                txt = f.read()
            got = [int(x) for x in re.findall(r"[Bb]lockstats for timestep (\d+)", txt)]
            want = [k for k in range(start, n + 1) if case["stat"] and k % case["stat"] == 0]
            res.check(got == want, "diagnostics schedule", lambda: f"{where}: diagnostics at {got}, should be {want}")
        freq = case["out"]
        if freq:
            files = glob.glob("results/*.nc")
            got = netcdf_times(files[0]) if files else []
            want = [min(k * float(dt), float(te)) for k in range(start, n + 1) if k % freq == 0]
            ok = len(got) == len(want) and np.allclose(got, want, rtol=1e-12, atol=1e-12)
            res.check(ok, "output times", lambda: f"{where}: solution written at {got}, should be {want}")
    else:
        o = {"dt": 10.0, "t_end": 60.0, "save_state_freq": 1}
        r = execute(6, sched, (o, {"kind": case["fault"], "step": case["j"]}))
        if not r.ok:
            res.bad("run failed", f"{case}: {r.problem()}")
            return res
        for rk, (end, dts, sid, t, st) in enumerate(r.values):
            res.check(len(dts) == case["j"], "stops at failure", f"{case}: rank {rk} took {len(dts)} steps")
            res.check(end != "ok", "failure reported", f"{case}: rank {rk} ended with {end}")
    res.states += r.states
    res.transitions += len(r.trace)
    res.sample = {"case": case}
    return res
