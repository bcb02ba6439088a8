"""Runs the same rank functions under the real MPI library (conformance of the MPI model, and fallback)."""
import importlib
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

from . import repoenv


def run(n, target, args=(), timeout=120):
    """target: 'module:function', called as function(rank, *args). Returns list of ('ok', value) / ('exc', name, msg),
    or None if the run did not end."""
    d = tempfile.mkdtemp(prefix="wxreal.", dir="/tmp")
    try:
        with open(os.path.join(d, "in.pkl"), "wb") as f:
            pickle.dump((target, args), f)
        env = dict(repoenv.ENV)
        env["VERIF_REPO"] = repoenv.REPO
        env["PYTHONPATH"] = repoenv.VERIF
        p = subprocess.Popen(
            ["mpirun", "-n", str(n), repoenv.PY, "-m", "mc.realmpi", d],
            env=env,
            cwd=os.getcwd(),
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            start_new_session=True,
        )
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None
        res = []
        for r in range(n):
            try:
                with open(os.path.join(d, f"out.{r}.pkl"), "rb") as f:
                    res.append(pickle.load(f))
            except (OSError, EOFError):
                res.append(("exc", "ProcessDied", out.decode(errors="replace")[-1500:]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _main(d):
    cwd = os.getcwd()
    repoenv.use_real_mpi()
    os.chdir(cwd)
    from mpi4py import MPI

    rank = MPI.COMM_WORLD.rank
    with open(os.path.join(d, "in.pkl"), "rb") as f:
        target, args = pickle.load(f)
    m, fn = target.split(":")
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    try:
        fun = getattr(importlib.import_module(m), fn)
        res = ("ok", fun(rank, *args))
    except BaseException as e:
        res = ("exc", type(e).__name__, str(e) + traceback.format_exc()[-1500:])
    with open(os.path.join(d, f"out.{rank}.pkl"), "wb") as f:
        pickle.dump(res, f)
    os._exit(0) if res[0] == "exc" else None


if __name__ == "__main__":
    _main(sys.argv[1])
