"""mkseed.mk(id, property, edits, needs, breaks, nproc, demo_py): write /verif/seeded/<id> from edits of /repo's HEAD."""
import json
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = """#!/bin/bash
# exit 0: the behaviour is right
here=$(dirname "$(readlink -f "$0")")
repo=$(pwd)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1
export OMPI_MCA_plm=isolated OMPI_MCA_plm_rsh_agent=/bin/false TMPDIR=/tmp
export PYTHONPATH=$here:$repo/wx_factory:$repo
work=$(mktemp -d /tmp/wxdemo.XXXXXX)
trap 'rm -rf "$work"' EXIT
for f in "$repo"/*; do
    case $(basename "$f") in results|work) ;; *) ln -s "$f" "$work/" ;; esac
done
cd "$work" || exit 9
@CMD@ > out.log 2>&1
rc=$?
tail -n 15 out.log
exit $rc
"""

HELP = '''"""Small configurations for the demonstrations."""
import os
SECTION = @SECTION@
SW = @SW@
EULER = @EULER@
BUBBLE = @BUBBLE@


def text(base, **o):
    o = dict(base, **o)
    sec = {}
    for k, v in o.items():
        sec.setdefault(SECTION[k], []).append(f"{k} = {v!r}" if isinstance(v, float) else f"{k} = {v}")
    return "\\n".join(f"[{s}]\\n" + "\\n".join(x) + "\\n" for s, x in sec.items())


def config(base, **o):
    from common import Configuration, load_default_schema

    return Configuration(text(base, **o), load_default_schema())


def make(base, **o):
    from simulation import Simulation

    return Simulation(config(base, **o))


def verdict(ok, msg=""):
    """All processes agree; exit."""
    from mpi4py import MPI
    import sys

    ok = MPI.COMM_WORLD.allreduce(int(bool(ok)), MPI.MIN)
    if MPI.COMM_WORLD.rank == 0:
        print("OK" if ok else "WRONG", msg, flush=True)
    sys.exit(0 if ok else 1)
'''


def mk(sid, prop, edits, needs, breaks, nproc, demo):
    import sys

    sys.path.insert(0, VERIF)
    from mc import sim

    wt = "/tmp/seedwt"
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt], stderr=subprocess.DEVNULL)
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], check=True, stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    cmd = 'timeout -k 5 250 ' + (f"mpirun -n {nproc} " if nproc else "") + '/opt/venv/bin/python "$here/demo.py"'
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@CMD@", cmd))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    h = HELP
    for k in ("SECTION", "SW", "EULER", "BUBBLE"):
        h = h.replace(f"@{k}@", repr(getattr(sim, k)))
    open(os.path.join(d, "helper.py"), "w").write(h)
    print("made", sid)
