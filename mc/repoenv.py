"""Makes the repository's current working tree importable on top of the MPI model, with freshly built kernels."""
import glob
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

ENV = {
    "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/root",
    "LANG": "C.UTF-8",
    "LC_ALL": "C.UTF-8",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "PIP_NO_INDEX": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMPI_ALLOW_RUN_AS_ROOT": "1",
    "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_pml": "ob1",
    "OMPI_MCA_plm": "isolated",
    "OMPI_MCA_plm_rsh_agent": "/bin/false",
    "TMPDIR": "/tmp",
}


def _digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def _sources():
    out = []
    for sub in ("pde", "compiler"):
        for root, _, names in os.walk(os.path.join(REPO, "wx_factory", sub)):
            out += [os.path.join(root, n) for n in names if not n.endswith(".pyc")]
    return out


def _libs():
    return glob.glob(os.path.join(REPO, "lib", "pde", "**", "*.so"), recursive=True)


def ensure_kernels(force=False):
    """Rebuild the compiled kernels from the current tree (the build's own timestamps are not trusted)."""
    stamp = os.path.join(REPO, "lib", ".verif-stamp")
    want = _digest(_sources())
    try:
        with open(stamp) as f:
            src, lib = f.read().split()
        if not force and src == want and _libs() and _digest(_libs()) == lib:
            return False
    except (OSError, ValueError):
        pass
    for d in ("pde", "build"):
        p = os.path.join(REPO, "lib", d)
        if os.path.isdir(p):
            shutil.rmtree(p)
    code = (
        "import sys; sys.path[:0]=[%r,%r]\n"
        "from compiler import compile_kernels as c\nc.compile('pde','cpp',force=False)\n"
    ) % (REPO, os.path.join(REPO, "wx_factory"))
    r = subprocess.run(
        [PY, "-c", code], cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600
    )
    if r.returncode != 0 or not _libs():
        raise RuntimeError("kernel build failed:\n" + r.stdout.decode(errors="replace")[-4000:])
    with open(stamp, "w") as f:
        f.write(f"{want} {_digest(_libs())}")
    return True


def use_model_mpi():
    """Import the repository on top of the MPI model."""
    fake = os.path.join(VERIF, "mc", "fake")
    for p in (REPO, os.path.join(REPO, "wx_factory"), VERIF, fake):
        if p in sys.path:
            sys.path.remove(p)
    sys.path[:0] = [fake, VERIF]
    sys.path += [os.path.join(REPO, "wx_factory"), REPO]
    os.chdir(REPO)
    import mpi4py

    assert "mc/fake" in mpi4py.__file__, mpi4py.__file__


def use_real_mpi():
    for p in (REPO, os.path.join(REPO, "wx_factory"), VERIF):
        if p in sys.path:
            sys.path.remove(p)
    sys.path += [VERIF, os.path.join(REPO, "wx_factory"), REPO]
    os.chdir(REPO)
