"""Turns file-system accesses below a given directory into scheduling points (the ranks share the file system)."""
import builtins
import os


def install(root):
    from mpi4py import MPI

    root = os.path.realpath(root)

    def inside(p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.realpath(p).startswith(root)

    def wrap(mod, name, kind):
        orig = getattr(mod, name)

        def f(*a, **k):
            if a and inside(a[0]):
                MPI.schedule_point(kind, os.path.relpath(os.path.realpath(os.fspath(a[0])), root))
            return orig(*a, **k)

        f.__name__ = name
        setattr(mod, name, f)

    wrap(builtins, "open", "open")
    import io

    for n in ("mkdir", "makedirs", "remove", "unlink", "rename", "replace", "rmdir", "listdir", "stat"):
        if n == "stat":
            continue
        wrap(os, n, n)
    wrap(os.path, "exists", "exists")
    wrap(os.path, "isfile", "isfile")
