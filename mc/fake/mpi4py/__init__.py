"""Stand-in for mpi4py: same API, but every communication call is a transition of a model-checking scheduler."""
__version__ = "4.0.0-mc"


class _RC:
    initialize = True
    threads = True
    thread_level = "multiple"
    finalize = None
    fast_reduce = True
    recv_mprobe = True
    errors = "exception"

    def __call__(self, **kw):
        self.__dict__.update(kw)


rc = _RC()


def get_config():
    return {}


def get_include():
    return ""


from . import MPI  # noqa: E402,F401
