"""Compiled kernels: a run uses kernels built from the sources as they are now, whatever was edited, built, interrupted,
broken or removed before; on all processes or on none."""
import itertools
import json
import os
import shutil
import subprocess
import sys

from .. import repoenv
from ..common import Result

LEVEL = "model_checking"
RULE = (
    "one evaluation = one load of the compiled module by the project's own builder at the end of a sequence of edits, "
    "builds, interruptions and removals, whose values are compared with the sources; distinct by sequence"
)
ASSUMPTIONS = [
    "small stand-in sources (two files, two headers in two folders), so that thousands of builds are affordable; the "
    "headers and sources of the real kernels are covered by asking the builder, for each file, whether its edit rebuilds",
    "edits get later time stamps than earlier builds; an interrupted build is killed between two compiler calls",
]
CASE_TIMEOUT = 600
KERNELS = False

SOURCES = {
    "main.cpp": '#include <Python.h>\n#include "top.h"\n#include "sub/low.hpp"\nint part();\n'
    "static PyObject* get(PyObject*, PyObject*) { return Py_BuildValue(\"(iiii)\", @, TOP, LOW, part()); }\n"
    'static PyMethodDef M[] = {{"get", get, METH_NOARGS, ""}, {0, 0, 0, 0}};\n'
    'static PyModuleDef D = {PyModuleDef_HEAD_INIT, "pde_cpp", 0, -1, M, 0, 0, 0, 0};\n'
    "PyMODINIT_FUNC PyInit_pde_cpp() { return PyModule_Create(&D); }\n",
    "sub/part.cpp": "int part() { return @; }\n",
    "top.h": "#define TOP @\n",
    "sub/low.hpp": "#define LOW @\n",
}
ORDER = ("main.cpp", "top.h", "sub/low.hpp", "sub/part.cpp")
EDITS = {f"edit {f}": f for f in ORDER}
OPS = list(EDITS) + ["build", "build on 2", "forced", "killed 1", "killed 2", "killed 3", "killed 4", "broken", "no lib", "no build dir", "clean", "elsewhere"]


def bounds(tier):
    return {
        "operations": OPS,
        "sequences": f"all of up to {3 if tier == 'thorough' else 2} operations, each followed by a build and load on 1, 2 or 3 processes",
        "real kernels": "every source and header of the pde module, edited one at a time",
    }


def setup():
    repoenv.use_model_mpi()


DRIVER = r"""
import json, os, sys
proj, verif, n, force, cwd = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
sys.path[:0] = [os.path.join(verif, "mc", "fake"), verif]
sys.path += [os.path.join(proj, "wx_factory"), proj]
os.chdir(proj)
from compiler import compile_kernels as ck
from mc.world import execute
def work(rank):
    os.environ["RANK"] = str(rank)
    from mpi4py import MPI
    os.chdir(cwd)
    ck.compile("pde", "cpp", force=bool(force), comm=MPI.COMM_WORLD)
    m = ck.load_module("pde", "cpp")
    return list(m.get())
r = execute(n, work, (), timeout=120)
out = {"values": r.values if r.ok else None, "problem": None if r.ok else r.problem(), "hang": bool(r.deadlock or r.mismatch or r.timeout),
       "kinds": [o.kind if o is not None else None for o in r.outcomes], "trace": len(r.trace), "states": r.states}
print("RESULT " + json.dumps(out))
"""


WRAPPER = """#!/bin/bash
echo "${RANK:-?}" >> "$WRAP/calls"
if [ "$(wc -l < "$WRAP/calls")" = "$WRAP_KILL" ]; then kill -9 $PPID; exit 1; fi
if [ "$WRAP_MODE" = real ]; then exec "$@" -O0; fi
# stand-in for the compiler: only makes the file it was asked for
while [ $# -gt 1 ]; do
  if [ "$1" = -o ]; then mkdir -p "$(dirname "$2")"; echo x > "$2"; fi
  shift
done
"""


def compiler(d, kill, mode):
    """Environment in which every call of the compiler is counted, and the k-th kills the build"""
    w = d + "/wrapper"
    with open(w, "w") as f:
        f.write(WRAPPER)
    os.chmod(w, 0o755)
    return {"WRAP": d, "WRAP_KILL": str(kill), "WRAP_MODE": mode, "CC": w + " gcc", "CXX": w + " g++",
            "LDSHARED": w + " gcc -shared", "LDCXXSHARED": w + " g++ -shared"}


class Project:
    def __init__(self):
        self.dir = os.path.realpath(os.getcwd()) + "/proj"
        shutil.rmtree(self.dir, ignore_errors=True)
        src = os.path.join(repoenv.REPO, "wx_factory")
        shutil.copytree(src, self.dir + "/wx_factory", ignore=shutil.ignore_patterns("__pycache__", "pde", "stiff_pdes"))
        os.makedirs(self.dir + "/wx_factory/pde/sub")
        os.makedirs(self.dir + "/other")
        self.tick = 0
        self.values = {}
        for i, f in enumerate(ORDER):
            self.values[f] = 100 * (i + 1)
            self.write(f)
        self.clock = os.stat(self.dir + "/wx_factory/pde/top.h").st_mtime_ns

    def write(self, f, text=None):
        p = f"{self.dir}/wx_factory/pde/{f}"
        with open(p, "w") as fh:
            fh.write(text if text is not None else SOURCES[f].replace("@", str(self.values[f])))

    def run(self, n=1, force=0, kill=0, cwd=None):
        open(self.dir + "/calls", "w").close()
        env = dict(repoenv.ENV, PYTHONDONTWRITEBYTECODE="1", TMPDIR=self.dir, **compiler(self.dir, kill, "real"))
        r = subprocess.run([repoenv.PY, "-W", "ignore", "-c", DRIVER, self.dir, repoenv.VERIF, str(n), str(force), cwd or self.dir],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, cwd=self.dir)
        text = r.stdout.decode(errors="replace")
        l = [x for x in text.splitlines() if x.startswith("RESULT ")]
        out = json.loads(l[-1][7:]) if l else {"values": None, "problem": text[-400:], "hang": False, "kinds": [], "trace": 0, "states": 0}
        out["callers"] = sorted(set(open(self.dir + "/calls").read().split()))
        out["calls"] = len(open(self.dir + "/calls").read().split())
        return out

    def want(self):
        v = self.values
        return [v["main.cpp"], v["top.h"], v["sub/low.hpp"], v["sub/part.cpp"]]

    def op(self, o, res, where):
        if o in EDITS:
            self.values[EDITS[o]] += 1
            self.write(EDITS[o])
        elif o == "build":
            self.good(res, where)
        elif o == "build on 2":
            self.good(res, where, n=2)
        elif o == "forced":
            self.good(res, where, force=1)
        elif o == "elsewhere":
            self.good(res, where, cwd=self.dir + "/other")
        elif o.startswith("killed"):
            # make sure that there is something to build
            self.values["sub/part.cpp"] += 1
            self.write("sub/part.cpp")
            self.run(kill=int(o[-1]))
        elif o == "broken":
            self.write("top.h", "#error no\n")
            for n in (1, 2):
                out = self.run(n=n)
                res.check(not out["hang"], "processes do not agree", f"{where}, broken source, {n} processes: {out['problem']}")
                res.check(out["values"] is None and set(out["kinds"]) == {"exc"}, "broken source accepted",
                          f"{where}, broken source, {n} processes: {out}")
            self.values["top.h"] += 1
            self.write("top.h")
        elif o == "no lib":
            d = self.dir + "/lib"
            for x in os.listdir(d) if os.path.isdir(d) else ():
                if x != "build":
                    shutil.rmtree(f"{d}/{x}")
        elif o == "no build dir":
            shutil.rmtree(self.dir + "/lib/build", ignore_errors=True)
        elif o == "clean":
            code = ("import sys; sys.path[:0]=[%r,%r]; sys.path += [%r]\nfrom compiler import compile_kernels as c\nc.clean_all()\n"
                    % (os.path.join(repoenv.VERIF, "mc", "fake"), repoenv.VERIF, self.dir + "/wx_factory"))
            subprocess.run([repoenv.PY, "-c", code], env=repoenv.ENV, cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
            left = [f for _, _, fs in os.walk(self.dir + "/lib") for f in fs]
            res.check(not left, "clean", f"{where}: cleaning leaves {left[:4]}")

    def good(self, res, where, **kw):
        out = self.run(**kw)
        res.states += out["states"]
        res.transitions += out["trace"] + out["calls"]
        n = kw.get("n", 1)
        ok = out["values"] is not None and all(v == self.want() for v in out["values"]) and len(out["values"]) == n
        got = out["values"] or out["problem"]
        res.check(ok, "hang" if out["hang"] else "kernels of other sources" if out["values"] else "no kernels", lambda: f"{where} ({kw}): {got} instead of {self.want()}")
        res.check(len(out["callers"]) <= 1, "compiled by several processes", f"{where}: compiler started by processes {out['callers']}")
        return ok


def cases(tier, seed):
    depth = 3 if tier == "thorough" else 2
    for first in OPS:
        for second in OPS if depth == 3 else (None,):
            yield {"kind": "sequences", "prefix": [first] if second is None else [first, second], "depth": depth}
    yield {"kind": "short"}
    yield {"kind": "real"}


def run_case(case):
    res = Result()
    if case["kind"] == "real":
        real(res)
    elif case["kind"] == "short":
        for seq in [()] + [(o,) for o in OPS]:
            sequence(seq, res, 3)
    else:
        left = case["depth"] - len(case["prefix"])
        for i, rest in enumerate(itertools.product(OPS, repeat=left)):
            if not sequence(tuple(case["prefix"]) + rest, res, 1 + i % 2):
                break
    res.sample = {"case": case}
    return res


def sequence(seq, res, n):
    p = Project()
    p.good(res, "first build") if not seq else None
    for k, o in enumerate(seq):
        p.op(o, res, f"{seq[:k + 1]}")
        if res.problems:
            return False
    ok = p.good(res, f"after {seq}", n=n)
    shutil.rmtree(p.dir, ignore_errors=True)
    return ok


REAL = r"""
import json, os, sys
proj, verif = sys.argv[1:3]
sys.path[:0] = [os.path.join(verif, "mc", "fake"), verif]
sys.path += [os.path.join(proj, "wx_factory"), proj]
os.chdir(proj)
from compiler import compile_kernels as ck
from mc.world import execute
def calls():
    return len(open(proj + "/calls").read().split()) if os.path.exists(proj + "/calls") else 0
def build():
    before = calls()
    r = execute(1, lambda rank: ck.compile("pde", "cpp"), (), timeout=100)
    assert r.ok, r.problem()
    return calls() - before
out = {"first": build()}
for f in json.loads(sys.argv[3]):
    idle = build()
    os.utime(f)
    out[f] = [idle, build()]
print("RESULT " + json.dumps(out))
"""


def real(res):
    """Every file that the compiler reads for the real kernels: its edit makes the builder build again"""
    d = os.path.realpath(os.getcwd()) + "/real"
    shutil.copytree(os.path.join(repoenv.REPO, "wx_factory"), d + "/wx_factory", ignore=shutil.ignore_patterns("__pycache__"))
    import pybind11
    import sysconfig

    files = set()
    for root, _, names in os.walk(d + "/wx_factory/pde"):
        for n in names:
            if n.endswith(".cpp"):
                r = subprocess.run(["gcc", "-MM", "-std=c++11", "-I" + pybind11.get_include(), "-I" + sysconfig.get_paths()["include"], os.path.join(root, n)],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=100)
                for w in r.stdout.decode().replace("\\\n", " ").split():
                    w = os.path.realpath(w) if not w.endswith(":") else ""
                    if w.startswith(d):
                        files.add(w)
    r = subprocess.run([repoenv.PY, "-W", "ignore", "-c", REAL, d, repoenv.VERIF, json.dumps(sorted(files))],
                       env=dict(repoenv.ENV, **compiler(d, 0, "stand-in")), cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    l = [x for x in r.stdout.decode(errors="replace").splitlines() if x.startswith("RESULT ")]
    if not l:
        res.bad("builder failed", r.stdout.decode(errors="replace")[-500:])
        return
    out = json.loads(l[-1][7:])
    res.check(out.pop("first") >= 2, "first build", f"nothing compiled: {out}")
    res.check(len(out) >= 3, "files", f"only {sorted(out)} are read")
    for f, (idle, again) in out.items():
        res.check(again >= 2, "edit ignored", f"an edit of {os.path.relpath(f, d)} does not rebuild the kernels")
