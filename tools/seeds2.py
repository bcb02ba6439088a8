"""Second batch of planted changes."""
from mkseed import mk

mk("B02a", "P02", [
    ("wx_factory/process_topology.py", "            panel_field = xp.concatenate(panel_fields[:side])\n", "            panel_field = xp.concatenate(panel_fields[::side])\n"),
], "several tiles per panel, a one-dimensional field (coordinates along a row of tiles)",
   "Gathering one-dimensional tile data joins a column of tiles instead of a row.", 24, '''
import numpy
from mpi4py import MPI
from helper import SW, make, verdict

s = make(SW, num_elements_horizontal=4, num_solpts=2, dt=300.0, t_end=300.0)
p = s.process_topo
part = numpy.array([10.0 * p.my_col, 10.0 * p.my_col + 1.0])
whole = p.gather_tiles_to_panel(part, 1)
ok = whole is None or whole.tolist() == [0.0, 1.0, 10.0, 11.0]
verdict(bool(MPI.COMM_WORLD.allreduce(int(ok), op=MPI.MIN)), f"{whole}")
''')

mk("B20a", "P20", [
    ("wx_factory/output/solver_stats.py", "        self.columns.dt.value = dt\n", "        self.columns.dt.value = self.param.dt\n"),
], "a run with solver statistics whose last step is shorter than the others",
   "The recorded time step is that of the configuration instead of the one of the solve.", 1, '''
import sqlite3
from helper import BUBBLE, make, verdict

make(BUBBLE, num_elements_horizontal=2, num_elements_vertical=2, num_solpts=2, dt=1.0, t_end=2.5, time_integrator="ros2",
     store_solver_stats=1, solver_stats_file="stats.db").run()
got = [r[0] for r in sqlite3.connect("results/stats.db").execute("select dt from results_param order by step_id")]
verdict(got == [1.0, 1.0, 0.5], f"{got}")
''')

mk("B24a", "P24", [
    ("wx_factory/compiler/compile_kernels.py", 'depends=header_files,', 'depends=[h for h in header_files if h.endswith(".h")],'),
], "a header of the kernels (.hpp) edited after a build",
   "Kernels are not rebuilt when only a .hpp header has changed.", 1, '''
import os
import re
import shutil
from helper import verdict

# a copy of the program, whose kernels are built, then get a new header
shutil.copytree(os.path.realpath("wx_factory"), "copy/wx_factory", ignore=shutil.ignore_patterns("__pycache__", "*.so"))
import subprocess
import sys

code = """
import os, sys
sys.path.insert(0, os.path.abspath('wx_factory'))
from compiler.compile_kernels import compile
compile('pde', 'cpp', force=False)
"""


def build():
    return subprocess.run([sys.executable, "-c", code], cwd="copy", capture_output=True, text=True)


def libs():
    return {os.path.join(d, f): os.stat(os.path.join(d, f)).st_mtime_ns for d, _, fs in os.walk("copy") for f in fs if f.endswith(".so")}


r = build()
a = libs()
h = next(os.path.join(d, f) for d, _, fs in os.walk("copy/wx_factory/pde") for f in fs if f.endswith(".hpp"))
import time
time.sleep(1.5)
with open(h, "a") as f:
    f.write("\\n#error this header must be seen\\n")
r2 = build()
verdict(bool(a) and r2.returncode != 0, f"{len(a)} libraries, {r.returncode} {r.stderr[-300:]}; after the change {r2.returncode} {r2.stderr[-300:]}")
''')
