"""First batch of planted changes (source of /verif/seeded)."""
from mkseed import mk

mk("B11a", "P11", [
    ("wx_factory/simulation/simulation.py", "        if numpy.any(numpy.isnan(Q)):\n", "        if numpy.any(numpy.isnan(Q[0])):  # Anything wrong shows up in the density\n"),
], "a not-a-number in a variable other than the first one",
   "A not-a-number in the momentum goes unnoticed for that step, which is written out.", 6, '''
import numpy
from mpi4py import MPI
from helper import SW, make, verdict

s = make(SW, num_elements_horizontal=2, num_solpts=2, dt=300.0, t_end=900.0)
step = s.integrator.step


def broken(Q, dt):
    Q = step(Q, dt)
    if MPI.COMM_WORLD.rank == 3:
        Q[2].flat[1] = numpy.nan
    return Q


s.integrator.step = broken
try:
    s.step()
    ok = False
except ValueError:
    ok = True
verdict(ok)
''')

mk("B06a", "P06", [
    ("wx_factory/output/output_manager.py", "        if starting_state.shape != sh:\n", "        if starting_state.size != self.device.xp.prod(sh):\n"),
    ("wx_factory/output/output_manager.py", "        Q = self.device.xp.asarray(starting_state)\n", "        Q = self.device.xp.asarray(starting_state).reshape(sh)\n"),
], "a saved state with as many values as needed, but of another shape",
   "A state saved with another grid (same number of values) is taken for a good one.", 6, '''
import glob
import numpy
from mpi4py import MPI
from helper import SW, make, verdict

o = dict(num_elements_horizontal=2, num_solpts=2, dt=300.0, t_end=600.0)
s = make(SW, save_state_freq=1, **o)
s.run()
MPI.COMM_WORLD.Barrier()
if MPI.COMM_WORLD.rank == 0:
    (f,) = glob.glob("results/state_vector_*00000001.npy")
    with open(f, "rb") as g:
        a = numpy.load(g)
        rest = g.read()
    with open(f, "wb") as g:
        numpy.save(g, numpy.ascontiguousarray(a.transpose(0, 4, 2, 3, 1)))  # same size, variables last
        g.write(rest)
MPI.COMM_WORLD.Barrier()
s = make(SW, starting_step=1, **o)
verdict(s.starting_step == 0, f"starting from step {s.starting_step}")
''')

mk("B19a", "P19", [
    ("wx_factory/geometry/metric3d.py", "            Christoffel_2_01 = (\n                Omega * (1 + X_int**2) / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + Y_int**2)) * rot3\n            )\n",
     "            Christoffel_2_01 = (\n                Omega * (1 + Y_int**2) / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + Y_int**2)) * rot3\n            )\n"),
], "deep atmosphere, a rotating planet, points off the diagonals of the panels",
   "One rotation (Coriolis) term of the deep atmosphere uses the wrong coordinate.", 6, '''
import numpy
from helper import EULER, make, verdict

o = dict(case_number=77, num_elements_horizontal=2, num_solpts=2, num_elements_vertical=1)
a = make(EULER, depth_approx="deep", **o)
b = make(EULER, depth_approx="shallow", **o)
x, y = numpy.array(a.metric.christoffel[1, 0]), numpy.array(b.metric.christoffel[1, 0])
# with flat ground this term (dimensionless) does not depend on height
verdict(numpy.allclose(x, y, rtol=1e-10, atol=1e-18), f"{abs(x - y).max()} of {abs(y).max()}")
''')

mk("B09a", "P09", [
    ("wx_factory/output/output_manager.py", "        if self.config.save_state_freq > 0 and (step_id % self.config.save_state_freq) == 0:\n",
     "        if 0 < self.config.save_state_freq and (step_id - self.config.starting_step) % self.config.save_state_freq == 0:\n"),
], "a run restarted from a step that is not a multiple of the saving frequency",
   "After a restart the states are saved at other steps than the multiples of the frequency.", 6, '''
import glob
from mpi4py import MPI
from helper import SW, make, verdict

o = dict(num_elements_horizontal=2, num_solpts=2, dt=300.0, t_end=1500.0)
make(SW, save_state_freq=1, **o).run()
MPI.COMM_WORLD.Barrier()
import os
if MPI.COMM_WORLD.rank == 0:
    for f in glob.glob("results/state_vector_*"):
        if not f.endswith("00000001.npy"):
            os.remove(f)
MPI.COMM_WORLD.Barrier()
make(SW, starting_step=1, save_state_freq=2, **o).run()
MPI.COMM_WORLD.Barrier()
got = sorted(int(f[-12:-4]) for f in glob.glob("results/state_vector_*"))
verdict(got == [1, 2, 4], f"saved {got}")
''')
