"""Integrators used to observe the time loop of a simulation (they follow the repository's Integrator interface)."""
import numpy as np


def make(param, device, mode=None):
    from integrators import Integrator

    class Probe(Integrator):
        """Adds dt to every entry; records the steps it is asked to take; optional fault at a given step."""

        def __init__(self):
            super().__init__(param, device=device)
            self.dts = []
            self.fault = mode or {}

        def __step__(self, Q, dt):
            self.dts.append(float(dt))
            out = np.array(Q) + dt
            f = self.fault
            if f.get("step") == len(self.dts):
                if f["kind"] == "nan":
                    flat = out.reshape(-1)
                    pos = f.get("pos", 0)
                    flat[pos if pos >= 0 else flat.size + pos] = np.nan
                elif f["kind"] == "huge":
                    # as far apart as finite numbers can be
                    flat = out.reshape(-1)
                    flat[0::2], flat[1::2], flat[f.get("pos", 0)] = 1.7e308, -1.7e308, 5e-324
                elif f["kind"] == "flag":
                    self.failure_flag = f.get("flag", 1)
                elif f["kind"] == "raise":
                    raise RuntimeError("integrator failed")
            return out

    return Probe()


def install(sim, mode=None):
    p = make(sim.config, sim.device, mode)
    p.output_manager = sim.output
    p.sim_time = sim.t
    sim.integrator = p
    return p
