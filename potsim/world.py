"""Base class of the per-property simulations."""
import numpy as np


class World:
    id = "C00"
    rule = ""
    step_unit = "python line events inside ot"
    state_measure = ""
    simtime = "not applicable: the code under test reads no clock"
    real = ["all of ot (Python and compiled extension) from /repo", "numpy", "scipy"]
    stubs = []
    assumptions = []
    timeout = 60.0
    quick = (400, 120)
    thorough = (20000, 800)
    torch = False

    def setup(self, tier):
        from . import env
        self.ot = env.load(torch=self.torch)

    def budget(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def rng(self, seed):
        return np.random.Generator(np.random.PCG64(seed))

    def gen(self, seed, i, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def shrink(self, case):
        return iter(())
