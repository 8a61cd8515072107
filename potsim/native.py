"""Control of the simulated native runtime (native/simrt.cpp)."""
import ctypes

from . import build


class Stats(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in
                ("regions", "team_threads", "accesses", "switches", "barriers", "sched_hash", "allocs", "failed", "live", "native_points", "conflicts", "shrunk")]


MODES = ["random", "ordered", "priorities", "stepwise"]
POINT = ctypes.CFUNCTYPE(None)


class Sim:
    def __init__(self):
        self.so = build.sim_ext()
        self.lib = None

    def open(self):
        self.lib = ctypes.CDLL(str(self.so))     # the handle Python's import already opened
        self.lib.sim_config.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_int64, ctypes.c_int64, ctypes.c_int]
        self.lib.sim_point.argtypes = [ctypes.c_void_p, ctypes.c_int64, ctypes.c_int64]
        return self

    def config(self, seed=1, mode="random", interval=50, max_threads=4, shrink=0, fail_at=0, fail_count=1, fill=1):
        self.lib.sim_config(seed & (2 ** 63 - 1), MODES.index(mode), interval, max_threads, shrink, fail_at, fail_count, fill)

    def stats(self):
        s = Stats()
        self.lib.sim_stats(ctypes.byref(s))
        return {n: getattr(s, n) for n, _ in Stats._fields_}
