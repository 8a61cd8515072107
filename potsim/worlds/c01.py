"""Exact transport under every worker count and interleaving."""
import warnings

import numpy as np

from .. import lporacle as L
from .. import native
from ..runner import Result
from ..world import World


class C01(World):
    id = "C01"
    rule = ("a case is a transport instance (sizes, weights with zeros/ties/heavy tails, cost structure), an entry point, a number of threads and a schedule of the simulated workers; "
            "the compiled solver runs with worker threads simulated as fibers that are switched at memory accesses by a seeded scheduler; non-trivial: at least one parallel region with "
            "two or more workers and at least one switch, or a single-threaded solve of a problem with more than one row and column")
    step_unit = "memory accesses of the compiled solver (possible preemption points)"
    state_measure = "distinct hashes of the complete sequence of worker switches, plus distinct (size class, weights, costs, threads) tuples"
    real = ["ot.emd, ot.emd2 (Python)", "ot/lp/emd_wrap.pyx and EMD_wrapper.cpp with all solver headers, compiled from /repo with access hooks"]
    stubs = ["OpenMP runtime (team, barriers, loops, critical sections)", "operator new / delete"]
    assumptions = ["workers are sequentially consistent: weak memory reordering is not simulated", "compiled with -O1 and access instrumentation"]
    timeout = 60.0
    quick = (12000, 240)
    thorough = (400000, 840)

    def setup(self, tier):
        from .. import env
        self.sim = native.Sim()
        self.ot = env.load(emd_so=self.sim.so)
        self.sim.open()

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        big = r.random() < (0.15 if tier == "quick" else 0.3)
        hi = 70 if big else 24
        n, m = int(r.integers(1, hi)), int(r.integers(1, hi))
        if r.random() < 0.2:
            m = n
        mode = native.MODES[int(r.integers(len(native.MODES)))]
        if big and mode == "stepwise":
            mode = "random"
        return {"op": ["emd", "emd2"][int(r.random() < 0.3)], "n": n, "m": m, "wa": L.WKINDS[int(r.integers(len(L.WKINDS)))], "wb": L.WKINDS[int(r.integers(len(L.WKINDS)))],
                "cost": L.CKINDS[int(r.integers(len(L.CKINDS)))], "mass": float([1.0, 1.0, 1.0, 1e3, 1e-3][int(r.integers(5))]), "inst": int(r.integers(1 << 30)),
                "threads": [1, 2, 2, 3, 4, 5, 8, 13, 16, "max"][int(r.integers(10))], "pool": [1, 2, 4, 8, 16][int(r.integers(5))],
                "mode": mode, "interval": int([1, 3, 10, 40, 200, 2000][int(r.integers(6))]), "shrink": int([0, 0, 30][int(r.integers(3))]),
                "sched": int(r.integers(1 << 60)), "fill": int(r.integers(1, 4)), "center": bool(r.random() < 0.7), "repeat": int(r.random() < 0.15)}

    def run(self, c):
        res = Result()
        a, b, M = L.instance(self.rng(c["inst"]), c)
        self.sim.config(seed=c["sched"], mode=c["mode"], interval=c["interval"], max_threads=c["pool"], shrink=c["shrink"], fill=c["fill"])
        vals = []
        for k in range(1 + c["repeat"]):
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                try:
                    if c["op"] == "emd":
                        G, log = self.ot.emd(a, b, M, log=True, numItermax=10 ** 6, numThreads=c["threads"], center_dual=c["center"])
                        val = log["cost"]
                    else:
                        val, log = self.ot.emd2(a, b, M, log=True, return_matrix=True, numItermax=10 ** 6, numThreads=c["threads"], center_dual=c["center"])
                        G = log["G"]
                except Exception as e:
                    res.bad(f"C01:raised:{c['op']}", f"{type(e).__name__}: {e}")
                    return res
            if log["result_code"] != 1 or log["warning"] is not None or rec:
                res.bad(f"C01:no-success:{c['op']}", f"ample limit, yet result_code={log['result_code']}, warning={log['warning']}, {[str(w.message)[:80] for w in rec]}")
            bad = L.check_success(a, b, M, np.asarray(G), val, log["u"], log["v"])
            if bad:
                res.bad(f"C01:{bad[0]}:{c['op']}", bad[1] + f" (threads {c['threads']}, pool {c['pool']}, schedule {c['mode']})")
            vals.append(float(val))
        if len(vals) > 1 and abs(vals[0] - vals[1]) > 1e-7 * max(1e-12, np.abs(M).max()) * c["mass"]:
            res.bad(f"C01:schedules-disagree:{c['op']}", f"cost {vals[0]!r} under one schedule and {vals[1]!r} under another")
        st = self.sim.stats()
        res["steps"] = st["accesses"]
        res.fault("worker preemption", st["switches"])
        if st["shrunk"]:
            res.fault("team smaller than requested", st["shrunk"])
        res.fault("noise in fresh memory", st["allocs"])
        res.count("parallel_regions", st["regions"])
        res.count("barriers", st["barriers"])
        res.count("accesses_to_words_written_by_another_worker", st["conflicts"])
        if st["sched_hash"]:
            res.state("s%x" % st["sched_hash"])
        res.state(f"{min(c['n'], 30) // 6}|{min(c['m'], 30) // 6}|{c['wa']}|{c['wb']}|{c['cost']}|{c['threads']}")
        res["nontrivial"] = st["switches"] > 0 or (c["n"] > 1 and c["m"] > 1)
        return res

    def shrink(self, c):
        for k, v in (("mode", "ordered"), ("shrink", 0), ("repeat", 0), ("mass", 1.0), ("threads", 1), ("threads", 2), ("wa", "random"), ("wb", "random"), ("wa", "uniform"),
                     ("wb", "uniform"), ("cost", "random"), ("cost", "int"), ("op", "emd")):
            if c[k] != v:
                yield dict(c, **{k: v})
        for k in ("n", "m"):
            for v in {1, 2, 3, c[k] // 2, c[k] - 1}:
                if 0 < v < c[k]:
                    yield dict(c, **{k: v})


WORLD = C01()
