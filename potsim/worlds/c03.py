"""Every failing allocation of the compiled solver becomes a MemoryError."""
import numpy as np

from .. import calls, canon, native, ops
from .. import lporacle as L
from ..runner import Result
from ..world import World

ENTRIES = ["emd", "emd2", "multi", "multi-shared", "sparse", "sparse2", "lazy", "lazy-warm", "threads", "warm", "warm2"]


class C03(World):
    id = "C03"
    rule = ("a case is a transport instance and an entry point of the exact solver, or any public operation that reaches it, and a seeded choice of which of its allocations fail "
            "(one, or all from that one on); after each failure the same call is repeated with memory available; non-trivial: at least one allocation failed while the solver ran")
    step_unit = "allocations made by the compiled solver"
    state_measure = "distinct (entry or operation, size class, instance class, index of the failing allocation, single or persistent) tuples"
    real = ["ot (Python)", "ot/lp/emd_wrap.pyx, EMD_wrapper.cpp and all solver headers compiled from /repo"]
    stubs = ["operator new / delete", "OpenMP runtime"]
    assumptions = ["allocations of numpy and CPython inside the compiled module are not failed"]
    timeout = 60.0
    quick = (3000, 240)
    thorough = (100000, 840)

    def setup(self, tier):
        from .. import env
        self.sim = native.Sim()
        self.ot = env.load(emd_so=self.sim.so)
        self.sim.open()
        self.reach = None

    def pool(self):
        """operations that reach the compiled solver, found by running them once"""
        if self.reach is None:
            self.reach = []
            for n in sorted(ops.OPS):
                o = ops.OPS[n]
                if o.tags & {"torchonly", "slow"}:
                    continue
                self.reach.append(n)
        return self.reach

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        if r.random() < 0.35:
            p = self.pool()
            return {"op": "api", "name": p[int(r.integers(len(p)))], "shape": int(r.integers(1 << 30)), "value": int(r.integers(1 << 30)),
                    "ks": [float(x) for x in r.random(3)], "persist": bool(r.random() < 0.3), "fill": int(r.integers(1, 4))}
        hi = 20 if r.random() < 0.2 else 8
        return {"op": ENTRIES[int(r.integers(len(ENTRIES)))], "n": int(r.integers(1, hi)), "m": int(r.integers(1, hi)),
                "wa": L.WKINDS[int(r.integers(len(L.WKINDS)))], "wb": L.WKINDS[int(r.integers(len(L.WKINDS)))], "cost": L.CKINDS[int(r.integers(len(L.CKINDS)))],
                "inst": int(r.integers(1 << 30)), "ks": "all" if r.random() < 0.3 else [float(x) for x in r.random(4)] + [0.0, 0.999999],
                "persist": bool(r.random() < 0.3), "fill": int(r.integers(1, 4)), "threads": int(r.integers(2, 5)), "sched": int(r.integers(1 << 60)),
                "limit": int([10 ** 6, 10 ** 6, 3][int(r.integers(3))])}

    def make(self, c):
        """() -> a Call on fresh equal arguments"""
        from ..gen import Call
        ot = self.ot
        if c["op"] == "api":
            return ops.build(ot, c["name"], c["shape"], c["value"])
        r = self.rng(c["inst"])
        a, b, M = L.instance(r, c)
        n, m = c["n"], c["m"]
        e = c["op"]
        kw = dict(numItermax=c["limit"], log=True)
        if "warm" in e:
            kw["potentials_init"] = (r.normal(size=n), r.normal(size=m))
        if e in ("emd", "warm"):
            return Call(ot.emd, a, b, M, **kw)
        if e in ("emd2", "warm2"):
            return Call(ot.emd2, a, b, M, return_matrix=True, **kw)
        if e == "multi":
            return Call(ot.emd2, a, np.stack([b, L.weights(r, m, "random")], 1), M, return_matrix=True, **kw)
        if e == "multi-shared":
            return Call(ot.emd2, a, np.stack([b, b], 1), M, numItermax=c["limit"])
        if e == "threads":
            return Call(ot.emd, a, b, M, numThreads=c["threads"], **kw)
        if e.startswith("sparse"):
            from scipy.sparse import coo_array
            ok = (r.random((n, m)) < 0.5) | (ot.emd(a, b, M) > 0)
            ii, jj = np.nonzero(ok)
            S = coo_array((np.abs(M[ii, jj]) + 0.1, (ii, jj)), shape=(n, m))
            return Call(ot.emd if e == "sparse" else ot.emd2, a, b, S, **kw)
        return Call(ot.emd2_lazy, r.normal(size=(n, 2)), r.normal(size=(m, 2)), a, b, return_matrix=True, **kw)

    def one(self, c, fail_at=0, fail_count=1):
        call = self.make(c)
        snap = calls.Snapshot(call)
        calls.set_rng(7)
        live = self.sim.stats()["live"]
        self.sim.config(seed=c.get("sched", 1), fill=c["fill"], max_threads=4, fail_at=fail_at, fail_count=fail_count)
        out = canon.observe(call.run, catch=BaseException)
        st = self.sim.stats()
        self.sim.config(seed=1, fill=c["fill"])
        return out, st, st["live"] - live, snap.changed()

    def run(self, c):
        res = Result()
        nm = c["op"] if c["op"] != "api" else c["name"]
        ref, st, leak, _ = self.one(c)
        A = st["allocs"]
        res["steps"] = A
        if A == 0:
            res.count("operations_without_solver_call")
            res.state("none|" + nm)
            return res
        if leak:
            res.bad(f"C03:leak:{nm}", f"{leak} allocations are still held after an undisturbed call")
        ks = range(1, A + 1) if c["ks"] == "all" and A <= 80 else sorted({1 + int(x * A) for x in (c["ks"] if c["ks"] != "all" else [0.0, 0.2, 0.5, 0.8, 0.9999])})
        for k in ks:
            out, st, leak, changed = self.one(c, k, 10 ** 9 if c["persist"] else 1)
            what = f"allocation {k} of {A} failed{' and all later ones' if c['persist'] else ''}"
            if st["failed"]:
                res.fault("allocation failed", st["failed"])
                res["nontrivial"] = True
                if out.kind != "exc" or out.exc[0] != "MemoryError":
                    res.bad(f"C03:not-reported:{nm}", f"{what}: the call {out.describe()} instead of raising MemoryError")
                if leak:
                    res.bad(f"C03:leak-after-failure:{nm}", f"{what}: {leak} allocations are never released")
            if changed and nm != "gmm.barycenter":   # K1: overwrites its initial point also when it succeeds, see C06
                res.bad(f"C03:argument:{nm}", f"{what}: argument {changed} is changed")
            again, st2, leak, changed = self.one(c)
            d = canon.outcome_diff(ref, again)
            if d:
                res.bad(f"C03:next-call:{nm}", f"after {what}, the same call gives another result: {d}")
            res.state(f"{nm}|{c.get('n', 0) // 4}|{c.get('m', 0) // 4}|{c.get('wa')}|{c.get('cost')}|{k}|{c['persist']}")
            res["steps"] += st["allocs"] + st2["allocs"]
        return res

    def shrink(self, c):
        if c["ks"] == "all":
            for x in (0.0, 0.2, 0.5, 0.8, 0.9999):
                yield dict(c, ks=[x])
        elif len(c["ks"]) > 1:
            for x in c["ks"]:
                yield dict(c, ks=[x])
        if c["persist"]:
            yield dict(c, persist=False)
        if c["op"] == "api":
            return
        for k, v in (("wa", "uniform"), ("wb", "uniform"), ("cost", "random"), ("limit", 10 ** 6)):
            if c[k] != v:
                yield dict(c, **{k: v})
        for k in ("n", "m"):
            for v in {1, 2, 3, c[k] // 2, c[k] - 1}:
                if 0 < v < c[k]:
                    yield dict(c, **{k: v})


WORLD = C03()
