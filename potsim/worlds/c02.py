"""Warm starts and iteration limits of the exact solver."""
import warnings

import numpy as np

from .. import lporacle as L
from .. import native
from ..runner import Result
from ..world import World

METRICS = ["sqeuclidean", "euclidean", "cityblock"]
INITS = ["none", "zero", "optimal", "optimal-shifted", "other-instance", "noise", "noise-large", "noise-huge", "steep", "stale-cut", "strided", "swapped-sign"]


def pdist(X, Y, metric):
    d = X[:, None] - Y[None]
    if metric == "sqeuclidean":
        return (d ** 2).sum(-1)
    if metric == "euclidean":
        return np.sqrt((d ** 2).sum(-1))
    return np.abs(d).sum(-1)


class C02(World):
    id = "C02"
    rule = ("a case is a transport instance, an entry point (dense, dense value with one or several right-hand sides, sparse, coordinates, several threads), a chain of starting potentials "
            "(optimal, stale, from a cut solve, noise of any scale) and a sequence of iteration limits at which the solve is cut; non-trivial: at least one solve was cut by its limit or warm-started")
    step_unit = "memory accesses of the compiled solver"
    state_measure = "distinct (entry, weights, costs, starting point, outcome at the limits tried) tuples"
    real = ["ot.emd, ot.emd2, ot.emd2_lazy (Python)", "ot/lp/emd_wrap.pyx, EMD_wrapper.cpp and all solver headers compiled from /repo"]
    stubs = ["operator new returns memory filled with noise", "OpenMP runtime"]
    assumptions = ["an iteration limit of 0 means no limit (as the code treats it)"]
    timeout = 60.0
    quick = (6000, 240)
    thorough = (200000, 840)

    def setup(self, tier):
        from .. import env
        self.sim = native.Sim()
        self.ot = env.load(emd_so=self.sim.so)
        self.sim.open()

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        hi = 45 if r.random() < 0.2 else 18
        n, m = int(r.integers(1, hi)), int(r.integers(1, hi))
        if r.random() < 0.2:
            m = n
        entry = ["emd", "emd", "emd2", "multi", "sparse", "sparse2", "lazy", "lazy", "threads"][int(r.integers(9))]
        return {"op": entry, "n": n, "m": m, "wa": L.WKINDS[int(r.integers(len(L.WKINDS)))], "wb": L.WKINDS[int(r.integers(len(L.WKINDS)))],
                "cost": L.CKINDS[int(r.integers(len(L.CKINDS)))], "metric": METRICS[int(r.integers(3))], "inst": int(r.integers(1 << 30)),
                "init": INITS[int(r.integers(len(INITS)))], "scale": float([1, 1e-3, 1e3, 1e6][int(r.integers(4))]),
                "limits": [int(x) for x in r.integers(1, 3 * (n + m), 3)], "bisect": bool(r.random() < 0.3), "density": float(r.uniform(0.15, 0.9)),
                "threads": int(r.integers(2, 5)), "fill": int(r.integers(1, 4)), "sched": int(r.integers(1 << 60)), "center": bool(r.random() < 0.6)}

    # ------------------------------------------------------------------
    def call(self, c, data, limit, init):
        """-> list of dict(code, warning, warned, G, value, u, v) per right-hand side"""
        ot = self.ot
        kw = dict(numItermax=limit, log=True, center_dual=c["center"])
        e = c["op"]
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            if e == "emd" or e == "threads":
                if e == "threads":
                    kw["numThreads"] = c["threads"]
                if init is not None:
                    kw["potentials_init"] = init
                G, log = ot.emd(data["a"], data["b"], data["M"], **kw)
                outs = [(G, log["cost"], log)]
            elif e in ("emd2", "multi"):
                if init is not None:
                    kw["potentials_init"] = init
                r = ot.emd2(data["a"], data["b2"] if e == "multi" else data["b"], data["M"], return_matrix=True, **kw)
                outs = [(l["G"], v, l) for v, l in (r if e == "multi" else [r])]
            elif e == "sparse":
                G, log = ot.emd(data["a"], data["b"], data["S"], **kw)
                outs = [(G.toarray(), log["cost"], log)]
            elif e == "sparse2":
                v, log = ot.emd2(data["a"], data["b"], data["S"], return_matrix=True, **kw)
                outs = [(log["G"].toarray(), v, log)]
            else:
                if init is not None:
                    kw["potentials_init"] = init
                v, log = ot.emd2_lazy(data["X"], data["Y"], data["a"], data["b"], metric=c["metric"], return_matrix=True, **kw)
                outs = [(log["G"].toarray(), v, log)]
        msgs = [str(w.message) for w in rec]
        return [dict(code=l["result_code"], warning=l["warning"], G=np.asarray(G), value=float(v), u=np.asarray(l["u"]), v=np.asarray(l["v"])) for G, v, l in outs], msgs

    def judge(self, c, data, outs, msgs, res, what, limit, feasible):
        """honesty and correctness of one call; returns the codes"""
        codes = [o["code"] for o in outs]
        limited = any("numItermax" in x for x in msgs)
        for j, o in enumerate(outs):
            b = data["b2"][:, j] if c["op"] == "multi" else data["b"]
            if o["code"] == 1:
                if o["warning"] is not None:
                    res.bad(f"C02:contradiction:{c['op']}", f"{what}: result_code says optimal, warning says {o['warning']!r}")
                bad = L.check_success(data["a"], b, data["M"], o["G"], o["value"], o["u"], o["v"], allowed=data.get("allowed"),
                                      duals=c["op"] != "sparse-x")
                if bad:
                    res.bad(f"C02:false-success-{bad[0]}:{c['op']}", f"{what}: {bad[1]}")
            elif o["code"] == 3:
                if not o["warning"] or not limited:
                    res.bad(f"C02:silent-limit:{c['op']}", f"{what}: stopped by the limit, log warning {o['warning']!r}, warnings {msgs}")
                if limit is None:
                    res.bad(f"C02:spurious-limit:{c['op']}", f"{what}: reports the iteration limit although it is ample")
                if o["G"].size and (not np.all(np.isfinite(o["G"])) or o["G"].min() < -1e-12):
                    res.bad(f"C02:cut-plan:{c['op']}", f"{what}: cut plan has negative or non-finite entries")
            elif o["code"] == 0:
                if feasible:
                    res.bad(f"C02:false-infeasible:{c['op']}", f"{what}: reported infeasible, but a feasible plan exists")
                elif not o["warning"] or not msgs:
                    res.bad(f"C02:silent-infeasible:{c['op']}", f"{what}: infeasible without warning")
            else:
                res.bad(f"C02:code:{c['op']}", f"{what}: result_code {o['code']}")
            if o["code"] == 1 and not feasible:
                res.bad(f"C02:false-success-infeasible:{c['op']}", f"{what}: no feasible plan exists")
        if all(x == 1 for x in codes) and limited:
            res.bad(f"C02:false-alarm:{c['op']}", f"{what}: warns about the limit although optimal")
        return codes

    def start(self, c, data, r, opt, ref):
        k = c["init"]
        n, m = c["n"], c["m"]
        s = c["scale"]
        if k == "none":
            return None
        if k == "zero":
            return np.zeros(n), np.zeros(m)
        if k == "optimal":
            return opt["u"].copy(), opt["v"].copy()
        if k == "optimal-shifted":
            return opt["u"] + s, opt["v"] - s
        if k == "other-instance":
            G, l = self.ot.emd(L.weights(r, n, "random"), L.weights(r, m, "random"), L.cost(r, n, m, "random") * s, log=True)
            return l["u"], l["v"]
        if k == "noise":
            return r.normal(size=n), r.normal(size=m)
        if k == "noise-large":
            return r.normal(size=n) * s * 10, r.normal(size=m) * s * 10
        if k == "noise-huge":
            return r.normal(size=n) * 1e12, r.normal(size=m) * 1e12
        if k == "steep":
            return np.arange(n) * s, -np.arange(m) * s
        if k == "stale-cut":
            o, _ = self.call(c, data, max(1, c["limits"][0] // 3), None)
            return o[0]["u"], o[0]["v"]
        if k == "strided":
            return np.repeat(opt["u"], 2)[::2], np.repeat(opt["v"], 3)[::3]
        return -opt["u"], -opt["v"]

    def run(self, c):
        res = Result()
        r = self.rng(c["inst"])
        n, m = c["n"], c["m"]
        a, b, M = L.instance(r, c)
        data = dict(a=a, b=b)
        feasible = True
        if c["op"] == "lazy":
            X, Y = r.normal(size=(n, 2)), r.normal(size=(m, 2))
            if c["cost"] in ("int", "line", "const", "zero"):
                X, Y = np.round(X), np.round(Y)
            data.update(X=X, Y=Y)
            M = pdist(X, Y, c["metric"])
        elif c["op"].startswith("sparse"):
            from scipy.sparse import coo_array, csr_array
            M = np.abs(M) + 0.1
            allowed = r.random((n, m)) < c["density"]
            if r.random() < 0.7:      # keep a feasible plan
                P = self.ot.emd(a, b, L.cost(r, n, m, "random"))
                allowed |= P > 0
            if not allowed.any():
                allowed[0, 0] = True
            ii, jj = np.nonzero(allowed)
            S = coo_array((M[ii, jj], (ii, jj)), shape=(n, m))
            data.update(S=S if r.random() < 0.5 else csr_array(S), allowed=allowed)
            feasible = L.lp_value(a, b, M, allowed) is not None
        elif c["op"] == "multi":
            data["b2"] = np.stack([b] + [L.weights(r, m, L.WKINDS[int(r.integers(len(L.WKINDS)))]) for _ in range(2)], axis=1)
        data["M"] = M
        self.sim.config(seed=c["sched"], fill=c["fill"], max_threads=4)
        try:
            cold, msgs = self.call(c, data, 10 ** 6, None)
            codes = self.judge(c, data, cold, msgs, res, "cold start", None, feasible)
            if res["violations"] or not feasible:
                res.state(f"{c['op']}|{c['wa']}|{c['wb']}|{c['cost']}|infeasible")
                return self.finish(res, c)
            init = self.start(c, data, self.rng(c["inst"] + 1), cold[0], data) if not c["op"].startswith("sparse") else None
            warm, msgs = self.call(c, data, 10 ** 6, init)
            what = f"warm start {c['init']}"
            self.judge(c, data, warm, msgs, res, what, None, True)
            sc = max(np.abs(M).max(), 1e-12)
            for o, w in zip(cold, warm):
                if w["code"] == 1 and abs(o["value"] - w["value"]) > 1e-7 * sc:
                    res.bad(f"C02:warm-differs:{c['op']}", f"{what}: cost {w['value']:.9g}, cold start {o['value']:.9g}")
            pattern = []
            prev = None
            limits = sorted(set(c["limits"]) | {1})
            if c["bisect"] and c["op"] != "multi":
                lo, hi = 0, 40 * (n + m) + 50      # smallest sufficient limit
                o, ms = self.call(c, data, hi, init)
                if o[0]["code"] == 1:
                    while hi - lo > 1:
                        mid = (lo + hi) // 2
                        o, ms = self.call(c, data, mid, init)
                        self.judge(c, data, o, ms, res, f"limit {mid} ({c['init']})", mid, True)
                        lo, hi = (lo, mid) if o[0]["code"] == 1 else (mid, hi)
                    limits = sorted(set(limits) | {max(1, hi - 1), hi, hi + 1})
                    res.fault("limit at the last iteration")
            for lim in limits:
                o, ms = self.call(c, data, lim, init)
                self.judge(c, data, o, ms, res, f"limit {lim} ({c['init']})", lim, True)
                cs = [x["code"] for x in o]
                pattern.append("".join(map(str, cs)))
                res.fault("solve cut by its limit" if 3 in cs else "limit not reached")
                if prev is not None and prev[1] == [1] * len(cs) and cs != prev[1]:
                    res.bad(f"C02:not-monotone:{c['op']}", f"optimal within {prev[0]} iterations but not within {lim} ({c['init']})")
                if prev is not None and c["op"] != "multi":
                    new = int(((o[0]["G"] > 0) & ~(prev[2] > 0)).sum())
                    if new > (lim - prev[0]) + 3 and c["wa"] in ("random", "heavy") and c["wb"] in ("random", "heavy") and c["cost"] in ("random", "metric", "mixed", "negative"):
                        res.bad(f"C02:limit-exceeded:{c['op']}", f"{new} new plan entries between limits {prev[0]} and {lim}: one iteration adds at most one")
                prev = (lim, cs, o[0]["G"])
            k = min((a > 0).sum(), (b > 0).sum())
            if k >= 12 and c["init"] == "none" and c["wa"] == "random" and c["wb"] == "random" and c["cost"] == "random" and c["op"] != "multi" and pattern and pattern[0] == "1":
                res.bad(f"C02:limit-ignored:{c['op']}", f"a generic problem of {n}x{m} is optimal with a limit of one iteration")
        except Exception as e:
            res.bad(f"C02:raised:{c['op']}", f"{type(e).__name__}: {e} (start {c['init']})")
            return self.finish(res, c)
        res.fault("start " + c["init"])
        res.state(f"{c['op']}|{c['wa']}|{c['wb']}|{c['cost']}|{c['init']}|{','.join(pattern)}")
        return self.finish(res, c)

    def finish(self, res, c):
        st = self.sim.stats()
        res["steps"] = st["accesses"]
        res["nontrivial"] = c["init"] != "none" or res["faults"].get("solve cut by its limit", 0) > 0
        return res

    def shrink(self, c):
        for k, v in (("bisect", False), ("limits", []), ("init", "none"), ("wa", "random"), ("wb", "random"), ("wa", "uniform"), ("wb", "uniform"), ("cost", "random"), ("cost", "int"),
                     ("scale", 1.0), ("op", "emd")):
            if c[k] != v:
                yield dict(c, **{k: v})
        for k in ("n", "m"):
            for v in {1, 2, 3, c[k] // 2, c[k] - 1}:
                if 0 < v < c[k]:
                    yield dict(c, **{k: v})


WORLD = C02()
