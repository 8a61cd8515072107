"""Numerical breakdown inside a scaling solver: contained, announced, never
mistaken for success."""
import math
import warnings

import numpy as np

from .. import scaling
from ..runner import Result
from ..world import World

MODES = ("nan", "nan one", "inf", "inf one", "zero", "zero one", "denormal")


class Faulty:
    """nx.dot of one backend class, whose n-th product (or every one from the
    n-th on) is spoilt"""

    def __init__(self, cls, at=None, mode="nan", persist=False, where=0.5):
        self.cls, self.at, self.mode, self.persist, self.where = cls, at, mode, persist, where
        self.n = 0
        self.hits = 0

    def __enter__(self):
        self.orig = self.cls.__dict__["dot"]
        orig = self.orig

        def dot(nx, a, b):
            r = orig(nx, a, b)
            self.n += 1
            if self.at is not None and (self.n == self.at or (self.persist and self.n > self.at)):
                self.hits += 1
                r = self.spoil(nx, r)
            return r
        self.cls.dot = dot
        return self

    def __exit__(self, *e):
        self.cls.dot = self.orig

    def spoil(self, nx, r):
        x = np.array(nx.to_numpy(r), dtype=float)
        val = {"nan": np.nan, "inf": np.inf, "zero": 0.0, "denormal": 1e-310}[self.mode.split()[0]]
        if self.mode.endswith("one") and x.ndim:
            x.reshape(-1)[int(self.where * x.size) % x.size] = val
        else:
            x[...] = val
        return nx.from_numpy(x, type_as=r)


def finite(out):
    for k, v in out.items():
        if v is None:
            continue
        if not np.isfinite(np.asarray(v)).all():
            return k
    return None


class C12(World):
    id = "C12"
    torch = True
    rule = ("a case is one entropic scaling solver on a seeded problem, either with the result of its n-th matrix product replaced by NaN, infinity, zero or a denormal (once, or from then on), or on "
            "costs many orders of magnitude above the regularisation, or with a seeded absorption threshold. Non-trivial: the fault was delivered, or the cost exceeds 300 times the regularisation, "
            "or at least one iteration was compared with the log-domain reference")
    step_unit = "solver iterations allowed"
    state_measure = "distinct (solver, problem shape, mode, fault position, outcome) tuples"
    assumptions = ["costs are finite and nonnegative", "the reference iterations in the log domain do not break down"]
    quick = (5000, 45)
    thorough = (400000, 840)
    timeout = 60.0

    def setup(self, tier):
        super().setup(tier)
        self.names = sorted(scaling.SCALING)
        np.seterr(all="ignore")

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        name = self.names[i % len(self.names)]
        c = {"op": name, "shape": int(r.integers(0, 2 ** 31)), "lib": "torch" if r.random() < 0.2 else "numpy",
             "scale": float(10.0 ** r.integers(-3, 5)) if r.random() < 0.5 else 1.0}
        kind = ("inject", "extreme", "iterate", "claims")[int(r.choice(4, p=[0.4, 0.2, 0.25, 0.15]))]
        c["kind"] = kind
        c["tau"] = float(r.random())
        c["iters"] = int(r.choice([1, 2, 3, 5, 8, 12, 21, 30, 45]))
        c["zeros"] = bool(r.random() < 0.1)
        if kind == "inject":
            c.update(rel=float(10.0 ** r.uniform(-0.3, 1.3)), mode=MODES[int(r.integers(len(MODES)))], at=float(r.random() ** 2), where=float(r.random()), persist=bool(r.random() < 0.4))
            if r.random() < 0.5:
                c["mode"] = MODES[int(r.integers(2))]
            c["zeros"] = False
            c["persist"] &= c["mode"].startswith("nan")
        elif kind == "extreme":
            c.update(rel=float(10.0 ** r.uniform(2, 6.5)))
        elif kind == "iterate":
            c.update(rel=float(10.0 ** r.uniform(-0.3, 1.1)))
        else:
            c.update(rel=float(10.0 ** r.uniform(-0.3, 3.5)), iters=int(r.choice([50, 200, 1000])))
        return c

    def make(self, c):
        if c["lib"] == "torch":
            import torch
            lib = lambda x: torch.from_numpy(np.array(x, order="C"))  # noqa
        else:
            lib = lambda x: np.array(x, order="C")  # noqa
        return scaling.build(self.ot, c["op"], c["shape"], c["scale"], c["rel"], c["zeros"], wide=c["kind"] in ("extreme", "claims"), lib=lib)

    def call(self, p, k, **o):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            out = p.go(k, **o)
        ws = [str(w.message) for w in rec if not issubclass(w.category, RuntimeWarning) and "reg_type" not in str(w.message).lower()]
        num = lambda x: None if x is None else np.asarray(x.detach().numpy() if hasattr(x, "detach") else x)  # noqa
        return {k_: num(v) for k_, v in out.items()}, ws

    def run(self, c):
        res = Result()
        p = self.make(c)
        o = {}
        if p.tau and c["kind"] != "extreme":
            o["tau"] = p.tau[int(c["tau"] * len(p.tau))]
        try:
            return getattr(self, c["kind"])(c, p, o, res)
        except Exception as e:
            if c["lib"] == "torch" and not isinstance(e, (FloatingPointError, ZeroDivisionError, OverflowError)):
                res.count("torch_unsupported")
                return res
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if not any("/ot/" in f.filename for f in tb):
                raise
            res.bad(f"C12:raised:{c['op']}", f"{c['kind']}: {type(e).__name__}: {str(e)[:150]}")
            return res

    # -------------------------------------------------------------- iterations
    def iterate(self, c, p, o, res):
        """after k iterations the solver is where the log-domain iteration is,
        whatever was absorbed on the way"""
        k = c["iters"]
        out, ws = self.call(p, k, stopThr=0, **o)
        res["steps"] = k
        res.state(f"{c['op']}|{c['shape'] % 97}|iterate|{k}|{o.get('tau')}")
        bad = finite({p.main: out[p.main]} if c["zeros"] else out)
        if bad:
            if not c["zeros"] or not ws:
                res.bad(f"C12:not-finite:{c['op']}", f"after {k} iterations on a benign problem {bad} is not finite ({o})")
            return res
        if p.ref is None or any("umerical" in w for w in ws):
            return res
        R = p.ref(k)
        if not np.isfinite(R).all():
            return res
        res["nontrivial"] = True
        if "tau" in o:
            res.fault("absorption threshold drawn")
        e = np.abs(out[p.main] - R).max() / np.abs(R).max()
        if not e < 1e-6:
            res.bad(f"C12:iterate:{c['op']}", f"after {k} iterations ({o}) the result differs from the log-domain iteration by {e:.3g}")
        return res

    # ---------------------------------------------------------------- breakdown
    def inject(self, c, p, o, res):
        if not p.roll:
            return self.iterate(c, p, o, res)
        nx = self.ot.backend.get_backend(*( [__import__("torch").zeros(1)] if c["lib"] == "torch" else [np.zeros(1)]))
        cls = type(nx)
        K = c["iters"]
        counts = {}

        def plain(k):
            with Faulty(cls) as f:
                out = self.call(p, k, stopThr=0, **o)
            counts[k] = f.n
            return out
        full, ws0 = plain(K)
        if counts[K] == 0 or any("umerical" in w for w in ws0):
            return self.iterate(c, p, o, res)
        at = 1 + int(c["at"] * counts[K])
        with Faulty(cls, at, c["mode"], c["persist"], c["where"]) as f:
            out, ws = self.call(p, K, stopThr=0, **o)
        res.fault(f"product spoilt: {c['mode']}" + (" from then on" if c["persist"] else ""), f.hits)
        res["nontrivial"] = f.hits > 0
        res["steps"] = K
        cut = any("umerical" in w for w in ws)
        res.state(f"{c['op']}|{c['mode']}|{c['persist']}|{at}/{K}|{cut}")
        # a product of zero or infinity makes a scaling zero, whose logarithm is minus infinity
        bad = finite(out if c["mode"].startswith("nan") else {k: v for k, v in out.items() if k in ("plan", "loss", "q", "u", "v")})
        if bad:
            res.bad(f"C12:not-finite:{c['op']}", f"product {at} of {counts[K]} became {c['mode']} ({'for good' if c['persist'] else 'once'}): {bad} is not finite, warnings {ws[:2]}")
            return res
        if not ws:
            # stopThr=0 is never reached: silence would be a claim of success
            if p.true_err is not None and "plan" in out and self.speaks(c):
                e = p.true_err(out)
                if e > 1e-9:
                    res.bad(f"C12:silent:{c['op']}", f"product {at} of {counts[K]} became {c['mode']}: no warning, but the result is off by {e:.3g}")
            return res
        if c["mode"].startswith("nan") and cut:
            # the fault hit iteration j: the last sound iterates are those before and after it
            lo, hi = 0, K
            while hi - lo > 1:
                mid = (lo + hi) // 2
                plain(mid)
                lo, hi = (mid, hi) if counts[mid] < at else (lo, mid)
            j = hi
            # products made before the first iteration belong to the first
            cands = [k for k in (j - 1, j) if k >= 1]
            cands = [(k, plain(k)[0]) for k in cands]
            close = [np.abs(out[p.main] - x[p.main]).max() <= 1e-9 * max(np.abs(x[p.main]).max(), 1e-300) for _, x in cands]
            if j == 1 and not any(close):
                return res       # rolled back to the starting point, which no limit returns
            if not any(close):
                res.bad(f"C12:rollback:{c['op']}", f"product {at} (iteration {j}) became {c['mode']}: it stopped with a warning, but the result is the iterate of neither iteration {j - 1} nor {j}")
        return res

    # ----------------------------------------------------------------- extremes
    def extreme(self, c, p, o, res):
        K = c["iters"]
        out, ws = self.call(p, K, stopThr=1e-12)
        res.fault("costs far above the regularisation")
        res["nontrivial"] = c["rel"] > 300
        res["steps"] = K
        cut = any("umerical" in w for w in ws)
        res.state(f"{c['op']}|{c['shape'] % 97}|extreme|{int(math.log10(c['rel']) * 2)}|{cut}")
        bad = finite({k: v for k, v in out.items() if not (c["zeros"] and k not in ("plan", "loss", "q"))})
        if bad:
            if c["op"] == "entropic_partial_wasserstein" and ws:
                return res       # the kernel itself vanished: there is no finite iterate to return
            if p.logdom or p.roll:
                res.bad(f"C12:not-finite:{c['op']}", f"largest cost {c['rel']:.3g} times the regularisation: {bad} is not finite; warnings {ws[:2]}")
            elif not ws:
                res.bad(f"C12:silent:{c['op']}", f"largest cost {c['rel']:.3g} times the regularisation: {bad} is not finite and nothing was said")
            return res
        if p.logdom and cut and not c["zeros"]:
            res.bad(f"C12:logdomain:{c['op']}", f"largest cost {c['rel']:.3g} times the regularisation: a log-domain method reports {ws[0]!r}")
        if cut:
            # stopping just before the breakdown must give the same
            lo, hi = 0, K
            while hi - lo > 1:
                mid = (lo + hi) // 2
                x, w = self.call(p, mid, stopThr=1e-12)
                lo, hi = (lo, mid) if any("umerical" in y for y in w) else (mid, hi)
            if lo >= 1:
                x, w = self.call(p, lo, stopThr=1e-12)
                e = np.abs(out[p.main] - x[p.main]).max()
                if e > 1e-9 * np.abs(x[p.main]).max():
                    res.bad(f"C12:rollback:{c['op']}", f"it broke down at iteration {hi} with a warning and returned something else than the iterate of {lo} iterations (largest difference {e:.3g})")
        elif p.logdom and p.ref is not None and not c["zeros"]:
            x, w = self.call(p, K, stopThr=0)
            R = p.ref(K)
            e = np.abs(x[p.main] - R).max() / np.abs(R).max()
            if not e < 1e-6:
                res.bad(f"C12:iterate:{c['op']}", f"largest cost {c['rel']:.3g} times the regularisation, {K} iterations: off the log-domain iteration by {e:.3g}")
        return res

    def speaks(self, c):
        """does the solver say when it did not converge?"""
        return not ("unbalanced" in c["op"] and "stab" not in c["op"])

    # ------------------------------------------------------------------- claims
    def claims(self, c, p, o, res):
        K = c["iters"]
        out, ws = self.call(p, K, **o)
        res.state(f"{c['op']}|{c['shape'] % 97}|claims|{int(math.log10(c['rel']) * 2)}|{bool(ws)}|{o.get('tau')}")
        res["steps"] = K
        res["nontrivial"] = c["rel"] > 300
        bad = finite({p.main: out[p.main]})
        if bad and not ws:
            res.bad(f"C12:silent:{c['op']}", f"largest cost {c['rel']:.3g} times the regularisation: {bad} is not finite and nothing was said")
            return res
        if bad or ws or p.true_err is None or p.tol is None or c["zeros"]:
            return res
        if not self.speaks(c):
            return res
        e = float(p.true_err(out))
        res["nontrivial"] = True
        # far below the costs, the constant 1e-16 added to the products of the stabilized unbalanced solver takes over
        kind = "guarded" if c["op"].startswith("unbalanced stab") and c["rel"] > 30 else "silent"
        if not e <= p.tol * 5:
            res.bad(f"C12:{kind}:{c['op']}", f"largest cost {c['rel']:.3g} times the regularisation, {o}: it claims success, but is off by {e:.3g} (tolerance {p.tol})")
        return res

    def shrink(self, c):
        if c["lib"] != "numpy":
            yield dict(c, lib="numpy")
        if c["zeros"]:
            yield dict(c, zeros=False)
        if c["scale"] != 1.0:
            yield dict(c, scale=1.0)
        for k in (1, 2, 3, c["iters"] // 2, c["iters"] - 1):
            if 0 < k < c["iters"]:
                yield dict(c, iters=k)
        if c.get("persist"):
            yield dict(c, persist=False)
        if "at" in c and c["at"] > 0:
            yield dict(c, at=0.0)
            yield dict(c, at=c["at"] / 2)


WORLD = C12()
