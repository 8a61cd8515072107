"""Whenever an iterative solver is stopped, its result is usable and consistent."""
import inspect
import warnings

import numpy as np

from .. import calls, mono, ops
from ..gen import Skip
from ..judge import judge
from ..runner import Result
from ..world import World
from ._pool import names


def budgets(r, big=0.3):
    return int(r.integers(1, 6)) if r.random() < 0.6 else int(r.integers(6, 45)) if r.random() > big else int(r.integers(45, 400))


class C10(World):
    id = "C10"
    torch = True
    rule = ("a case is one iterative solver on generated data with a seeded iteration budget (most of them too small to converge), optionally a seeded error injected into the middle of its arithmetic; "
            "plan, marginals, values, scalings and loss histories are recomputed from the returned arrays by reference formulas; non-trivial: the solver is covered by a constraint or a recomputed value")
    step_unit = "solver iterations allowed"
    state_measure = "distinct (solver, options, budget, whether it stopped early) tuples"
    quick = (1900, 60)
    thorough = (200000, 840)

    def setup(self, tier):
        super().setup(tier)
        self.pool = [n for n in names() if ops.OPS[n].budget and "torchonly" not in ops.OPS[n].tags]

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        name = self.pool[i % len(self.pool)]
        if name in ("dr.ewca", "dr.wda") and r.random() < 0.7:
            name = self.pool[int(r.integers(len(self.pool)))]
        if i % 5 == 4:
            name = sorted(mono.MONO)[int(r.integers(len(mono.MONO)))]
            return {"op": "mono:" + name, "shape": int(r.integers(1 << 30)), "value": int(r.integers(1 << 30)), "budget": int(r.integers(2, 60)),
                    "stops": sorted(float(x) for x in r.random(int(r.integers(2, 6)))), "lib": "numpy"}
        return {"op": name, "shape": int(r.integers(1 << 30)), "value": int(r.integers(1 << 30)), "budget": budgets(r), "lib": "torch" if r.random() < 0.15 else "numpy"}

    def make(self, c):
        o = ops.OPS[c["op"]]
        k = ops.build(self.ot, c["op"], c["shape"], c["value"])
        fn = k.fn
        tgt = k.args[1] if fn is ops._solve else fn
        sig = inspect.signature(tgt).parameters
        if o.budget in sig:
            j = list(sig).index(o.budget) + (2 if fn is ops._solve else 0)
            if j < len(k.args):
                k.args[j] = c["budget"]
            else:
                k.kwargs[o.budget] = c["budget"]
        if "log" in sig:
            k.kwargs["log"] = True
        if o.seedkw and o.seedkw in sig:
            k.kwargs.setdefault(o.seedkw, 5)
        return k

    def longer(self, c, res):
        """wherever two runs of a descent algorithm are stopped, the longer one is not worse"""
        name = c["op"][5:]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = mono.build(self.ot, name, c["shape"], c["value"])
            if p.hi == 0:
                return self.one_history(c, p, res)
            N = min(c["budget"], p.hi)
            at = sorted({max(1, int(np.ceil(x * N))) for x in c["stops"]} | {N})
            last = None
            for n in at:
                calls.set_rng(11)
                try:
                    r = p.go(n)
                except Exception as e:
                    if "NaN in coupling" in str(e):
                        res.count("degenerate_reported")
                        return res
                    res.bad(f"C10:raised:{c['op']}", f"budget {n}: {type(e).__name__}: {str(e)[:150]}")
                    return res
                e = float(p.energy(r))
                if not np.isfinite(e):
                    res.bad(f"C10:not-finite:{c['op']}", f"stopped after {n} iterations the objective is {e}")
                    return res
                if last is not None and e > last[1] + p.slack * (1 + abs(last[1])):
                    res.bad(f"C10:worse:{c['op']}", f"the objective is {last[1]:.12g} when stopped after {last[0]} iterations and {e:.12g} after {n}")
                    return res
                if p.logged and p.logged(r) is not None:
                    v = float(p.logged(r))
                    if abs(v - e) > 1e-6 * (1 + abs(e)):
                        res.bad(f"C10:value:{c['op']}", f"stopped after {n} iterations it reports the objective {v:.10g}, its result has {e:.10g}")
                        return res
                if p.mass:
                    x, m = p.mass(r)
                    if abs(x - m) > 1e-7:
                        res.bad(f"C10:marginal:{c['op']}", f"stopped after {n} iterations it transports {x:.9g} instead of {m:.9g}")
                        return res
                last = n, e
        res["steps"] = sum(at)
        res["nontrivial"] = len(at) > 1
        for _ in at[:-1]:
            res.fault("stopped earlier")
        res.state(f"{c['op']}|{c['shape'] % 97}|{at}")
        return res

    def one_history(self, c, p, res):
        calls.set_rng(11)
        es = p.history(p.go(max(3, c["budget"])))
        for x, y in zip(es, es[1:]):
            if y > x + p.slack * (1 + abs(x)):
                res.bad(f"C10:worse:{c['op']}", f"an iteration raises the objective from {x:.12g} to {y:.12g}")
                break
        res["steps"] = len(es)
        res["nontrivial"] = len(es) > 1
        res.state(f"{c['op']}|{c['shape'] % 97}|{len(es)}")
        return res

    def run(self, c):
        res = Result()
        if c["op"].startswith("mono:"):
            return self.longer(c, res)
        k = self.make(c)
        if c["lib"] == "torch":
            k = calls.to_torch(k)
        calls.set_rng(11)
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            try:
                v = k.run()
            except Exception as e:
                if c["lib"] == "torch":      # support of the library is not at stake here
                    res.count("torch_unsupported")
                    return res
                if "NaN in coupling" in str(e):      # the solver itself reports a degenerate (empty) coupling
                    res.count("degenerate_reported")
                    return res
                res.bad(f"C10:raised:{c['op']}", f"budget {c['budget']}: {type(e).__name__}: {str(e)[:150]}")
                return res
        ws = [str(w.message) for w in rec]
        if c["lib"] == "torch":
            k = self.make(c)
        if k.fn is ops._solve:
            bad = self.api(k, v)
        else:
            bad = judge(k, v, ws)
        for kind, txt in bad[:3]:
            res.bad(f"C10:{kind}:{c['op']}", f"budget {c['budget']} ({c['lib']}): {txt}")
        cut = any("converge" in w or "numItermax" in w for w in ws)
        res.fault("budget exhausted (warned)" if cut else "budget cut" if c["budget"] < 45 else "budget ample")
        res["steps"] = c["budget"]
        res["nontrivial"] = True
        res.state(f"{c['op']}|{c['shape'] % 97}|{min(c['budget'], 60)}|{cut}|{c['lib']}")
        return res

    def api(self, k, v):
        """what an OTResult reports must be consistent with its plan"""
        out = []
        from ..judge import finite, num, close
        p = finite(v)
        if p:
            return [("not-finite", f"{p} has entries that are not finite")]
        fn = k.args[1].__name__
        T = v.get("plan")
        if not isinstance(T, (np.ndarray,)) and not hasattr(T, "detach"):
            return out
        T = num(T)
        if T.ndim == 2 and T.min() < -1e-10 and k.kwargs.get("method") != "nystroem":
            out.append(("negative", f"plan entry {T.min():.3g}"))
        if fn == "solve" and isinstance(v.get("value_linear"), (float, np.ndarray, np.generic)):
            M = num(k.args[2])
            ref = float((T * M).sum())
            if not close(num(v["value_linear"]), ref, 1e-7, 1e-2):
                out.append(("value", f"value_linear {float(num(v['value_linear'])):.9g}, plan gives {ref:.9g}"))
        for s, ax in (("marginal_a", 1), ("marginal_b", 0)):
            m = v.get(s)
            if isinstance(m, np.ndarray) and m.shape == T.sum(ax).shape and np.abs(m - T.sum(ax)).max() > 1e-9:
                out.append(("value", f"{s} is not the marginal of the plan"))
        return out

    def shrink(self, c):
        if c["lib"] != "numpy":
            yield dict(c, lib="numpy")
        if len(c.get("stops", ())) > 1:
            for j in range(len(c["stops"])):
                yield dict(c, stops=c["stops"][:j] + c["stops"][j + 1:])
        for b in {1, 2, 3, 5, c["budget"] // 2, c["budget"] - 1}:
            if 0 < b < c["budget"]:
                yield dict(c, budget=b)


WORLD = C10()
