"""Results depend on the arguments only, whatever was executed before."""
import gc

import numpy as np

from .. import calls, canon, ops, sched
from ..runner import Result, in_fork
from ..world import World
from ._pool import HEAVY, names

KINDS = ["same", "values", "mutate", "mutate", "scribble", "fail", "bad", "other", "options", "gc", "keep"]


def make(ot, ref, torch=False):
    c = ops.build(ot, ref["op"], ref["shape"], ref["value"])
    return calls.to_torch(c) if torch else c


def fresh(ot, ref, torch, rngseed=1234):
    def f():
        c = make(ot, ref, torch)
        calls.set_rng(rngseed)
        return canon.observe(c.run)
    k, v = in_fork(f, 60)
    return k, v


def scribble(x, d=0):
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fciu":
            x[...] = 77
    elif type(x).__module__.startswith("torch") and hasattr(x, "detach"):
        try:
            x.detach().fill_(77)
        except Exception:
            pass
    elif isinstance(x, dict) and d < 6:
        for v in list(x.values()):
            scribble(v, d + 1)
        x["__scribble__"] = 1
    elif isinstance(x, (list, tuple)) and d < 6:
        for v in x:
            scribble(v, d + 1)
        if isinstance(x, list):
            x.append(None)


def overwrite(dst, src):
    """Copy src's values into dst's arrays, in place; False if impossible."""
    if isinstance(dst, np.ndarray) and isinstance(src, np.ndarray):
        if dst.shape != src.shape or dst.dtype != src.dtype:
            return False
        dst[...] = src
        return True
    if hasattr(dst, "detach") and hasattr(src, "detach"):
        if dst.shape != src.shape:
            return False
        dst.detach().copy_(src)
        return True
    if isinstance(dst, (list, tuple)) and isinstance(src, (list, tuple)):
        return len(dst) == len(src) and all(overwrite(a, b) for a, b in zip(dst, src))
    if isinstance(dst, (dict,)):
        return set(dst) == set(src) and all(overwrite(dst[k], src[k]) for k in dst)
    return None if callable(dst) else (dst == src if isinstance(dst, (int, str, bool, type(None))) else None)


class C05(World):
    id = "C05"
    torch = True
    rule = ("a case is one target call (operation, sizes and options, values, numpy or torch) preceded by a random history of 1-5 events: the same call, the same call "
            "on other values of equal shape, in-place change of its argument arrays, overwriting of earlier results, calls interrupted or failing half way, malformed "
            "calls, unrelated calls, garbage collection; non-trivial: the target call succeeds in a fresh process and at least one history event ran to its end")
    state_measure = "distinct (operation, history event sequence) pairs"
    quick = (1900, 150)
    thorough = (60000, 800)

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        pool = self.pool
        name = pool[i % len(pool)] if r.random() < 0.75 else self.gw[int(r.integers(len(self.gw)))]
        if name in HEAVY and tier == "quick" and r.random() < 0.7:
            name = pool[int(r.integers(len(pool)))]
        tch = "torchonly" in ops.OPS[name].tags or r.random() < 0.25
        target = {"op": name, "shape": int(r.integers(1 << 30)), "value": int(r.integers(1 << 30))}
        hist = []
        for _ in range(int(r.integers(1, 6))):
            k = KINDS[int(r.integers(len(KINDS)))]
            e = {"k": k}
            if k in ("values", "mutate", "bad", "fail"):
                e["value"] = int(r.integers(1 << 30))
            if k == "fail":
                e["frac"] = float(r.random())
                e["exc"] = ["KeyboardInterrupt", "MemoryError"][int(r.integers(2))]
            if k == "mutate":
                e["cold"] = bool(r.random() < 0.7)
            if k == "options":
                e["shape"] = int(r.integers(1 << 30))
            if k == "other":
                e.update(op=pool[int(r.integers(len(pool)))], shape=int(r.integers(1 << 30)), value=int(r.integers(1 << 30)))
                if e["op"] in HEAVY:
                    e["op"] = "sinkhorn"
            hist.append(e)
        return {"op": name, "target": target, "torch": bool(tch), "history": hist}

    def setup(self, tier):
        super().setup(tier)
        self.pool = names()
        self.gw = [n for n in self.pool if n.startswith(("gw.", "unbal", "lowrank", "coot", "ucoot", "bary", "sliced", "gauss"))]
        sched.ot_codes()

    def run(self, case):
        ot = self.ot
        res = Result()
        T = case["target"]
        tch = case["torch"]
        k, ref = fresh(ot, T, tch)
        if k != "ok":
            res["error"] = f"fresh run: {k} {ref}"
            return res
        kept = []
        live = make(ot, T, tch)       # the object the caller keeps using
        cur = dict(T)                 # what `live` currently contains
        done = 0
        for e in case["history"]:
            kd = e["k"]
            try:
                if kd == "same":
                    calls.set_rng(5)
                    canon.observe(live.run)
                elif kd == "keep":
                    calls.set_rng(5)
                    v = live.run()
                    kept.append((v, canon.canon(v), "kept result"))
                elif kd == "values":
                    calls.set_rng(6)
                    canon.observe(make(ot, dict(T, value=e["value"]), tch).run)
                elif kd == "options":
                    calls.set_rng(7)
                    canon.observe(make(ot, dict(T, shape=e["shape"]), tch).run)
                elif kd == "other":
                    c = make(ot, e, "torchonly" in ops.OPS[e["op"]].tags)
                    calls.set_rng(8)
                    canon.observe(c.run)
                elif kd == "mutate":
                    calls.set_rng(5)
                    if not e.get("cold"):
                        canon.observe(live.run)
                    other = make(ot, dict(T, value=e["value"]), tch)
                    for a, b in zip(live.args, other.args):
                        overwrite(a, b)
                    for kk in live.kwargs:
                        overwrite(live.kwargs[kk], other.kwargs[kk])
                    canon.observe(live.run)
                    # restore the original contents through the same objects
                    orig = make(ot, T, tch)
                    for a, b in zip(live.args, orig.args):
                        overwrite(a, b)
                    for kk in live.kwargs:
                        overwrite(live.kwargs[kk], orig.kwargs[kk])
                elif kd == "scribble":
                    calls.set_rng(5)
                    c = make(ot, T, tch)
                    scribble(c.run())
                elif kd == "fail":
                    c = make(ot, dict(T, value=e["value"]), tch)
                    calls.set_rng(5)
                    with sched.Monitor(None) as m:
                        canon.observe(c.run)
                    n = 1 + int(e["frac"] * max(1, m.steps - 1))
                    crash = sched.CrashAt(n, {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[e["exc"]])
                    c = make(ot, T, tch)
                    calls.set_rng(5)
                    with sched.Monitor(crash):
                        canon.observe(c.run, catch=BaseException)
                    res.fault("interrupted earlier call")
                elif kd == "bad":
                    c = make(ot, dict(T, value=e["value"]), tch)
                    arrs = [j for j, a in enumerate(c.args) if hasattr(a, "shape") and getattr(a, "ndim", 0) >= 1 and a.shape[0] > 1]
                    if arrs:
                        j = arrs[e["value"] % len(arrs)]
                        c.args[j] = c.args[j][:-1]
                        calls.set_rng(5)
                        canon.observe(c.run)
                        res.fault("malformed earlier call")
                elif kd == "gc":
                    c = make(ot, T, tch)
                    canon.observe(c.run)
                    del c
                    gc.collect()
                done += 1
            except Exception:
                pass  # an event that cannot be carried out is an empty event
            res["steps"] += 1
        res.state(T["op"] + "|" + ",".join(e["k"] for e in case["history"]))
        for rep in ("reused arguments", "new arguments"):
            c = live if rep == "reused arguments" else make(ot, T, tch)
            calls.set_rng(1234)
            got = canon.observe(c.run)
            d = canon.outcome_diff(ref, got, warns=True)
            if d:
                if rep == "reused arguments" and calls_changed(live, make(ot, T, tch)):
                    continue  # an earlier call changed its arguments: property C06, not this one
                res.bad(f"C05:history:{T['op']}", f"{rep}: differs from the same call in a fresh process: {d}")
                break
        for v, before, what in kept:
            d = canon.diff(before, canon.canon(v), 0, 0)
            if d:
                res.bad(f"C05:earlier-result-changed:{T['op']}", f"a result returned earlier changed afterwards: {d}")
                break
        res["nontrivial"] = ref.kind == "ok" and done > 0
        res.count("target_ok" if ref.kind == "ok" else "target_raises")
        return res

    def shrink(self, case):
        h = case["history"]
        for j in range(len(h)):
            yield dict(case, history=h[:j] + h[j + 1:])


def calls_changed(a, b):
    return canon.diff(canon.canon([a.args, a.kwargs]), canon.canon([b.args, b.kwargs]), 0, 0) is not None


WORLD = C05()
