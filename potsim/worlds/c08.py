"""Seeds fix results; private seeds and deterministic calls leave every global
random stream alone."""
import numpy as np

from .. import calls, canon, ops
from ..runner import Result, in_fork
from ..world import World
from ._pool import lighten, names, prepare

# results that visibly depend on the draw, for generic data
SENSITIVE = {"sliced.projections", "kernel_nystroem", "datasets", "empirical_sinkhorn_nystroem", "gw.GW_distance_estimation"}


# documented to take a generator object in place of the integer, drawing from it directly
GENERATOR_OK = ("sliced.", "datasets", "stochastic.", "kernel_nystroem", "empirical_sinkhorn_nystroem", "dr.prw", "gw.pointwise_gromov_wasserstein",
                "gw.sampled_gromov_wasserstein", "gw.GW_distance_estimation")


def streams(ot, lib):
    s = calls.rng_state()
    s["array library stream"] = backend_state(ot, lib)
    return s


def backend_state(ot, lib):
    if lib == "numpy":
        nx = ot.backend.get_backend(np.zeros(1))
        st = nx.rng_.get_state()
        return (st[0], st[1].tobytes(), st[2], st[3], st[4])
    import torch
    nx = ot.backend.get_backend(torch.zeros(1))
    return nx.rng_.get_state().numpy().tobytes()


class C08(World):
    id = "C08"
    torch = True
    rule = ("a case is one public call (numpy or torch); it is executed in two forked processes whose global streams (numpy, random, torch) and array-library streams start in different "
            "states, the second one after a random number of draws, other seeded or failing calls; results must be equal when the call is seeded or uses no randomness, and the "
            "global streams must be untouched by the call; seeds are given as integers or as generator objects; non-trivial: the call succeeded in both processes")
    state_measure = "distinct (operation, array library, seed form, disturbance kinds) tuples"
    quick = (2000, 200)
    thorough = (60000, 800)

    def setup(self, tier):
        super().setup(tier)
        self.pool = names()
        self.seeded = [n for n in self.pool if ops.OPS[n].seedkw or "seeded" in ops.OPS[n].tags]
        self.plain = [n for n in self.pool if n not in self.seeded and "globalrng" not in ops.OPS[n].tags
                      and n not in ("stochastic.semi_dual", "stochastic.dual")]

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        pool = self.seeded if i % 3 else self.plain
        name = lighten(pool, pool[(i // 3 * 2 + i % 3) % len(pool)] if i % 3 else pool[(i // 3) % len(pool)], r, tier)
        o = ops.OPS[name]
        lib = "torch" if "torchonly" in o.tags or r.random() < 0.3 else "numpy"
        form = "int"
        if o.seedkw and lib == "numpy" and name.startswith(GENERATOR_OK) and r.random() < 0.3:
            form = "RandomState"
        dist = [["draw-numpy", "draw-python", "draw-torch", "draw-backend", "seed-global", "other-seeded", "same-other-seed", "failed-seeded"][int(x)]
                for x in r.integers(0, 8, int(r.integers(1, 4)))]
        return {"op": name, "shape": int(r.integers(1 << 30)), "value": int(r.integers(1 << 30)), "lib": lib, "form": form,
                "rng1": int(r.integers(1 << 30)), "rng2": int(r.integers(1 << 30)), "disturb": dist, "mode": "seeded" if name in self.seeded else "plain",
                "other": self.seeded[int(r.integers(len(self.seeded)))], "distinct": bool(r.random() < 0.3)}

    def execute(self, case, rng, disturb, seed_delta=0):
        ot = self.ot
        lib = case["lib"]

        def one(c, form="int", delta=0):
            k = prepare(ot, c)
            kw = k.meta.get("seedkw")
            if kw and kw in k.kwargs and isinstance(k.kwargs[kw], (int, np.integer)):
                s = int(k.kwargs[kw]) + delta
                k.kwargs[kw] = np.random.RandomState(s) if form == "RandomState" else s
            return k

        def f():
            calls.set_rng(rng)
            for d in disturb:
                if d == "draw-numpy":
                    np.random.rand(1 + rng % 5)
                elif d == "draw-python":
                    import random
                    random.random()
                elif d == "draw-torch":
                    import torch
                    torch.rand(3)
                elif d == "draw-backend":
                    ot.backend.get_backend(np.zeros(1)).randn(1 + rng % 3)
                elif d == "seed-global":
                    np.random.seed(rng % 97)
                elif d == "other-seeded":
                    o = case["other"]
                    canon.observe(one({"op": o, "shape": case["shape"], "value": rng, "lib": "torch" if "torchonly" in ops.OPS[o].tags else "numpy"}).run)
                elif d == "same-other-seed":
                    canon.observe(one(case, delta=17).run)
                elif d == "failed-seeded":
                    k = one(case)
                    for j, a in enumerate(k.args):
                        if hasattr(a, "ndim") and a.ndim >= 1 and len(a) > 1:
                            k.args[j] = a[:-1]
                            break
                    canon.observe(k.run)
            k = one(case, case["form"], seed_delta)
            before = streams(ot, lib)
            out = canon.observe(k.run)
            after = streams(ot, lib)
            return out, [x for x in before if before[x] != after[x]]
        return in_fork(f, 60)

    def run(self, case):
        res = Result()
        if prepare(self.ot, case).meta.get("unseeded"):
            res.count("skipped_no_seed_argument")
            return res
        k1, v1 = self.execute(case, case["rng1"], [])
        k2, v2 = self.execute(case, case["rng2"], case["disturb"])
        if k1 != "ok" or k2 != "ok":
            res["error"] = f"{k1} {v1 if k1 != 'ok' else ''} {k2} {v2 if k2 != 'ok' else ''}"
            return res
        (a, ch1), (b, ch2) = v1, v2
        res["steps"] = 2
        for d in case["disturb"]:
            res.fault(d)
        form = case["form"]
        if form == "RandomState" and (a.kind == "exc" or b.kind == "exc"):
            form = "unsupported"     # a generator object is not accepted here
        d = canon.outcome_diff(a, b)
        if d and form != "unsupported":
            what = "seeded call" if case["mode"] == "seeded" else "deterministic call"
            res.bad(f"C08:{'not-reproducible' if case['mode'] == 'seeded' else 'depends-on-random-state'}:{case['op']}",
                    f"{what} ({case['lib']}, seed as {case['form']}) differs between two states of the random streams: {d}")
        for ch in sorted(set(ch1) | set(ch2)):
            if ch == "array library stream" and case["mode"] == "seeded" and not ops.OPS[case["op"]].seedkw:
                continue
            res.bad(f"C08:global-stream:{case['op']}:{ch}", f"the call changes the state of the {ch} random stream ({case['lib']})")
        if case["distinct"] and case["op"] in SENSITIVE and case["form"] == "int" and a.kind == "ok":
            same = 0
            for delta in (101, 202, 303):
                k3, v3 = self.execute(case, case["rng1"], [], delta)
                if k3 == "ok" and canon.outcome_diff(a, v3[0]) is None:
                    same += 1
            if same == 3:
                res.count("seed_insensitive_case")
                res["extra"].setdefault("insensitive", 0)
                res["insensitive"] = True
                res.bad(f"C08:seed-ignored:{case['op']}", "four different seeds give the same result")
        if case["form"] == "RandomState" and form != "unsupported" and a.kind == "ok":
            c = dict(case, form="int")
            k3, v3 = self.execute(c, case["rng1"], [])
            if k3 == "ok" and v3[0].kind == "ok":
                d = canon.outcome_diff(a, v3[0])
                if d:
                    res.bad(f"C08:seed-form:{case['op']}", f"an integer seed and a generator started from it give different results: {d}")
        res.state(f"{case['op']}|{case['lib']}|{form}|{','.join(sorted(set(case['disturb'])))}")
        res["nontrivial"] = a.kind == "ok" and b.kind == "ok"
        res.count("outcome_" + a.kind)
        return res

    def shrink(self, case):
        for j in range(len(case["disturb"])):
            yield dict(case, disturb=case["disturb"][:j] + case["disturb"][j + 1:])
        if case["lib"] == "torch" and "torchonly" not in ops.OPS[case["op"]].tags:
            yield dict(case, lib="numpy")
        if case["distinct"]:
            yield dict(case, distinct=False)


WORLD = C08()
