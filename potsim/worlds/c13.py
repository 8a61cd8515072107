"""Problems solved in one batch do not influence each other."""
import warnings

import numpy as np

from .. import calls, lanes
from ..runner import Result
from ..world import World

POISON = ("nan", "nan one", "inf", "inf one", "-inf one", "huge", "huge one", "zero", "denormal")


def num(x):
    return np.asarray(x.detach().numpy() if hasattr(x, "detach") else x, dtype=float)


class C13(World):
    id = "C13"
    torch = True
    rule = ("a case is one operation on a batch of seeded problems, which is answered again with the members permuted, alone, next to copies, and with other members spoilt (NaN, infinities, huge or "
            "vanishing scale, another mass); a member's answer must not change. Non-trivial: at least two members, one of them displaced or disturbed")
    step_unit = "members solved"
    state_measure = "distinct (operation, options, batch size, disturbance, position) tuples"
    assumptions = ["histograms that share one Sinkhorn run also share its breakdown handling, so only finite disturbances are applied there"]
    quick = (5000, 45)
    thorough = (400000, 840)
    timeout = 60.0

    def setup(self, tier):
        super().setup(tier)
        self.names = sorted(lanes.LANES)
        np.seterr(all="ignore")

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        name = self.names[i % len(self.names)]
        L = lanes.LANES[name]
        B = int(r.integers(2, 7))
        lib = "torch" if L.torch == "only" or (L.torch and r.random() < 0.3) else "numpy"
        what = [int(x) for x in r.choice(4, size=int(r.integers(1, 4)))]
        c = {"op": name, "shape": int(r.integers(1 << 31)), "value": int(r.integers(1 << 31)), "B": B, "lib": lib, "perm": [int(x) for x in r.permutation(B)],
             "keep": sorted(int(x) for x in r.choice(B, size=int(r.integers(1, B + 1)), replace=False)), "steps": sorted(set(what)), "copies": int(r.integers(1, 6))}
        victims = sorted(int(x) for x in r.choice(B, size=int(r.integers(1, B)), replace=False))
        c["disturb"] = []
        for v in victims:
            if L.poison and r.random() < 0.7:
                c["disturb"].append([v, L.poison[int(r.integers(len(L.poison)))], POISON[int(r.integers(len(POISON)))], float(r.random())])
            elif L.scale:
                c["disturb"].append([v, L.scale[int(r.integers(len(L.scale)))], "scale", float(10.0 ** r.uniform(-4, 4))])
        return c

    def members(self, c):
        L = lanes.LANES[c["op"]]
        o = L.options(np.random.Generator(np.random.PCG64([1, c["shape"]])))
        out = []
        for j in range(c["B"]):
            s = np.random.Generator(np.random.PCG64([2, c["shape"]]))
            r = np.random.Generator(np.random.PCG64([3, c["value"], j]))
            out.append(L.make(r, s, o) if getattr(L.make, "wants_options", False) else L.make(r, s))
        return L, o, out

    @staticmethod
    def spoil(m, key, how, x):
        a = np.array(m[key], dtype=float)
        if how == "scale":
            a = a * x
        else:
            v = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "huge": 1e200, "zero": 0.0, "denormal": 1e-310}[how.split()[0]]
            if how.endswith("one"):
                a.reshape(-1)[int(x * a.size)] = v
            else:
                a[...] = v
        return dict(m, **{key: a})

    def run(self, c):
        res = Result()
        L, o, ms = self.members(c)
        B = len(ms)

        def lib(m):
            if c["lib"] == "numpy":
                return {k: np.array(v) for k, v in m.items()}
            import torch
            return {k: torch.from_numpy(np.array(v)) for k, v in m.items()}

        def call(members):
            calls.set_rng(5)
            res["steps"] += len(members)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                outs = L.call(self.ot, [lib(m) for m in members], o)
            if len(outs) != len(members):
                raise AssertionError(f"{len(outs)} answers for {len(members)} problems")
            return [[num(y) for y in x] for x in outs]

        def same(x, y, tol):
            for p, q in zip(x, y):
                if p.shape != q.shape:
                    return f"shape {p.shape} instead of {q.shape}"
                s = max(np.abs(q[np.isfinite(q)]).max() if np.isfinite(q).any() else 0, 1e-12)
                if not (np.isfinite(p) == np.isfinite(q)).all():
                    return "finite and non-finite entries differ"
                d = np.abs(np.where(np.isfinite(q), p - q, 0)).max() if q.size else 0
                if d > tol * (s + 1):
                    return f"differs by {d:.3g} (size {s:.3g})"
            return None
        try:
            base = call(ms)
        except Exception as e:
            if c["lib"] == "torch" and L.torch != "only":
                res.count("torch_unsupported")
                return res
            res.bad(f"C13:raised:{c['op']}", f"{B} problems: {type(e).__name__}: {str(e)[:150]}")
            return res
        for st in c["steps"]:
            if st == 0:
                p = c["perm"]
                got = self.attempt(call, [ms[j] for j in p], res, c, "permuted")
                if got is None:
                    return res
                res.fault("members permuted")
                for i, j in enumerate(p):
                    d = same(got[i], base[j], L.tol)
                    if d:
                        res.bad(f"C13:order:{c['op']}", f"problem {j} of {B} moved to position {i}: {d}")
                        return res
            elif st == 1:
                keep = c["keep"]
                got = self.attempt(call, [ms[j] for j in keep], res, c, "subset")
                if got is None:
                    return res
                one = call([ms[keep[0]]])[0]
                res.fault("members removed", B - len(keep))
                for i, j in enumerate(keep):
                    d = same(got[i], base[j], L.tol)
                    if d:
                        res.bad(f"C13:size:{c['op']}", f"problem {j}, solved with {len(keep) - 1} instead of {B - 1} others: {d}")
                        return res
                d = same(one, base[keep[0]], L.tol)
                if d:
                    res.bad(f"C13:alone:{c['op']}", f"problem {keep[0]} of {B}, solved alone: {d}")
                    return res
                if L.alone is not None:
                    x = [num(y) for y in L.alone(self.ot, {k: np.array(v) for k, v in ms[keep[0]].items()}, o)]
                    d = same([y.reshape(z.shape) if y.size == z.size else y for y, z in zip(base[keep[0]], x)], x, max(L.tol, L.alone_tol))
                    if d:
                        res.bad(f"C13:meaning:{c['op']}", f"problem {keep[0]} of {B}, solved by the function for one problem: {d}")
                        return res
            elif st == 2:
                k = c["copies"]
                got = self.attempt(call, ms + [ms[0]] * k, res, c, "copies")
                if got is None:
                    return res
                res.fault("members added", k)
                for i in range(B + k):
                    d = same(got[i], base[i if i < B else 0], L.tol)
                    if d:
                        res.bad(f"C13:size:{c['op']}", f"problem {i if i < B else 0}, {k} copies of problem 0 added: {d}")
                        return res
            elif c["disturb"]:
                bad = list(ms)
                hit = set()
                for v, key, how, x in c["disturb"]:
                    bad[v] = self.spoil(bad[v], key, how, x)
                    hit.add(v)
                    res.fault(f"another member: {how}")
                got = self.attempt(call, bad, res, c, "disturbed")
                if got is None:
                    return res
                for i in range(B):
                    if i in hit:
                        continue
                    d = same(got[i], base[i], L.tol)
                    if d:
                        res.bad(f"C13:crosstalk:{c['op']}", f"problem {i} of {B} changes when others are disturbed ({[x[:3] for x in c['disturb']]}): {d}")
                        return res
        res["nontrivial"] = True
        res.state(f"{c['op']}|{B}|{c['steps']}|{c['lib']}|{[x[:3] for x in c['disturb']]}|{c['shape'] % 31}")
        return res

    def attempt(self, call, members, res, c, what):
        try:
            return call(members)
        except Exception as e:
            if what == "disturbed" and isinstance(e, (ValueError, AssertionError, np.linalg.LinAlgError, RuntimeError)):
                res.count("rejected")           # an answer to nobody is not a wrong answer
                return None
            res.bad(f"C13:raised:{c['op']}", f"{what}: {type(e).__name__}: {str(e)[:150]}")
            return None

    def shrink(self, c):
        if c["lib"] == "torch" and lanes.LANES[c["op"]].torch != "only":
            yield dict(c, lib="numpy")
        if len(c["steps"]) > 1:
            for s in c["steps"]:
                yield dict(c, steps=[s])
        if len(c["disturb"]) > 1:
            for j in range(len(c["disturb"])):
                yield dict(c, disturb=c["disturb"][:j] + c["disturb"][j + 1:])
        if c["B"] > 2:
            b = c["B"] - 1
            yield dict(c, B=b, perm=[x for x in c["perm"] if x < b], keep=[x for x in c["keep"] if x < b] or [0], disturb=[x for x in c["disturb"] if x[0] < b])
        if c["copies"] > 1:
            yield dict(c, copies=1)


WORLD = C13()
