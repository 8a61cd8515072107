"""Piece-by-piece evaluation gives the dense answer for every chunk size."""
import warnings

import numpy as np

from .. import calls, chunks
from ..runner import Result
from ..world import World


class Piece(Exception):
    pass


def num(x):
    return np.asarray(x.detach().numpy() if hasattr(x, "detach") else x, dtype=float)


class C14(World):
    id = "C14"
    torch = True
    rule = ("a case is one piecewise operation on seeded data, evaluated with several seeded chunk sizes (one, around the divisors and the size, beyond it; unequal pairs), and in some runs with one "
            "seeded piece failing, then repeated; every answer must be the dense one. Non-trivial: at least one chunk size smaller than the array")
    step_unit = "evaluations"
    state_measure = "distinct (operation, sizes, chunk sizes, failing piece) tuples"
    quick = (4000, 40)
    thorough = (400000, 840)
    timeout = 60.0

    def setup(self, tier):
        super().setup(tier)
        self.names = sorted(chunks.CHUNKS)
        np.seterr(all="ignore")

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        name = self.names[i % len(self.names)]
        K = chunks.CHUNKS[name]
        lib = "torch" if K.torch and r.random() < 0.3 else "numpy"
        cs = []
        for _ in range(int(r.integers(1, 4))):
            u = r.random()
            one = lambda: ["abs", int(r.integers(1, 6))] if u < .5 else ["rel", int(r.integers(-2, 3))] if u < .85 else ["abs", int(r.integers(20, 200))]
            cs.append([one(), one()] if K.pair and r.random() < .4 else one())
        c = {"op": name, "value": int(r.integers(1 << 31)), "lib": lib, "chunks": cs, "fail": None}
        if K.callback and lib == "numpy" and r.random() < 0.5:
            c["fail"] = float(r.random())
        return c

    def run(self, c):
        res = Result()
        K = chunks.CHUNKS[c["op"]]
        base = K.make(np.random.Generator(np.random.PCG64(c["value"])))

        def data(lib=True):
            d = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in base.items()}
            if lib and c["lib"] == "torch":
                import torch
                d = {k: torch.from_numpy(v) if isinstance(v, np.ndarray) else v for k, v in d.items()}
            return d
        n = K.size(base)

        def size(x):
            if x[0] == "abs":
                return x[1]
            if x[0] == "rel":
                return max(1, n + x[1])
            return tuple(size(y) for y in x)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            calls.set_rng(3)
            dense = None if K.after else [num(x) for x in K.dense(self.ot, data(False))]
            for x in c["chunks"]:
                k = size(x)
                d = data()
                got = self.one(K, d, k, res)
                if isinstance(got, Exception):
                    if c["lib"] == "torch" and isinstance(got, (NotImplementedError, TypeError)):
                        res.count("torch_unsupported")
                        return res
                    res.bad(f"C14:raised:{c['op']}", f"chunk size {k}, sizes {self.dims(base)}: {type(got).__name__}: {str(got)[:150]}")
                    return res
                small = min(k) if isinstance(k, tuple) else k
                if small < n:
                    res["nontrivial"] = True
                res.fault("evaluation split in pieces")
                ref = [num(x) for x in K.dense(self.ot, d)] if K.after else dense
                msg = self.cmp(got, ref, K.tol)
                if msg:
                    res.bad(f"C14:value:{c['op']}", f"chunk size {k}, sizes {self.dims(base)}: {msg}")
                    return res
            if c["fail"] is not None:
                k = size(c["chunks"][0])
                count = [0]

                def cb():
                    count[0] += 1
                d = data()
                d["callback"] = cb
                first = self.one(K, d, k, res)
                if isinstance(first, Exception):
                    res.bad(f"C14:raised:{c['op']}", f"chunk size {k}, data behind a user's function: {type(first).__name__}: {str(first)[:150]}")
                    return res
                msg = self.cmp(first, dense, K.tol)
                if msg:
                    res.bad(f"C14:value:{c['op']}", f"chunk size {k}, data behind a user's function: {msg}")
                    return res
                if count[0]:
                    at = int(c["fail"] * count[0])
                    seen = [0]
                    err = Piece("this piece could not be read")

                    def bad():
                        seen[0] += 1
                        if seen[0] == at + 1:
                            raise err
                    d["callback"] = bad
                    got = self.one(K, d, k, res)
                    res.fault("a piece fails")
                    if got is not err:
                        res.bad(f"C14:swallowed:{c['op']}", f"piece {at} of {count[0]} failed, chunk size {k}: the caller got {type(got).__name__}")
                        return res
                    again = self.one(K, d, k, res)
                    msg = f"{type(again).__name__}: {again}" if isinstance(again, Exception) else self.cmp(again, first, 1e-12)
                    if msg:
                        res.bad(f"C14:retry:{c['op']}", f"after piece {at} of {count[0]} failed, chunk size {k}: {msg}")
                        return res
        res.state(f"{c['op']}|{self.dims(base)}|{c['chunks']}|{c['fail'] is not None}|{c['lib']}")
        return res

    @staticmethod
    def dims(d):
        return [tuple(v.shape) for v in d.values() if isinstance(v, np.ndarray)][:3]

    def one(self, K, d, k, res):
        res["steps"] += 1
        calls.set_rng(3)
        try:
            return [num(x) for x in K.call(self.ot, d, k)]
        except Exception as e:
            return e

    @staticmethod
    def cmp(got, ref, tol):
        for j, (x, y) in enumerate(zip(got, ref)):
            if x.size != y.size:
                return f"output {j} has shape {x.shape} instead of {y.shape}"
            x = x.reshape(y.shape)
            s = np.abs(y).max() if y.size else 0
            if not np.isfinite(x).all():
                return f"output {j} is not finite"
            e = np.abs(x - y).max() if y.size else 0
            if e > tol * (1 + s):
                return f"output {j} differs by {e:.3g} (size {s:.3g})"
        return None if len(got) == len(ref) else f"{len(got)} outputs instead of {len(ref)}"

    def shrink(self, c):
        if c["lib"] == "torch":
            yield dict(c, lib="numpy")
        if len(c["chunks"]) > 1:
            for x in c["chunks"]:
                yield dict(c, chunks=[x])
        if c["fail"] is not None:
            yield dict(c, fail=None)
            if c["fail"]:
                yield dict(c, fail=0.0)


WORLD = C14()
