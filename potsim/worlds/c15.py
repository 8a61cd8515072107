"""Histories of estimators: construct, fit, refit, transform, parameters, failed and interrupted fits."""
import contextlib
import copy
import io
import pickle
import warnings

import numpy as np

from .. import calls, canon, sched
from ..gen import Gen
from ..runner import Result
from ..world import World

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError}


def _flag(g, k, p=.5):
    return {k: g.flip(p)}


# parameters of every class: numbers from the value stream, choices from the shape stream
PAR = {
    "SinkhornTransport": lambda g: dict(reg_e=g.u(.5, 2), max_iter=g.pick([30, 100]), norm=g.pick([None, "median", "max", "log", "loglog"]), metric=g.pick(["sqeuclidean", "euclidean", "cityblock"]),
                                        method=g.pick(["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"]), limit_max=g.pick([np.inf, 10]), out_of_sample_map=g.pick(["continuous", "ferradans"]), log=g.flip(), tol=1e-9),
    "EMDTransport": lambda g: dict(norm=g.pick([None, "median", "max"]), metric=g.pick(["sqeuclidean", "euclidean"]), limit_max=g.pick([2, 10]), log=g.flip(), max_iter=g.pick([1000, 100000])),
    "SinkhornLpl1Transport": lambda g: dict(reg_e=g.u(.5, 2), reg_cl=g.u(.05, .3), max_iter=3, max_inner_iter=30, norm=g.pick([None, "max"]), limit_max=g.pick([np.inf, 10]), log=g.flip()),
    "SinkhornL1l2Transport": lambda g: dict(reg_e=g.u(.5, 2), reg_cl=g.u(.05, .3), max_iter=3, max_inner_iter=30, norm=g.pick([None, "max"]), limit_max=g.pick([5, 10]), log=g.flip()),
    "EMDLaplaceTransport": lambda g: dict(reg_type=g.pick(["pos", "disp"]), reg_lap=g.u(.5, 1.5), reg_src=g.u(.2, .8), similarity=g.pick(["knn", "gauss"]), similarity_param=g.pick([2, 3]), max_iter=3,
                                          norm=g.pick([None, "max"]), log=g.flip()),
    "UnbalancedSinkhornTransport": lambda g: dict(reg_e=g.u(.5, 2), reg_m=g.u(.3, 1), max_iter=g.pick([20, 60]), method=g.pick(["sinkhorn", "sinkhorn_stabilized"]), norm=g.pick([None, "median"]),
                                                  limit_max=g.pick([5, 10]), log=g.flip()),
    "LinearTransport": lambda g: dict(reg=g.u(1e-4, 1e-2), bias=g.flip(), log=g.flip()),
    "LinearGWTransport": lambda g: dict(log=g.flip(), sign_eigs=g.pick([None, "skewness"])),
    "MappingTransport": lambda g: dict(kernel=g.pick(["linear", "gaussian"]), mu=g.u(.5, 1.5), eta=g.u(1e-3, 1e-1), sigma=g.u(.5, 2), max_iter=3, max_inner_iter=4, bias=g.flip(), log=g.flip()),
    "JCPOTTransport": lambda g: dict(reg_e=g.u(.5, 2), max_iter=g.pick([5, 20]), log=g.flip(), metric=g.pick(["sqeuclidean", "euclidean"])),
    "NearestBrenierPotential": lambda g: dict(strongly_convex_constant=g.u(.3, .7), gradient_lipschitz_constant=g.u(1.2, 2), its=1, log=g.flip()),
    "DataScaler": lambda g: dict(norm=g.pick(["standard", "minmax", "l2"])),
}
SLOW = {"NearestBrenierPotential"}


def weights(X):
    """a distribution that is not uniform"""
    nx = calls_backend(X)
    w = nx.exp(-nx.sum(X ** 2, axis=1) / 8)
    return w / nx.sum(w)


def calls_backend(X):
    import ot
    return ot.backend.get_backend(X)


class Data:
    def __init__(self, cls, g, lib, dtype, semi):
        d = g.pick([2, 2, 3])
        n, m = g.n(5, 8), g.n(5, 8)
        if cls in SLOW:
            n = m = 3
            d = 2
        if cls == "MappingTransport":
            m = n
        f = (lambda a: a.astype(dtype)) if lib == "numpy" else (lambda a: __import__("torch").from_numpy(a.astype(dtype)))
        i = (lambda a: a) if lib == "numpy" else (lambda a: __import__("torch").from_numpy(a.astype(np.int64)))
        if cls == "JCPOTTransport":
            k = g.pick([2, 2, 3])
            sizes = [g.n(5, 8) for _ in range(k)]
            self.Xs, self.ys = [f(g.pts(s, d)) for s in sizes], [i(g.labels(s)) for s in sizes]
        elif cls == "DataScaler":
            self.Xs, self.ys = f(g.pts(n, d) * 3 + 1), None
            if g.flip(.3):
                self.Xs = [self.Xs, f(g.pts(m, d))]
        else:
            self.Xs, self.ys = f(g.pts(n, d)), i(g.labels(n))
        self.Xt = f(g.pts(m, d, 1.5) + .5)
        yt = g.labels(m)
        yt[0] = -1
        self.yt = i(yt) if semi else None
        self.ytl = i(g.labels(m))
        self.new = f(g.pts(4, d))
        if cls == "NearestBrenierPotential":
            self.ys = None

    def kw(self):
        return dict(Xs=self.Xs, ys=self.ys, Xt=self.Xt, yt=self.yt)


def fit(cls, e, D):
    if cls == "DataScaler":
        return e.fit(D.Xs)
    return e.fit(**D.kw())


def apply(cls, e, D, what):
    if cls == "DataScaler":
        return e.transform(D.Xs if what == "t" else D.new if what != "tl" else [D.new, D.new])
    two = cls in ("MappingTransport", "NearestBrenierPotential")
    if what == "t":
        return e.transform(D.Xs) if two else e.transform(Xs=D.Xs)
    if what == "tn":
        return e.transform(D.new) if two else e.transform(Xs=D.new)
    if what == "tb":
        return e.transform(D.new) if two else e.transform(Xs=D.new, batch_size=2)
    if what == "i":
        return e.inverse_transform(Xt=D.Xt)
    if what == "in":
        return e.inverse_transform(Xt=D.new)
    if what == "l":
        return e.transform_labels(ys=D.ys)
    if what == "il":
        return e.inverse_transform_labels(yt=D.ytl)


WHAT = ["t", "tn", "tb", "i", "in", "l", "il"]


def view(cls, e, D):
    """everything a user can see of a fitted estimator, with D the data of its last fit"""
    out = {"attributes": {k: v for k, v in vars(e).items() if (k.endswith("_") or k in ("mu_s", "mu_t", "phi", "G", "fit_log", "fit_Xs", "fit_Xt")) and not k.startswith("_")}}
    if cls == "NearestBrenierPotential":    # holds solving times
        out["attributes"].pop("fit_log", None)
    for w in WHAT:
        try:
            out[w] = apply(cls, e, D, w)
        except Exception as x:
            out[w] = "raised " + type(x).__name__
    return canon.canon(out)


def params(e, cls):
    if cls == "DataScaler":
        return {"norm": e.norm}
    return {k: (v if not callable(v) else f"{v.__module__}.{v.__qualname__}") for k, v in e.get_params().items()}


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


OPS = ["fit", "fit", "fit", "crash", "crash", "bad", "use", "use", "get", "setback", "set", "copy", "check", "pickle", "fit_transform", "check"]


class C15(World):
    id = "C15"
    torch = True
    rule = ("a case is a history of six to twelve operations on one estimator (fits on data of other sizes, dimensions, libraries and precisions, interrupted and rejected fits, transforms, reading, restoring and "
            "changing parameters, copies and pickles); after every successful fit its attributes, transforms and labels are those of a new estimator with the same parameters fitted once on the same data, and its "
            "parameters are those it was given. Non-trivial: at least two fits, one of them after another operation, and one comparison")
    state_measure = "distinct (class, operation pair, library) tuples and (class, interrupted function) pairs"
    quick = (2400, 32)
    thorough = (200000, 840)

    def setup(self, tier):
        super().setup(tier)
        sched.ot_codes()
        self.classes = [c for c in PAR for _ in range(1 if c in SLOW else 4)]

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        cls = self.classes[int(r.integers(len(self.classes)))]
        if cls in SLOW and tier == "quick" and r.random() < .7:
            cls = "SinkhornTransport"
        z = lambda: int(r.integers(1 << 30))
        data = [{"shape": z(), "value": z(), "lib": "torch" if r.random() < .25 else "numpy", "dtype": "float32" if r.random() < .15 else "float64", "semi": bool(r.random() < .3)} for _ in range(3)]
        data[1] = {**data[0], "value": z()} if r.random() < .5 else data[1]
        hist = []
        for _ in range(int(r.integers(2, 5) if cls in SLOW else r.integers(6, 13))):
            o = OPS[int(r.integers(len(OPS)))]
            hist.append({"op": o, "d": int(r.integers(3)), "frac": float(r.random()), "exc": list(EXC)[int(r.integers(3))], "w": WHAT[int(r.integers(len(WHAT)))],
                         "shape": z(), "value": z(), "bad": ["shape", "none", "nan", "metric"][int(r.integers(4))], "keys": int(r.integers(1, 4))})
        hist += [{"op": "fit", "d": int(r.integers(3)), "frac": 0, "exc": "RuntimeError", "w": "t", "shape": 0, "value": 0, "bad": "shape", "keys": 1}]
        return {"op": cls, "init": [z(), z()], "dist": bool(r.random() < .3), "data": data, "hist": hist}

    def run(self, c):
        ot = self.ot
        res = Result()
        cls = c["op"]
        K = getattr(ot.da, cls) if cls != "DataScaler" else ot.utils.DataScaler

        def draw(s, v):
            p = PAR[cls](Gen(ot, s, v))
            if c["dist"] and "distribution_estimation" in (K._get_param_names() if cls != "DataScaler" else []):
                p["distribution_estimation"] = weights
            return p
        D = [Data(cls, Gen(ot, d["shape"], d["value"]), d["lib"], d["dtype"], d["semi"] and cls != "EMDLaplaceTransport") for d in c["data"]]
        P = draw(*c["init"])
        e = K(**P)
        full = params(e, cls)
        mine = dict(full)
        last = None
        fits = 0
        prev = "new"

        def fresh():
            f = K(**{k: (P[k] if k in P else v) for k, v in mine.items() if k in P})
            calls.set_rng(3)
            with quiet():
                fit(cls, f, D[last])
            return f

        def compare(when):
            with quiet():
                ref = view(cls, fresh(), D[last])
                got = view(cls, e, D[last])
                again = view(cls, e, D[last])
            d = canon.diff(got, ref, 1e-7, 1e-9)
            if d:
                res.bad(f"C15:history:{cls}", f"{when}: differs from a new estimator with the same parameters fitted on the same data: {d}")
            d = canon.diff(again, got, 1e-12, 0)
            if d:
                res.bad(f"C15:transform-changes:{cls}", f"{when}: the same reads give something else the second time: {d}")
            res.count("comparisons")

        def same_params(when):
            now = params(e, cls)
            if now != mine:
                k = [k for k in now if now[k] != mine[k]]
                res.bad(f"C15:parameters:{cls}", f"{when}: parameters {k} are {[now[x] for x in k]}, they were given as {[mine[x] for x in k]}")
                return False
            return True
        for j, h in enumerate(c["hist"]):
            o = h["op"]
            when = f"operation {j} ({o}) after {prev}"
            res.state(f"{cls}|{prev}|{o}|{c['data'][h['d']]['lib']}")
            prev = o
            if o in ("fit", "fit_transform"):
                calls.set_rng(3)
                try:
                    with quiet():
                        if o == "fit_transform" and cls not in ("MappingTransport", "NearestBrenierPotential"):
                            e.fit_transform(D[h["d"]].Xs) if cls == "DataScaler" else e.fit_transform(**D[h["d"]].kw())
                        else:
                            fit(cls, e, D[h["d"]])
                    ok = True
                except Exception as x:
                    ok = False
                    why = x
                if not ok:
                    # a new estimator must be refused in the same way
                    try:
                        last = h["d"]
                        fresh()
                        if o == "fit":
                            res.bad(f"C15:refit-fails:{cls}", f"{when}: raises {type(why).__name__}: {str(why)[:120]}, a new estimator does not")
                    except Exception:
                        pass
                    last = None
                    res.count("fits refused")
                    continue
                last = h["d"]
                fits += 1
                if not same_params(when):
                    return res
                compare(when)
                if fits > 1:
                    res["nontrivial"] = True
            elif o == "crash":
                last = None
                calls.set_rng(3)
                with quiet():
                    probe = K(**{k: P[k] for k in P})
                    try:
                        with sched.Monitor(None) as m:
                            fit(cls, probe, D[h["d"]])
                    except Exception:
                        continue
                    mon = sched.CrashAt(1 + int(h["frac"] * max(0, m.steps - 1)), EXC[h["exc"]])
                    try:
                        with sched.Monitor(mon):
                            fit(cls, e, D[h["d"]])
                    except BaseException:
                        pass
                res["steps"] += m.steps + mon.k
                if mon.fired:
                    res.fault("fit interrupted")
                    res.state(f"{cls}|crash in {mon.fired[0]}")
                if not same_params(when):
                    return res
            elif o == "bad":
                last = None
                d = D[h["d"]]
                with quiet():
                    try:
                        if cls == "DataScaler":
                            e.fit([] if h["bad"] != "none" else None)
                        elif h["bad"] == "shape":
                            e.fit(Xs=d.Xs, ys=d.ys, Xt=d.Xt[:, :1], yt=d.yt)
                        elif h["bad"] == "none":
                            e.fit(Xs=d.Xs, ys=d.ys, Xt=None, yt=None)
                        elif h["bad"] == "nan":
                            e.fit(Xs=d.Xs, ys=d.ys, Xt=d.Xt * float("nan"), yt=d.yt)
                        else:
                            e.fit(Xs=d.Xs, ys=d.ys, Xt="text", yt=d.yt)
                    except Exception:
                        pass
                res.fault("fit on unusable data")
                if not same_params(when):
                    return res
            elif o == "use":
                if last is not None:
                    with quiet(), contextlib.suppress(Exception):
                        apply(cls, e, D[last], h["w"])
            elif o == "get":
                same_params(when)
            elif o == "setback":
                if cls != "DataScaler":
                    before = params(e, cls)
                    e.set_params(**e.get_params())
                    if params(e, cls) != before:
                        res.bad(f"C15:set-back:{cls}", f"{when}: parameters changed by setting them to what they are")
                    if last is not None:
                        compare(when)
            elif o == "set":
                if cls == "DataScaler":
                    continue
                q = draw(h["shape"], h["value"])
                keys = sorted(q)[h["value"] % len(q):][:h["keys"]]
                q = {k: q[k] for k in keys}
                e.set_params(**q)
                P = {**P, **q}
                mine.update({k: (v if not callable(v) else f"{v.__module__}.{v.__qualname__}") for k, v in q.items()})
                last = None
                if not same_params(when):
                    return res
            elif o == "copy":
                e = copy.deepcopy(e)
            elif o == "pickle":
                with contextlib.suppress(AttributeError, TypeError, pickle.PicklingError):
                    e = pickle.loads(pickle.dumps(e))       # estimators of torch data cannot be pickled
            elif o == "check" and last is not None:
                compare(when)
        return res

    def shrink(self, c):
        for i in range(len(c["hist"])):
            if len(c["hist"]) > 1:
                yield {**c, "hist": c["hist"][:i] + c["hist"][i + 1:]}
        if c["dist"]:
            yield {**c, "dist": False}
        for i, d in enumerate(c["data"]):
            for k, x in (("lib", "numpy"), ("dtype", "float64"), ("semi", False)):
                if d[k] != x:
                    yield {**c, "data": c["data"][:i] + [{**d, k: x}] + c["data"][i + 1:]}


WORLD = C15()
