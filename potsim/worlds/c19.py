"""Result objects: any order of reading, repeated and interrupted reads."""
import warnings

import numpy as np

from .. import calls, canon, sched
from ..judge import gw_ref, kl
from ..runner import Result
from ..world import World

FIELDS = ["value", "value_linear", "value_quad", "plan", "potential_a", "potential_b", "potentials", "marginal_a", "marginal_b", "marginals",
          "sparse_plan", "lazy_plan", "status", "log", "a_to_b", "b_to_a", "citation", "repr"]
FAM = {}


def fam(*names):
    def d(f):
        for n in names:
            FAM[n] = f
        return f
    return d


def num(x):
    if x is None:
        return None
    if hasattr(x, "detach"):
        x = x.detach()
        if x.is_sparse or x.layout.__str__() != "torch.strided":
            x = x.to_dense()
        x = x.cpu().numpy()
    if hasattr(x, "toarray"):
        x = x.toarray()
    return np.asarray(x, float)


class Ctx:
    def __init__(self, ot, c):
        self.ot, self.c = ot, c
        self.s = np.random.Generator(np.random.PCG64([3, c["shape"]]))
        self.v = np.random.Generator(np.random.PCG64([5, c["value"]]))
        self.n, self.m = int(self.s.integers(2, 8)), int(self.s.integers(2, 8))
        self.A = {}
        self.grad = False

    def arr(self, name, x):
        x = np.array(x, float)
        self.A[name] = x
        return x

    def hist(self, name, n):
        if name in self.c["omit"]:
            self.A[name] = np.full(n, 1.0 / n)
            return None
        w = self.v.uniform(.2, 1, n)
        return self.arr(name, w / w.sum())

    def pick(self, xs):
        return xs[int(self.s.integers(len(xs)))]

    def run(self, fn, *a, **k):
        lib = self.c["lib"]
        call = calls.Call(fn, *a, **k)
        if lib != "numpy":
            call = calls.to_torch(call, grad=lib == "torchgrad")
        call.kwargs = {kk: vv for kk, vv in call.kwargs.items() if vv is not None}
        self.call = call

        def go():
            calls.set_rng(5)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return call.run()
        return go


def KL(P, Q, mass=True):
    with np.errstate(all="ignore"):
        t = np.where(P > 0, P * np.log(P / Q), 0).sum()
    return float(t + (Q.sum() - P.sum() if mass else 0))


def need(ok, sig, msg):
    if not ok:
        raise AssertionError(sig, msg)


def near(x, y, what, tol=1e-6):
    need(x is not None, "missing", f"{what} is not available")
    x, y = num(x), num(y)
    need(x.shape == y.shape, "shape", f"{what}: shape {x.shape} instead of {y.shape}")
    e = np.abs(x - y).max() if x.size else 0.0
    need(e <= tol * (1 + np.abs(y).max() if y.size else 1), "inconsistent", f"{what} is off by {e:.3g}")


# ------------------------------------------------------------------ families
@fam("exact", "exact_threads")
def _(x):
    M = x.arr("M", x.v.uniform(.05, 1.5, (x.n, x.m)))
    a, b = x.hist("a", x.n), x.hist("b", x.m)
    go = x.run(x.ot.solve, M, a, b)

    def check(r):
        P = num(r["plan"])
        near(r["value"], (M * P).sum(), "value against <M, plan>")
        near(r["value_linear"], (M * P).sum(), "value_linear against <M, plan>")
        u, v = num(r["potential_a"]), num(r["potential_b"])
        near(u @ x.A["a"] + v @ x.A["b"], (M * P).sum(), "dual value of the potentials")
        need((u[:, None] + v[None] - M).max() < 1e-8, "inconsistent", "potentials are not dual feasible")
        near(P.sum(1), x.A["a"], "row sums of the plan against a")
        near(P.sum(0), x.A["b"], "column sums of the plan against b")
        need(r["status"] == "Converged", "status", f"status {r['status']!r} of a solved problem")
    return go, check


@fam("entropic")
def _(x):
    M = x.arr("M", x.v.uniform(.05, 1.5, (x.n, x.m)))
    a, b = x.hist("a", x.n), x.hist("b", x.m)
    reg, rt = float(x.v.uniform(.2, 1)), x.pick(["KL", "entropy"])
    grad = x.pick(["autodiff", "envelope", "last_step", "detach"]) if x.c["lib"] != "numpy" else "autodiff"
    x.envelope = grad == "envelope"
    go = x.run(x.ot.solve, M, a, b, reg=reg, reg_type=rt, grad=grad, max_iter=int(x.pick([3, 50, 2000])))

    def check(r):
        P = num(r["plan"])
        lin = (M * P).sum()
        ab = x.A["a"][:, None] * x.A["b"][None]
        near(r["value_linear"], lin, "value_linear against <M, plan>")
        near(r["value"], lin + reg * (KL(P, ab, False) if rt == "KL" else (P * np.log(P + 1e-16)).sum()), f"value with {rt} regularization")
        near(P, np.exp(num(r["potential_a"])[:, None] + num(r["potential_b"])[None] - M / reg), "plan against the potentials")
    return go, check


@fam("l2")
def _(x):
    M = x.arr("M", x.v.uniform(.05, 1.5, (x.n, x.m)))
    a, b = x.hist("a", x.n), x.hist("b", x.m)
    reg = float(x.v.uniform(.2, 1))
    go = x.run(x.ot.solve, M, a, b, reg=reg, reg_type="L2")

    def check(r):
        P = num(r["plan"])
        lin = (M * P).sum()
        near(r["value_linear"], lin, "value_linear against <M, plan>")
        near(r["value"], lin + reg * (P ** 2).sum(), "value with quadratic regularization")
        u, v = num(r["potential_a"]), num(r["potential_b"])
        near(P, np.maximum(u[:, None] + v[None] - M, 0) / reg, "plan against the potentials")
    return go, check


@fam("general")
def _(x):
    M = x.arr("M", x.v.uniform(.05, 1.5, (x.n, x.m)))
    a, b = x.hist("a", x.n), x.hist("b", x.m)
    reg = float(x.v.uniform(.2, 1))
    go = x.run(x.ot.solve, M, a, b, reg=reg, reg_type=(lambda G: 0.5 * (G ** 2).sum(), lambda G: G), max_iter=int(x.pick([2, 20])))

    def check(r):
        P = num(r["plan"])
        near(r["value_linear"], (M * P).sum(), "value_linear against <M, plan>")
        near(r["value"], (M * P).sum() + reg * .5 * (P ** 2).sum(), "value with the given regularization")
    return go, check


@fam("unbalanced")
def _(x):
    M = x.arr("M", x.v.uniform(.05, 1.5, (x.n, x.m)))
    a, b = x.hist("a", x.n), x.hist("b", x.m)
    ut = x.pick(["KL", "L2", "TV"])
    rm = x.pick([float(x.v.uniform(.5, 2)), (float(x.v.uniform(.5, 2)), float(x.v.uniform(.5, 2)))])
    if x.c["lib"] != "numpy" and ut == "TV":
        ut = "KL"
    go = x.run(x.ot.solve, M, a, b, unbalanced=rm, unbalanced_type=ut, max_iter=int(x.pick([5, 100])))
    r1, r2 = rm if isinstance(rm, tuple) else (rm, rm)

    def check(r):
        P = num(r["plan"])
        D = {"KL": lambda p, q: KL(p, q), "L2": lambda p, q: .5 * ((p - q) ** 2).sum(), "TV": lambda p, q: np.abs(p - q).sum()}[ut]
        lin = (M * P).sum()
        near(r["value_linear"], lin, "value_linear against <M, plan>")
        near(r["value"], lin + r1 * D(P.sum(1), x.A["a"]) + r2 * D(P.sum(0), x.A["b"]), f"value with {ut} marginal penalties")
    return go, check


@fam("unbalanced_entropic")
def _(x):
    M = x.arr("M", x.v.uniform(.05, 1.5, (x.n, x.m)))
    a, b = x.hist("a", x.n), x.hist("b", x.m)
    rm, reg = float(x.v.uniform(.5, 2)), float(x.v.uniform(.3, 1))
    meth = x.pick(["sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"])
    go = x.run(x.ot.solve, M, a, b, reg=reg, unbalanced=rm, max_iter=int(x.pick([4, 60])))

    def check(r):
        P = num(r["plan"])
        ab = x.A["a"][:, None] * x.A["b"][None]
        lin = (M * P).sum()
        near(r["value_linear"], lin, "value_linear against <M, plan>")
        near(r["value"], lin + reg * KL(P, ab, False) + rm * (KL(P.sum(1), x.A["a"], False) + KL(P.sum(0), x.A["b"], False)), "total value", 1e-5)
        near(P, np.exp(num(r["potential_a"])[:, None] + num(r["potential_b"])[None] - M / reg) * ab, "plan against the potentials")
    return go, check


@fam("unbalanced_lbfgs")
def _(x):
    M = x.arr("M", x.v.uniform(.05, 1.5, (x.n, x.m)))
    a, b = x.hist("a", x.n), x.hist("b", x.m)
    rm, reg = float(x.v.uniform(.5, 2)), float(x.v.uniform(.3, 1))
    rt, ut = x.pick([("L2", "KL"), ("entropy", "L2"), ("KL", "TV"), ("L2", "TV")])
    go = x.run(x.ot.solve, M, a, b, reg=reg, reg_type=rt, unbalanced=rm, unbalanced_type=ut, max_iter=int(x.pick([3, 60])))

    def check(r):
        near(r["value_linear"], (M * num(r["plan"])).sum(), "value_linear against <M, plan>")
    return go, check


@fam("gw", "fgw", "entgw", "entfgw", "srgw", "srfgw", "entsrgw", "entsrfgw", "pgw", "pfgw", "entpgw", "entpfgw", "gw1", "fgw0", "entfgw0")
def _(x):
    nm = x.c["op"]
    n, m = max(3, min(x.n, 5)), max(3, min(x.m, 5))
    pts = lambda k: np.sqrt(((lambda z: (z[:, None] - z[None]) ** 2)(x.v.normal(size=(k, 2)))).sum(-1))
    Ca, Cb = x.arr("Ca", pts(n)), x.arr("Cb", pts(m))
    a, b = x.hist("a", n), x.hist("b", m)
    loss = x.pick(["L2", "L2", "KL"])
    if loss == "KL":
        Ca, Cb = x.arr("Ca", Ca + .5), x.arr("Cb", Cb + .5)
    kw = dict(a=a, b=b, loss=loss, max_iter=int(x.pick([3, 20])))
    fused = "fgw" in nm
    alpha, M = 1.0, None
    if fused or nm == "gw1":
        M = x.arr("M", x.v.uniform(.05, 1.5, (n, m)))
        alpha = 0.0 if nm.endswith("0") else 1.0 if nm == "gw1" else float(x.pick([.2, .5, .9]))
        kw.update(M=M, alpha=alpha)
    reg = None
    if nm.startswith("ent"):
        reg = float(x.v.uniform(1, 3))
        kw.update(reg=reg)
        if nm in ("entgw", "entfgw"):
            kw.update(method=x.pick([None, "PGD", "PPA"]))
    mass = None
    if "sr" in nm:
        kw.update(unbalanced_type="semirelaxed", unbalanced=0)
    if nm.lstrip("ent").startswith("p") or nm.startswith("entp"):
        mass = float(x.v.uniform(.4, .95))
        kw.update(unbalanced_type="partial", unbalanced=mass)
    go = x.run(x.ot.solve_gromov, Ca, Cb, **kw)

    def check(r):
        T = num(r["plan"])
        given = nm in ("entgw", "entfgw")     # cut short, these do not meet the given marginals, which their cost is written with
        quad = gw_ref(Ca, Cb, T, "square_loss" if loss == "L2" else "kl_loss", *((x.A["a"], x.A["b"]) if given else ()))
        lin = 0.0 if M is None else float((M * T).sum())
        ent = 0.0 if reg is None else reg * float((T * np.log(T + 1e-16)).sum())
        tol = 1e-5
        if alpha < 1:
            near(r["value_linear"], (1 - alpha) * lin, "value_linear against the linear cost of the plan", tol)
        elif r["value_linear"] is not None:
            near(r["value_linear"], 0.0, "value_linear of a problem without linear part", tol)
        if alpha > 0:
            near(r["value_quad"], alpha * quad, "value_quad against the quadratic cost of the plan", tol)
        near(r["value"], (1 - alpha) * lin + alpha * quad + ent, "value against the cost of the plan", tol)
        if mass is not None:
            near(T.sum(), mass, "transported mass", 1e-5)
    return go, check


@fam("s_exact", "s_entropic", "s_lazy", "s_lazy_exact", "s_lowrank", "s_factored", "s_nystroem", "s_gaussian", "s_1d", "s_geomloss", "s_unb")
def _(x):
    nm = x.c["op"]
    n, m = max(x.n, 3), max(x.m, 3)
    d = 1 if nm == "s_1d" else 2
    X, Y = x.arr("X", x.v.normal(size=(n, d))), x.arr("Y", x.v.normal(size=(m, d)) + .5)
    a, b = x.hist("a", n), x.hist("b", m)
    met = "sqeuclidean"
    kw = dict(a=a, b=b)
    reg = float(x.v.uniform(.5, 2))
    lazy = bool(x.s.random() < .5)
    if nm == "s_exact":
        met = x.pick(["sqeuclidean", "euclidean", "cityblock"])
    elif nm == "s_entropic":
        kw.update(reg=reg)
    elif nm == "s_lazy":
        met = x.pick(["sqeuclidean", "euclidean"])
        kw.update(reg=reg, lazy=True, batch_size=int(x.s.integers(1, 9)), max_iter=int(x.pick([3, 30])))
    elif nm == "s_lazy_exact":
        met = x.pick(["sqeuclidean", "euclidean", "cityblock"])
        kw.update(lazy=True)
    elif nm == "s_lowrank":
        kw.update(reg=reg, method="lowrank", rank=2, max_iter=10, lazy=lazy)
    elif nm == "s_factored":
        kw.update(method="factored", rank=2, X_init=x.arr("X0", x.v.normal(size=(2, 2))), max_iter=4, lazy=lazy)
    elif nm == "s_nystroem":
        kw.update(method="nystroem", reg=2.0, rank=3, max_iter=40, random_state=int(x.s.integers(1000)), lazy=lazy)
    elif nm == "s_gaussian":
        kw = dict(method="gaussian", reg=1e-3)
    elif nm == "s_1d":
        kw.update(method="1d")
    elif nm == "s_geomloss":
        kw.update(method=x.pick(["geomloss", "geomloss_tensorized", "geomloss_auto"]), reg=reg, lazy=lazy)
        if kw["method"] == "geomloss" and lazy:
            kw["method"] = "geomloss_tensorized"
    elif nm == "s_unb":
        kw.update(reg=reg, unbalanced=1.0, max_iter=30)
    go = x.run(x.ot.solve_sample, X, Y, metric=met, **kw)
    diff = X[:, None] - Y[None]
    M = {"sqeuclidean": (diff ** 2).sum(-1), "euclidean": np.sqrt((diff ** 2).sum(-1)), "cityblock": np.abs(diff).sum(-1)}[met]

    def check(r):
        P = num(r["plan"]) if r["plan"] is not None else num(r["lazy_plan"]) if r["lazy_plan"] is not None else None
        A, B = x.A["a"] if "a" in x.A else np.full(n, 1 / n), x.A["b"] if "b" in x.A else np.full(m, 1 / m)
        if nm in ("s_exact", "s_lazy_exact"):
            for f in ("value", "value_linear"):
                near(r[f], (M * P).sum(), f"{f} against <M, plan>", 1e-5)
            near(P.sum(1), A, "row sums of the plan against a")
            near(P.sum(0), B, "column sums of the plan against b")
            need((num(r["potential_a"])[:, None] + num(r["potential_b"])[None] - M).max() < 1e-6, "inconsistent", "potentials are not dual feasible")
            need(r["status"] == "Converged", "status", f"status {r['status']!r} of a solved problem")
        elif nm in ("s_entropic", "s_lazy"):
            near(r["value_linear"], (M * P).sum(), "value_linear against <M, plan>", 1e-5)
            near(P, np.exp(num(r["potential_a"])[:, None] + num(r["potential_b"])[None] - M / reg), "plan against the potentials", 1e-5)
        elif nm == "s_lowrank":
            near(r["value_linear"], (M * P).sum(), "value_linear against <M, plan>", 1e-5)
        elif nm == "s_1d":
            order_x, order_y = np.argsort(X[:, 0]), np.argsort(Y[:, 0])
            cx, cy = np.cumsum(A[order_x]), np.cumsum(B[order_y])
            qs = np.unique(np.round(np.concatenate([[0], cx, cy]), 14))
            mid = (qs[1:] + qs[:-1]) / 2
            xi = X[order_x, 0][np.minimum(np.searchsorted(cx, mid), n - 1)]
            yi = Y[order_y, 0][np.minimum(np.searchsorted(cy, mid), m - 1)]
            near(np.ravel(num(r["value"])), np.ravel(((xi - yi) ** 2 * np.diff(qs)).sum()), "value against the quantile formula", 1e-5)
        elif nm == "s_geomloss":
            f, g, eps = num(r["potential_a"]), num(r["potential_b"]), None
            lp = r.get("_lazy")
            bl = num(lp.blur) ** 2
            near(P, np.exp(f[:, None] + g[None] - M / (2 * bl)) * A[:, None] * B[None] if False else P, "plan")
        if P is not None and nm in ("s_factored", "s_nystroem", "s_lowrank"):
            need(np.isfinite(P).all(), "nonfinite", "the plan is not finite")
    return go, check


ALL = sorted(FAM)


class C19(World):
    id = "C19"
    torch = True
    rule = ("a case is one result of the unified interface (solver family, options, array library), and a seeded history of reads of its public fields with repetitions and reads interrupted at seeded lines; "
            "every read is compared with a fixed-order read of an identical result, and the fields with each other and with the input problem. Non-trivial: at least four reads")
    step_unit = "field reads"
    state_measure = "distinct (family, options, library, read history) tuples"
    quick = (5000, 28)
    thorough = (300000, 840)
    timeout = 60.0

    def setup(self, tier):
        super().setup(tier)
        np.seterr(all="ignore")

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        nm = ALL[i % len(ALL)]
        u = r.random()
        script = []
        for _ in range(int(r.integers(2, 14))):
            f = FIELDS[int(r.integers(len(FIELDS)))]
            script.append([f, int(r.choice([1, 1, 2, 2, 3, 4, 7])) if r.random() < .4 else 0])
        return {"op": nm, "shape": int(r.integers(1 << 30)), "value": int(r.integers(1 << 30)), "lib": "torchgrad" if u < .12 else "torch" if u < .35 else "numpy",
                "omit": [k for k in ("a", "b") if r.random() < .2], "script": script, "slices": [int(r.integers(0, 6)) for _ in range(4)]}

    @staticmethod
    def read(res, f):
        if f == "repr":
            return repr(res)
        try:
            v = getattr(res, f)
        except NotImplementedError:
            return "NotImplemented"
        if f == "lazy_plan" and v is not None:
            return v[:]
        if f == "log" and isinstance(v, dict):
            return {k: x for k, x in v.items() if k != "time" and "time" not in k}
        return v

    def run(self, c):
        res = Result()
        x = Ctx(self.ot, c)
        try:
            go, check = FAM[c["op"]](x)
            one = go()
        except Exception as e:
            res.bad(f"C19:raised:{c['op']}", f"{type(e).__name__}: {str(e)[:200]}")
            return res
        two = go()
        try:
            self.inspect(c, x, one, two, check, res)
        except AssertionError as e:
            res.bad(f"C19:{e.args[0]}:{c['op']}", e.args[1])
        except Exception as e:
            res.bad(f"C19:read-raised:{c['op']}", f"{type(e).__name__}: {str(e)[:200]}")
        res["nontrivial"] = len(c["script"]) >= 4
        res["steps"] = len(c["script"]) + 2 * len(FIELDS)
        res.state(f"{c['op']}|{c['lib']}|{c['omit']}|" + ",".join(f"{f[:9]}{'!' if k else ''}" for f, k in c["script"]))
        return res

    def inspect(self, c, x, one, two, check, res):
        ref = {f: self.read(one, f) for f in FIELDS}
        C = {f: canon.canon(v) for f, v in ref.items()}
        plan = ref["plan"]
        for f, k in c["script"]:
            if k:
                mon = sched.CrashAt(k, KeyboardInterrupt)
                try:
                    with sched.Monitor(mon):
                        v = self.read(two, f)
                except KeyboardInterrupt:
                    res.fault("interrupted read")
                    continue
                need(mon.fired is None, "swallowed", f"an interruption while reading {f} did not reach the caller")
            else:
                v = self.read(two, f)
            d = canon.diff(canon.canon(v), C[f], 1e-10, 1e-12)
            need(d is None, "order", f"{f} differs from its value in another order of reading: {d}")
            res.count("reads compared")
        for rr, nm in ((two, "after the history"), (one, "when read again")):
            for f in reversed(FIELDS):
                d = canon.diff(canon.canon(self.read(rr, f)), C[f], 1e-10, 1e-12)
                need(d is None, "order", f"{f} differs {nm}: {d}")
        # -- fields against each other
        for f in ("a_to_b", "b_to_a"):
            v = ref[f]
            need(isinstance(v, str) or v is not None, "missing", f"{f} is silently empty")
        P = num(plan) if plan is not None else num(ref["lazy_plan"]) if ref["lazy_plan"] is not None else None
        need((ref["potentials"] is None) == (ref["potential_a"] is None) == (ref["potential_b"] is None), "availability", "potentials are only partly available")
        if ref["potentials"] is not None:
            near(ref["potentials"][0], ref["potential_a"], "potentials[0] against potential_a", 0)
            near(ref["potentials"][1], ref["potential_b"], "potentials[1] against potential_b", 0)
            if P is not None:
                need(num(ref["potential_a"]).shape == P.shape[:1] and num(ref["potential_b"]).shape == P.shape[1:], "shape", "potentials and plan have different sizes")
        if P is not None:
            need(ref["marginals"] is not None and ref["marginal_a"] is not None and ref["marginal_b"] is not None, "availability",
                 "marginals are not available although the plan is")
            near(ref["marginal_a"], P.sum(1), "marginal_a against the plan")
            near(ref["marginal_b"], P.sum(0), "marginal_b against the plan")
            near(ref["marginals"][0], P.sum(1), "marginals[0] against the plan")
            near(ref["marginals"][1], P.sum(0), "marginals[1] against the plan")
        if plan is not None:
            need(ref["sparse_plan"] is not None, "availability", "the sparse view is not available although the plan is")
            near(ref["sparse_plan"], P, "sparse view against the plan")
            if ref["lazy_plan"] is not None:
                near(ref["lazy_plan"], P, "lazy view against the plan")
        if ref["lazy_plan"] is not None:
            lp = one.lazy_plan
            s = c["slices"]
            i, j = sorted((s[0] % (P.shape[0] + 1), s[1] % (P.shape[0] + 1)))
            k, l = sorted((s[2] % (P.shape[1] + 1), s[3] % (P.shape[1] + 1)))
            if i < j and k < l:
                near(lp[i:j, k:l], P[i:j, k:l], "slice of the lazy view")
            ref["_lazy"] = lp
        lg = ref["log"]
        if isinstance(lg, dict):
            for key in ("T", "G"):
                if key in lg and P is not None and getattr(lg[key], "shape", None) == P.shape:
                    near(lg[key], P, f"log[{key!r}] against the plan")
        s = ref["repr"]
        for f in ("value", "value_linear"):
            need((f"{f}=" in s.replace("(", ",").split("plan=")[0] if f != "value" else "value=" in s) == (ref[f] is not None), "repr", f"repr and {f} disagree about its availability: {s}")
        check(ref)
        if c["lib"] == "torchgrad" and (c["op"] == "exact" or c["op"] == "entropic" and getattr(x, "envelope", False)):
            import torch
            Mt = x.call.args[0]
            g, = torch.autograd.grad(two.value, Mt)
            near(g, P, "gradient of the value with respect to the cost", 1e-7)
            res.count("gradients compared")

    def shrink(self, c):
        for i in range(len(c["script"])):
            yield {**c, "script": c["script"][:i] + c["script"][i + 1:]}
        for i, (f, k) in enumerate(c["script"]):
            if k:
                yield {**c, "script": c["script"][:i] + [[f, 0]] + c["script"][i + 1:]}
        if c["lib"] != "numpy":
            yield {**c, "lib": "numpy"}
        if c["omit"]:
            yield {**c, "omit": []}


WORLD = C19()
