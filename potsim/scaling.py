"""Entropic scaling solvers, as functions of an iteration limit, for the
simulation of numerical breakdown, with reference iterations in the log domain
written from the papers' formulas."""
import numpy as np
from scipy.special import logsumexp as lse

SCALING = {}


class P:
    """go(k, **options) -> dict of named arrays; plan(out); ref(k) -> array to
    compare with out[main]; true_err(out): how far the result is from what the
    solver's success claims; roll: promises to roll back."""

    def __init__(self, go, main, ref=None, true_err=None, tol=None, roll=False, logdom=False, tau=None, log_finite=(), quiet=False):
        self.__dict__.update(locals())


def reg(name, **meta):
    def deco(f):
        f.meta = meta
        SCALING[name] = f
        return f
    return deco


class D:
    """the numbers of one problem"""

    def __init__(self, ot, shape, scale, relreg, zeros, wide):
        self.ot = ot
        s = np.random.Generator(np.random.PCG64([3, shape]))
        self.s = s
        self.n, self.m = int(s.integers(2, 8)), int(s.integers(2, 8))
        self.k = int(s.integers(2, 4))
        lo = 0.1 if not wide else 0.0
        self.a = s.uniform(0.2, 1, self.n); self.a /= self.a.sum()
        self.b = s.uniform(0.2, 1, self.m); self.b /= self.b.sum()
        self.B = s.uniform(0.2, 1, (self.m, self.k)); self.B /= self.B.sum(0)
        self.A = s.uniform(0.2, 1, (self.n, self.k)); self.A /= self.A.sum(0)
        self.w = s.uniform(0.3, 1, self.k); self.w /= self.w.sum()
        M = s.uniform(lo, 1, (self.n, self.m))
        S = s.uniform(lo, 1, (self.n, self.n)); S = (S + S.T) / 2
        np.fill_diagonal(S, 0)
        if wide and s.random() < 0.3:
            M = M ** 4
        self.M, self.S = M * scale, S * scale
        if zeros:
            i = int(s.integers(self.n))
            self.A[i] = 0; self.A /= self.A.sum(0)
            self.B[int(s.integers(self.m))] = 0; self.B /= self.B.sum(0)
            self.a[int(s.integers(self.n))] = 0
            self.b[int(s.integers(self.m))] = 0
            self.a /= self.a.sum(); self.b /= self.b.sum()
        self.reg = scale / relreg              # relreg = largest cost / regularisation
        self.rm = (scale * float(s.uniform(0.2, 3)), scale * float(s.uniform(0.2, 3)))
        if s.random() < 0.3:
            self.rm = (self.rm[0], self.rm[0])
        self.x, self.y = s.normal(size=(self.n, 2)), s.normal(size=(self.m, 2))
        self.scale = scale


# ------------------------------------------------------------- reference steps
def ref_sinkhorn(a, b, M, r, k):
    with np.errstate(all="ignore"):
        la, lb, Mr = np.log(a), np.log(b), -M / r
        u = np.zeros(len(a))
        for _ in range(k):
            v = lb - lse(Mr + u[:, None], axis=0)
            u = la - lse(Mr + v[None], axis=1)
        return np.exp(Mr + u[:, None] + v[None])


def ref_lazy(a, b, M, r, k):
    """the same iteration, starting with the first potential"""
    with np.errstate(all="ignore"):
        g = np.zeros(len(b))
        for _ in range(k):
            f = np.log(a) - lse(g[None] - M / r, axis=1)
            g = np.log(b) - lse(f[:, None] - M / r, axis=0)
        return np.exp(f[:, None] + g[None] - M / r)


def ref_unb(a, b, M, r, r1, r2, c, k):
    lK = -M / r + np.log(c)
    f1 = r1 / (r1 + r) if np.isfinite(r1) else 1.0
    f2 = r2 / (r2 + r) if np.isfinite(r2) else 1.0
    v = np.zeros(len(b))
    for _ in range(k):
        u = f1 * (np.log(a) - lse(lK + v[None], axis=1))
        v = f2 * (np.log(b) - lse(lK + u[:, None], axis=0))
    return np.exp(lK + u[:, None] + v[None])


def ref_bar(A, M, r, w, k):
    """iterative Bregman projections, the scalings starting from a constant"""
    lK = -M / r
    V = np.full_like(A, -np.log(len(A)))
    for _ in range(k):
        U = np.log(A) - lse(lK[:, :, None] + V[None], axis=1)
        KtU = lse(lK[:, :, None] + U[:, None], axis=0)
        q = (KtU * w).sum(1)
        V = q[:, None] - KtU
    return np.exp(q)


def ref_bar_unb(A, M, r, rm, w, k, v0):
    f = rm / (rm + r)
    lK = -M / r
    V = np.full_like(A, v0)
    for _ in range(k):
        U = f * (np.log(A) - lse(lK[:, :, None] + V[None], axis=1))
        KtU = lse(lK[:, :, None] + U[:, None], axis=0)
        q = np.log((np.exp((1 - f) * KtU) * w).sum(1)) / (1 - f)
        V = f * (q[:, None] - KtU)
    return np.exp(q)


def marg(a, b):
    return lambda o: max(np.abs(o["plan"].sum(1) - a).max(), np.abs(o["plan"].sum(0) - b).max())


# ------------------------------------------------------------------- balanced
def _plan(res, keys=()):
    G, log = res
    return dict({"plan": G}, **{k: log[k] for k in keys if k in log})


@reg("sinkhorn_knopp")
def _(d):
    def go(k, **o):
        return _plan(d.ot.bregman.sinkhorn_knopp(d.a_, d.b_, d.M_, d.reg, numItermax=k, log=True, **o), ("u", "v"))
    return P(go, "plan", lambda k: ref_sinkhorn(d.a, d.b, d.M, d.reg, k), marg(d.a, d.b), 1e-9, roll=True)


@reg("sinkhorn_knopp several histograms")
def _(d):
    def go(k, **o):
        r, l = d.ot.bregman.sinkhorn_knopp(d.a_, d.B_, d.M_, d.reg, numItermax=k, log=True, **o)
        return {"loss": r, "u": l["u"], "v": l["v"]}

    def ref(k):
        return np.array([(ref_sinkhorn(d.a, d.B[:, j], d.M, d.reg, k) * d.M).sum() for j in range(d.k)])

    def err(o):
        K = np.exp(-d.M / d.reg)
        return max(np.abs((o["u"][:, j, None] * K * o["v"][None, :, j]).sum(0) - d.B[:, j]).max() for j in range(d.k))
    return P(go, "loss", ref, err, 1e-9, roll=True)


@reg("sinkhorn_stabilized")
def _(d):
    def go(k, tau=1e3, **o):
        return _plan(d.ot.bregman.sinkhorn_stabilized(d.a_, d.b_, d.M_, d.reg, numItermax=k, tau=tau, log=True, **o), ("alpha", "beta", "logu", "logv"))
    return P(go, "plan", lambda k: ref_sinkhorn(d.a, d.b, d.M, d.reg, k), marg(d.a, d.b), 1e-9, roll=True, tau=(1.01, 2.0, 30.0, 1e3, 1e30))


@reg("sinkhorn_stabilized several histograms")
def _(d):
    def go(k, tau=1e3, **o):
        r, l = d.ot.bregman.sinkhorn_stabilized(d.a_, d.B_, d.M_, d.reg, numItermax=k, tau=tau, log=True, **o)
        return {"loss": r, "logu": l["logu"], "logv": l["logv"]}

    def ref(k):
        return np.array([(ref_sinkhorn(d.a, d.B[:, j], d.M, d.reg, k) * d.M).sum() for j in range(d.k)])
    return P(go, "loss", ref, None, None, roll=True, tau=(1.01, 2.0, 30.0, 1e3, 1e30))


@reg("sinkhorn_log")
def _(d):
    def go(k, **o):
        return _plan(d.ot.bregman.sinkhorn_log(d.a_, d.b_, d.M_, d.reg, numItermax=k, log=True, **o), ("log_u", "log_v"))
    return P(go, "plan", lambda k: ref_sinkhorn(d.a, d.b, d.M, d.reg, k), marg(d.a, d.b), 1e-9, logdom=True)


@reg("sinkhorn_log several histograms")
def _(d):
    def go(k, **o):
        return {"loss": d.ot.bregman.sinkhorn_log(d.a_, d.B_, d.M_, d.reg, numItermax=k, **o)}
    return P(go, "loss", lambda k: np.array([(ref_sinkhorn(d.a, d.B[:, j], d.M, d.reg, k) * d.M).sum() for j in range(d.k)]), logdom=True)


@reg("sinkhorn method=sinkhorn_log")
def _(d):
    def go(k, **o):
        return {"plan": d.ot.sinkhorn(d.a_, d.b_, d.M_, d.reg, method="sinkhorn_log", numItermax=k, **o)}
    return P(go, "plan", lambda k: ref_sinkhorn(d.a, d.b, d.M, d.reg, k), marg(d.a, d.b), 1e-9, logdom=True)


@reg("sinkhorn method=sinkhorn")
def _(d):
    def go(k, **o):
        return {"plan": d.ot.sinkhorn(d.a_, d.b_, d.M_, d.reg, method="sinkhorn", numItermax=k, **o)}
    return P(go, "plan", lambda k: ref_sinkhorn(d.a, d.b, d.M, d.reg, k), marg(d.a, d.b), 1e-9, roll=True)


@reg("solve reg")
def _(d):
    def go(k, stopThr=1e-9, **o):
        r = d.ot.solve(d.M_, d.a_, d.b_, reg=d.reg, reg_type="entropy", max_iter=k, tol=stopThr)
        return {"plan": r.plan, "value": r.value_linear}
    return P(go, "plan", lambda k: ref_sinkhorn(d.a, d.b, d.M, d.reg, k), marg(d.a, d.b), None, logdom=True)


@reg("empirical_sinkhorn lazy")
def _(d):
    M = ((d.x[:, None] - d.y[None]) ** 2).sum(-1)
    r = d.reg / d.scale * M.max()

    def go(k, **o):
        f, g = d.ot.bregman.empirical_sinkhorn(d.x_, d.y_, r, d.a_, d.b_, isLazy=True, batchSize=3, numIterMax=k, **o)
        num = lambda x: np.asarray(x.detach().numpy() if hasattr(x, "detach") else x)  # noqa
        return {"f": f, "g": g, "plan": np.exp(num(f)[:, None] + num(g)[None] - M / r)}

    def err(o):
        T = np.exp(o["f"][:, None] + o["g"][None] - M / r)
        return max(np.abs(T.sum(1) - d.a).max(), np.abs(T.sum(0) - d.b).max())
    return P(go, "plan", lambda k: ref_lazy(d.a, d.b, M, r, k), err, 1e-9, logdom=True)


@reg("sinkhorn_epsilon_scaling")
def _(d):
    def go(k, **o):
        return _plan(d.ot.bregman.sinkhorn_epsilon_scaling(d.a_, d.b_, d.M_, d.reg, numItermax=k, epsilon0=max(d.scale, d.reg), log=True, **o), ("alpha", "beta"))
    return P(go, "plan", None, marg(d.a, d.b), 1e-4, roll=True)


@reg("greenkhorn")
def _(d):
    def go(k, **o):
        return _plan(d.ot.bregman.greenkhorn(d.a_, d.b_, d.M_, d.reg, numItermax=k, log=True, **o))
    return P(go, "plan", None, marg(d.a, d.b), 1e-8)


@reg("sinkhorn_low_rank_kernel")
def _(d):
    def go(k, **o):
        u, v = d.ot.lowrank.sinkhorn_low_rank_kernel(d.L1_, d.L2_, d.a_, d.b_, numItermax=k, **o)
        return {"u": u, "v": v}

    def full(o):
        return o["u"][:, None] * (d.L1 @ d.L2.T) * o["v"][None]

    def err(o):
        return max(np.abs(full(o).sum(1) - d.a).max(), np.abs(full(o).sum(0) - d.b).max())
    return P(go, "u", None, err, 1e-9, roll=True)


# ----------------------------------------------------------------- unbalanced
def _unb(name, meth, hist, reg_type, cmat):
    @reg(name)
    def _(d):
        c = np.random.Generator(np.random.PCG64(5)).uniform(0.3, 1, (d.n, d.m)) if cmat else None
        f = {"knopp": d.ot.unbalanced.sinkhorn_knopp_unbalanced, "stab": d.ot.unbalanced.sinkhorn_stabilized_unbalanced,
             "ti": d.ot.unbalanced.sinkhorn_unbalanced_translation_invariant}[meth]
        rm = d.rm
        if d.s.random() < 0.2:
            rm = (float("inf"), rm[1])
        elif d.s.random() < 0.2:
            rm = (rm[0], float("inf"))

        def go(k, **o):
            o.pop("warn", None)
            r, l = f(d.a_, d.B_ if hist else d.b_, d.M_, d.reg, rm, reg_type, None if c is None else d.lib(c), numItermax=k, log=True, **o)
            return {"loss" if hist else "plan": r, "logu": l["logu"], "logv": l["logv"]}
        if reg_type == "entropy" or hist:
            cc = np.ones((d.n, d.m))
        else:
            cc = c if c is not None else d.a[:, None] * d.b[None]

        def ref(k):
            if hist:
                return np.array([(ref_unb(d.a, d.B[:, j], d.M, d.reg, *rm, cc, k) * d.M).sum() for j in range(d.k)])
            return ref_unb(d.a, d.b, d.M, d.reg, *rm, cc, k)
        def err(o):
            """how far one exact step moves the scalings"""
            lK = -d.M / d.reg + np.log(cc)
            lK = lK[:, :, None]
            la, lb = np.log(d.a)[:, None], np.log(d.B if hist else d.b[:, None])
            u, v = o["logu"].reshape(d.n, -1), o["logv"].reshape(d.m, -1)
            f1, f2 = [x / (x + d.reg) if np.isfinite(x) else 1.0 for x in rm]
            v2 = f2 * (lb - lse(lK + u[:, None], axis=0))
            u2 = f1 * (la - lse(lK + v2[None], axis=1))
            new, old = lK + u2[:, None] + v2[None], lK + u[:, None] + v[None]
            return np.abs(np.exp(new) - np.exp(old)).max() / np.exp(new).max()
        return P(go, "loss" if hist else "plan", None if meth == "ti" else ref, err, 1e-2, roll=True,
                 tau=(1.01, 2.0, 30.0, 1e3, 1e5, 1e30) if meth == "stab" else None)


_unb("unbalanced knopp", "knopp", False, "kl", False)
_unb("unbalanced knopp entropy", "knopp", False, "entropy", False)
_unb("unbalanced knopp reference measure", "knopp", False, "kl", True)
_unb("unbalanced knopp several histograms", "knopp", True, "entropy", False)
_unb("unbalanced stabilized", "stab", False, "kl", False)
_unb("unbalanced stabilized entropy", "stab", False, "entropy", False)
_unb("unbalanced stabilized reference measure", "stab", False, "kl", True)
_unb("unbalanced stabilized several histograms", "stab", True, "entropy", False)
_unb("unbalanced translation invariant", "ti", False, "kl", False)
_unb("unbalanced translation invariant several histograms", "ti", True, "entropy", False)


# ---------------------------------------------------------------- barycenters
def _bar(name, f, ref, **kw):
    @reg(name)
    def _(d):
        def go(k, **o):
            q, l = f(d)(k, o)
            return dict({"q": q}, **{x: l[x] for x in ("logu", "logv") if x in l})
        return P(go, "q", (lambda k: ref(d, k)) if ref else None, None, None, **kw)


_bar("barycenter_stabilized", lambda d: lambda k, o: d.ot.bregman.barycenter_stabilized(d.A_, d.S_, d.reg, weights=d.w_, numItermax=k, log=True, **o),
     lambda d, k: ref_bar(d.A, d.S, d.reg, d.w, k), roll=True, tau=(1.01, 3.0, 1e3, 1e10, 1e30))
_bar("barycenter_unbalanced_stabilized",
     lambda d: lambda k, o: (o.pop("warn", None), d.ot.unbalanced.barycenter_unbalanced_stabilized(d.A_, d.S_, d.reg, d.rm[0], weights=d.w_, numItermax=k, log=True, **o))[1],
     lambda d, k: ref_bar_unb(d.A, d.S, d.reg, d.rm[0], d.w, k, -np.log(d.n)), roll=True, tau=(1.01, 3.0, 1e3, 1e30))
_bar("barycenter_unbalanced_sinkhorn",
     lambda d: lambda k, o: (o.pop("warn", None), d.ot.unbalanced.barycenter_unbalanced_sinkhorn(d.A_, d.S_, d.reg, d.rm[0], weights=d.w_, numItermax=k, log=True, **o))[1],
     lambda d, k: ref_bar_unb(d.A, d.S, d.reg, d.rm[0], d.w, k, 0.0), roll=True)
_bar("barycenter sinkhorn", lambda d: lambda k, o: d.ot.bregman.barycenter(d.A_, d.S_, d.reg, weights=d.w_, numItermax=k, log=True, **o), None)
_bar("barycenter sinkhorn_log", lambda d: lambda k, o: d.ot.bregman.barycenter(d.A_, d.S_, d.reg, weights=d.w_, method="sinkhorn_log", numItermax=k, log=True, **o), None, logdom=True)
_bar("barycenter_debiased", lambda d: lambda k, o: d.ot.bregman.barycenter_debiased(d.A_, d.S_, d.reg, weights=d.w_, numItermax=k, log=True, **o), None)
_bar("barycenter_debiased log", lambda d: lambda k, o: d.ot.bregman.barycenter_debiased(d.A_, d.S_, d.reg, weights=d.w_, method="sinkhorn_log", numItermax=k, log=True, **o), None, logdom=True)
_bar("convolutional_barycenter2d", lambda d: lambda k, o: d.ot.bregman.convolutional_barycenter2d(d.I_, d.reg / d.scale, weights=d.w_, numItermax=k, log=True, **o), None)
_bar("convolutional_barycenter2d log", lambda d: lambda k, o: d.ot.bregman.convolutional_barycenter2d(d.I_, d.reg / d.scale, weights=d.w_, method="sinkhorn_log", numItermax=k, log=True, **o), None, logdom=True)
_bar("convolutional_barycenter2d_debiased log", lambda d: lambda k, o: d.ot.bregman.convolutional_barycenter2d_debiased(d.I_, d.reg / d.scale, weights=d.w_, method="sinkhorn_log", numItermax=k, log=True, **o), None, logdom=True)


# -------------------------------------------------------------------- partial
@reg("entropic_partial_wasserstein")
def _(d):
    def go(k, **o):
        o.pop("warn", None)
        r, l = d.ot.partial.entropic_partial_wasserstein(d.a_, d.b_, d.M_, d.reg, m=0.6, numItermax=k, log=True, **o)
        return {"plan": r, "dist": l["partial_w_dist"]}
    return P(go, "plan", None, None, None, roll=True)


@reg("entropic_partial_wasserstein_logscale")
def _(d):
    def go(k, **o):
        o.pop("warn", None)
        r, l = d.ot.partial.entropic_partial_wasserstein_logscale(d.a_, d.b_, d.M_, d.reg, m=0.6, numItermax=k, log=True, **o)
        return {"plan": r, "dist": l["partial_w_dist"]}
    return P(go, "plan", None, None, None, roll=True, logdom=True)


@reg("unmix")
def _(d):
    def go(k, **o):
        h0 = np.ones(d.k) / d.k
        q, l = d.ot.bregman.unmix(d.lib(d.A[:, 0]), d.A_, d.S_, d.lib(np.ones((d.k, d.k)) * d.scale), d.lib(h0), d.reg, d.reg, 0.1, numItermax=k, log=True, **o)
        return {"q": q}
    return P(go, "q", None, None, None)


def build(ot, name, shape, scale, relreg, zeros=False, wide=False, lib=lambda x: x):
    d = D(ot, shape, scale, relreg, zeros, wide)
    r = np.random.Generator(np.random.PCG64([4, shape]))
    d.L1, d.L2 = r.uniform(0.1, 1, (d.n, 2)) ** min(relreg, 60), r.uniform(0.1, 1, (d.m, 2)) ** min(relreg, 60)
    d.I = r.uniform(0.05, 1, (d.k, 5, 4)); d.I /= d.I.sum((1, 2), keepdims=True)
    for k in ("a", "b", "B", "A", "w", "M", "S", "x", "y", "L1", "L2", "I"):
        setattr(d, k + "_", lib(getattr(d, k)))
    d.lib = lib
    return SCALING[name](d)
