"""What must hold for the result of an iterative solver wherever it stops.

judge(call, value, cut) yields (kind, text).  Everything is recomputed here from
the arguments and the returned arrays with reference formulas of its own."""
import inspect

import numpy as np

MT = 1e-7          # marginals maintained exactly at every step
VT = 1e-7          # values recomputed from the plan


def bound(call):
    ba = inspect.signature(call.fn).bind(*call.args, **call.kwargs)
    ba.apply_defaults()
    d = dict(ba.arguments)
    d.update(d.pop("kwargs", {}))
    return d


def num(x):
    if hasattr(x, "detach"):
        x = x.detach()
        x = (x.to_dense() if x.layout != __import__("torch").strided else x).numpy()
    if hasattr(x, "toarray"):
        x = x.toarray()
    return np.asarray(x)


def finite(x, path="result", depth=0):
    """path of the first entry that is not finite"""
    if depth > 5 or x is None or isinstance(x, (str, bytes, bool)) or callable(x):
        return None
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("res", "backend", "lazy_plan", "hess_inv"):
                continue
            r = finite(v, f"{path}[{k!r}]", depth + 1)
            if r:
                return r
        return None
    if isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            r = finite(v, f"{path}[{i}]", depth + 1)
            if r:
                return r
        return None
    if isinstance(x, (int, float, np.generic, np.ndarray)) or hasattr(x, "detach"):
        y = num(x)
        if y.dtype.kind in "fc" and not np.all(np.isfinite(y)):
            return path
    return None


# ----------------------------------------------------------------- references
def gw_ref(C1, C2, T, loss, p=None, q=None):
    p = T.sum(1) if p is None else p
    q = T.sum(0) if q is None else q
    if loss == "square_loss":
        f1, f2, h1, h2 = C1 ** 2, C2 ** 2, C1, 2 * C2
    else:
        f1, f2, h1, h2 = C1 * np.log(C1 + 1e-15) - C1, C2, C1, np.log(C2 + 1e-15)
    tens = (f1 @ p)[:, None] + (f2 @ q)[None, :] - h1 @ T @ h2.T
    return float((tens * T).sum())


def kl(p, q, mass=False):
    r = float(np.sum(p * np.log(p / q + 1e-16)))
    return r + float(np.sum(q - p)) if mass else r


def hist(x, n):
    x = None if x is None else num(x)
    return np.full(n, 1.0 / n) if x is None or len(x) == 0 else x


def close(x, y, tol=VT, scale=1.0):
    return abs(float(x) - float(y)) <= tol * max(abs(float(x)), abs(float(y)), scale)


class J:
    """accumulates findings"""

    def __init__(self, call, value):
        self.call, self.v, self.P = call, value, bound(call)
        self.bad = []

    def __getitem__(self, k):
        x = self.P.get(k)
        return num(x) if isinstance(x, np.ndarray) or hasattr(x, "detach") else x

    def say(self, kind, txt):
        self.bad.append((kind, txt))

    def parts(self):
        v = self.v
        if isinstance(v, (tuple, list)) and len(v) and isinstance(v[-1], dict):
            return list(v[:-1]), v[-1]
        return [v], {}

    def shape(self, T, shp, what="plan"):
        if tuple(np.shape(T)) != tuple(shp):
            self.say("shape", f"{what} has shape {np.shape(T)}, expected {tuple(shp)}")
            return False
        return True

    def nonneg(self, T, what="plan"):
        if T.size and T.min() < -1e-10:
            self.say("negative", f"{what} has entry {T.min():.3g}")

    def rows(self, T, a, tol=MT, what="rows"):
        e = np.abs(T.sum(1) - a).max()
        if not e <= tol * max(1, a.sum()):
            self.say("marginal", f"{what}: row sums off by {e:.3g}")

    def cols(self, T, b, tol=MT, what="columns"):
        e = np.abs(T.sum(0) - b).max()
        if not e <= tol * max(1, b.sum()):
            self.say("marginal", f"{what}: column sums off by {e:.3g}")

    def value(self, got, ref, what, tol=VT, scale=1e-2):
        if not close(got, ref, tol, scale):
            self.say("value", f"{what} is {float(got):.10g}, recomputed from the returned plan {ref:.10g}")

    def decreasing(self, xs, what, tol=1e-9):
        xs = [float(x) for x in xs]
        for i in range(1, len(xs)):
            if xs[i] > xs[i - 1] + tol * max(1, abs(xs[i - 1])):
                self.say("increase", f"{what} increases from {xs[i - 1]!r} to {xs[i]!r} at step {i}")
                return


H = {}


def handles(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


def judge(call, value, warns=()):
    j = J(call, value)
    j.warns = [w for w in warns]
    j.numeric = any("numerical" in w.lower() or "machine precision" in w.lower() for w in j.warns)
    p = finite(value)
    if p:
        j.say("not-finite", f"{p} has entries that are not finite")
        return j.bad
    f = H.get(call.fn.__name__)
    if f is not None:
        f(j)
    return j.bad


# ------------------------------------------------------------------- balanced
@handles("emd")
def _(j):
    (T,), lg = j.parts()
    T = num(T)
    j.shape(T, (len(j["a"]), len(j["b"])))
    j.nonneg(T)
    if "cost" in lg and not hasattr(j.P["M"], "tocoo"):
        j.value(lg["cost"], float((T * j["M"]).sum()), "log cost", scale=1)


@handles("sinkhorn", "sinkhorn_knopp", "sinkhorn_log", "greenkhorn", "sinkhorn_stabilized", "sinkhorn_epsilon_scaling", "empirical_sinkhorn", "empirical_sinkhorn_nystroem")
def _(j):
    if j.call.fn.__name__ == "empirical_sinkhorn" and j["isLazy"]:
        return lazy_sinkhorn(j)
    (T,), lg = j.parts() if not (j.call.fn.__name__.startswith("empirical") and not isinstance(j.v, (tuple, list))) else ([j.v], {})
    T = num(T) if not hasattr(T, "shape") or T.__class__.__name__ != "LazyTensor" else num(T[:])
    name = j.call.fn.__name__
    if name.startswith("empirical"):
        n, m = len(j["X_s"]), len(j["X_t"])
        M = None
    else:
        M = j["M"]
        n, m = M.shape
    if T.ndim == 1:       # several histograms: values
        return
    a, b = hist(j["a"], n), hist(j["b"], m)
    if not j.shape(T, (n, m)):
        return
    if not name.endswith("nystroem"):     # a low-rank approximation of the kernel may be negative
        j.nonneg(T)
    green = j["method"] == "greenkhorn" or name == "greenkhorn"
    if not j.numeric and not green and not name.endswith("nystroem"):
        j.rows(T, a, 1e-6)
    if M is not None and lg:
        reg = j["reg"]
        lu = lg.get("log_u", lg.get("logu"))
        lv = lg.get("log_v", lg.get("logv"))
        if lu is None and "u" in lg:
            with np.errstate(all="ignore"):
                lu, lv = np.log(num(lg["u"])), np.log(num(lg["v"]))
        if lu is not None:
            R = np.exp(num(lu)[:, None] + num(lv)[None, :] - M / reg)
            e = np.abs(R - T).max()
            if not e <= 1e-7 * max(1, T.max()):
                j.say("value", f"the plan is not the one of the logged scalings (off by {e:.3g})")


def lazy_sinkhorn(j):
    f, g = num(j.v[0]), num(j.v[1])
    lg = j.v[2] if len(j.v) > 2 else {}
    X, Y = j["X_s"], j["X_t"]
    a, b = hist(j["a"], len(X)), hist(j["b"], len(Y))
    if f.shape != a.shape or g.shape != b.shape:
        return j.say("shape", f"potentials of shape {f.shape}, {g.shape}")
    if j["metric"] == "sqeuclidean":
        M = ((X[:, None] - Y[None]) ** 2).sum(-1)
        T = np.exp(f[:, None] + g[None, :] - M / j["reg"])
        j.cols(T, b, 1e-6)
        if "lazy_plan" in lg and not np.allclose(num(lg["lazy_plan"][:]), T, rtol=1e-7, atol=1e-10):
            j.say("value", "the lazy plan is not the one of the potentials")


@handles("sinkhorn2", "empirical_sinkhorn2")
def _(j):
    (val,), lg = j.parts()
    if "M" in j.P and lg and np.ndim(num(val)) <= 1:
        M, reg = j["M"], j["reg"]
        lu, lv = lg.get("log_u", lg.get("logu")), lg.get("log_v", lg.get("logv"))
        if lu is None and "u" in lg:
            with np.errstate(all="ignore"):
                lu, lv = np.log(num(lg["u"])), np.log(num(lg["v"]))
        if lu is None:
            return
        lu, lv = num(lu), num(lv)
        vals = np.atleast_1d(num(val))
        if lu.ndim == 1:
            lu, lv = lu[:, None], lv[:, None]
        if len(vals) != lu.shape[1]:
            return j.say("shape", f"{len(vals)} values for {lu.shape[1]} histograms")
        for k in range(len(vals)):
            T = np.exp(lu[:, k][:, None] + lv[:, k][None, :] - M / reg)
            j.value(vals[k], float((T * M).sum()), f"value {k}")
            if not j.numeric:
                a = j["a"]
                if np.ndim(a) == 1:
                    j.rows(T, hist(a, M.shape[0]), 1e-6)
    if np.any(num(val) < -1e-9):
        j.say("negative", f"value {num(val).min():.3g} for nonnegative costs")


@handles("empirical_sinkhorn_divergence")
def _(j):
    (val,), lg = j.parts()
    if "sinkhorn_loss_ab" in lg:
        r = float(lg["sinkhorn_loss_ab"]) - 0.5 * (float(lg["sinkhorn_loss_a"]) + float(lg["sinkhorn_loss_b"]))
        if not close(val, max(0.0, r), 1e-9):
            j.say("value", f"divergence {float(val)!r}, from the logged losses {max(0.0, r)!r}")
    if float(val) < 0:
        j.say("negative", f"divergence {float(val)!r}")


@handles("screenkhorn")
def _(j):
    (T,), lg = j.parts()
    T = num(T)
    j.shape(T, j["M"].shape)
    j.nonneg(T)


@handles("sinkhorn_low_rank_kernel")
def _(j):
    u, v, lg = j.v
    u, v, K1, K2 = num(u), num(v), j["K1"], j["K2"]
    if not j.numeric:
        a = hist(j["a"], len(K1))
        T = u[:, None] * (K1 @ K2.T) * v[None, :]
        j.rows(T, a, 1e-6)
    if "lazy_plan" in lg:
        T = u[:, None] * (K1 @ K2.T) * v[None, :]
        if not np.allclose(num(lg["lazy_plan"][:]), T, atol=1e-10):
            j.say("value", "the lazy plan is not the one of the scalings")


# ----------------------------------------------------------------- barycenters
@handles("barycenter", "barycenter_debiased", "convolutional_barycenter2d", "convolutional_barycenter2d_debiased", "barycenter_unbalanced", "unmix", "jcpot_barycenter")
def _(j):
    (b,), lg = j.parts()
    b = num(b)
    nm = j.call.fn.__name__
    j.nonneg(b, "barycenter")
    if nm == "unmix" or nm == "jcpot_barycenter":
        return
    A = j["A"]
    j.shape(b, A.shape[1:] if A.ndim == 3 else A.shape[:1], "barycenter")
    if (nm == "barycenter" and j["method"] != "sinkhorn_stabilized" or nm == "convolutional_barycenter2d" and j["numItermax"] > 1) and not j.numeric and b.sum() > 1 + 1e-6:
        j.say("simplex", f"barycenter of mass {b.sum():.6g}")


@handles("free_support_barycenter", "generalized_free_support_barycenter", "free_support_sinkhorn_barycenter")
def _(j):
    (X,), lg = j.parts()
    X = num(X)
    nm = j.call.fn.__name__
    if nm == "generalized_free_support_barycenter":
        return
    j.shape(X, j["X_init"].shape, "support")
    # each point is a convex combination of the points of the measures (or has not moved)
    pts = np.concatenate([num(x) for x in j["measures_locations"]] + [j["X_init"]])
    lo, hi = pts.min(0) - 1e-6, pts.max(0) + 1e-6
    if np.any(X < lo) or np.any(X > hi):
        j.say("hull", "a support point lies outside the range of all given points")


# ------------------------------------------------------------------ unbalanced
def pair(x):
    if isinstance(x, (tuple, list)) or np.ndim(x) == 1:
        x = [float(y) for y in x]
        return (x[0], x[0]) if len(x) == 1 else (x[0], x[1])
    return float(x), float(x)


@handles("sinkhorn_unbalanced", "sinkhorn_unbalanced2", "sinkhorn_knopp_unbalanced", "sinkhorn_stabilized_unbalanced", "sinkhorn_unbalanced_translation_invariant")
def _(j):
    (T,), lg = j.parts()
    T = num(T)
    M, reg = j["M"], j["reg"]
    n, m = M.shape
    a, b = hist(j["a"], n), hist(j["b"], m)
    r1, r2 = pair(j["reg_m"])
    if b.ndim > 1:
        if np.any(T < -1e-9):
            j.say("negative", "negative value")
        return
    c = np.ones((n, m)) if (j["reg_type"] or "kl").lower() == "entropy" else a[:, None] * b[None, :] if j["c"] is None else j["c"]
    if "logu" in lg:
        R = np.exp(num(lg["logu"])[:, None] + num(lg["logv"])[None, :] - M / reg + np.log(c))
        if T.ndim == 2:
            if not j.shape(T, (n, m)):
                return
            j.nonneg(T)
            e = np.abs(R - T).max()
            if not e <= 1e-7 * max(1, T.max()):
                j.say("value", f"the plan is not the one of the logged potentials (off by {e:.3g})")
        P = T if T.ndim == 2 else R
        lin = float((P * M).sum())
        tot = lin + reg * kl(P, c) + (r1 * kl(P.sum(1), a) if np.isfinite(r1) else 0) + (r2 * kl(P.sum(0), b) if np.isfinite(r2) else 0)
        j.value(lg["cost"], lin, "linear cost")
        j.value(lg["total_cost"], tot, "total cost")
        if T.ndim == 0:
            j.value(T, tot if j["returnCost"] == "total" else lin, "returned value")


@handles("mm_unbalanced", "mm_unbalanced2")
def _(j):
    (T,), lg = j.parts()
    T = num(T)
    M = j["M"]
    a, b = hist(j["a"], M.shape[0]), hist(j["b"], M.shape[1])
    G = T if T.ndim == 2 else num(lg["G"][-1])
    j.shape(G, M.shape)
    j.nonneg(G)
    if not lg:
        return
    if T.ndim == 2 and not np.allclose(T, num(lg["G"][-1]), atol=1e-12):
        j.say("value", "the plan is not the last one of the history")
    lin = float((G * M).sum())
    j.value(lg["cost"], lin, "linear cost")
    r1, r2 = pair(j["reg_m"])
    c = a[:, None] * b[None, :] if j["c"] is None else j["c"]
    reg = j["reg"]
    if j["div"] == "kl":
        D = lambda p, q: kl(p, q, True)
    else:
        D = lambda p, q: 0.5 * float(((p - q) ** 2).sum())
    with np.errstate(all="ignore"):
        tot = lin + (reg * D(G, c) if reg else 0) + r1 * D(G.sum(1), a) + r2 * D(G.sum(0), b)
    if np.isfinite(tot):
        j.value(lg["total_cost"], tot, "total cost")
    if T.ndim == 0:
        j.value(T, lg["cost"] if j["returnCost"] == "linear" else lg["total_cost"], "returned value")


@handles("lbfgsb_unbalanced", "lbfgsb_unbalanced2")
def _(j):
    (T,), lg = j.parts()
    T = num(T)
    M = j["M"]
    if T.ndim == 2:
        j.shape(T, M.shape)
        j.nonneg(T)
        if lg:
            j.value(lg["cost"], float((T * M).sum()), "linear cost")
    elif lg:
        j.value(T, lg["cost"] if j["returnCost"] == "linear" else lg["total_cost"], "returned value")


# --------------------------------------------------------------------- partial
@handles("entropic_partial_wasserstein")
def _(j):
    (T,), lg = j.parts()
    T = num(T)
    j.shape(T, j["M"].shape)
    j.nonneg(T)
    if not j.numeric:
        m = j["m"]
        if m is not None and abs(T.sum() - float(m)) > 1e-6:
            j.say("marginal", f"transports {T.sum():.8g} instead of m={float(m):.8g}")
    if lg and "partial_w_dist" in lg:
        j.value(lg["partial_w_dist"], float((T * j["M"]).sum()), "partial_w_dist")


# ---------------------------------------------------------------------- gromov
def _gw_common(j, kind):
    nm = j.call.fn.__name__
    parts, lg = j.parts()
    C1, C2 = j["C1"], j["C2"]
    n, m = len(C1), len(C2)
    p, q = hist(j["p"], n), hist(j["q"], m) if "q" in j.P else None
    two = nm.endswith("2")
    T = num(lg["T"]) if two else num(parts[0])
    if not j.shape(T, (n, m)):
        return
    j.nonneg(T)
    loss = j["loss_fun"] or "square_loss"
    fused = "M" in j.P and j.P["M"] is not None
    al = float(j["alpha"]) if fused else 1.0
    if kind == "exact":
        j.rows(T, p)
        j.cols(T, q)
    elif kind == "semi":
        j.rows(T, p, 1e-6)
    elif kind == "partial" or kind == "entropic_partial":
        mm = float(j["m"]) if j["m"] is not None else min(p.sum(), q.sum())
        if kind == "partial":
            if np.any(T.sum(1) > p + 1e-7) or np.any(T.sum(0) > q + 1e-7):
                j.say("marginal", "transports more than the available mass")
        if not j.numeric and abs(T.sum() - mm) > 1e-6:
            j.say("marginal", f"transports {T.sum():.8g} instead of m={mm:.8g}")
    if kind == "semi":
        ref = gw_ref(C1, C2, T, loss, p, T.sum(0))
    elif "partial" in kind:
        ref = gw_ref(C1, C2, T, loss)
        if j.call.fn.__module__.startswith("ot.partial"):
            ref /= 2           # these deprecated functions count every pair once
    else:
        ref = gw_ref(C1, C2, T, loss, p, q)
    if fused:
        lin = float((T * j["M"]).sum())
        if "quad_loss" in lg:
            j.value(lg["quad_loss"], al * ref, "quad_loss", 1e-6)
            j.value(lg["lin_loss"], (1 - al) * lin, "lin_loss", 1e-6)
        ref = (1 - al) * lin + al * ref
    for k in ("gw_dist", "fgw_dist", "srgw_dist", "srfgw_dist", "partial_gw_dist", "partial_fgw_dist"):
        if k in lg:
            j.value(lg[k], ref, k, 1e-6)
    if two:
        j.value(parts[0], ref, "returned value", 1e-6)
    if "loss" in lg and isinstance(lg["loss"], list):
        j.decreasing(lg["loss"], "logged loss")
        j.value(lg["loss"][-1], ref, "last logged loss", 1e-6)


for _n in ("gromov_wasserstein", "fused_gromov_wasserstein"):
    for _s in ("", "2"):
        H[_n + _s] = lambda j: _gw_common(j, "exact")
        H["entropic_" + _n + _s] = lambda j: _gw_common(j, "entropic")
        H["BAPG_" + _n + _s] = lambda j: _gw_common(j, "bapg")
        H["semirelaxed_" + _n + _s] = lambda j: _gw_common(j, "semi")
        H["entropic_semirelaxed_" + _n + _s] = lambda j: _gw_common(j, "semi")
        H["partial_" + _n + _s] = lambda j: _gw_common(j, "partial")
        H["entropic_partial_" + _n + _s] = lambda j: _gw_common(j, "entropic_partial")


@handles("gromov_barycenters", "fgw_barycenters", "entropic_gromov_barycenters", "entropic_fused_gromov_barycenters", "semirelaxed_gromov_barycenters", "semirelaxed_fgw_barycenters")
def _(j):
    parts, lg = j.parts()
    C = num(parts[-1])
    N = int(j["N"])
    j.shape(C, (N, N), "structure")
    nm = j.call.fn.__name__
    if "T" in lg:
        ps = j["ps"]
        for k, T in enumerate(lg["T"]):
            T = num(T)
            j.nonneg(T)
            if nm.startswith("semirelaxed"):
                j.rows(T, num(ps[k]), 1e-6)
            elif not nm.startswith("entropic"):
                j.cols(T, num(ps[k]))
                j.rows(T, num(lg["p"]))


@handles("pointwise_gromov_wasserstein", "sampled_gromov_wasserstein")
def _(j):
    (T,), lg = j.parts()
    T = num(T)
    j.shape(T, (len(j["p"]), len(j["q"])))
    j.nonneg(T)
    j.rows(T, j["p"], 1e-6 if j.call.fn.__name__.startswith("point") else 1e-5)
    if j.call.fn.__name__.startswith("point"):
        j.cols(T, j["q"])


@handles("lowrank_gromov_wasserstein_samples", "lowrank_sinkhorn")
def _(j):
    Q, R, g = [num(x) for x in j.v[:3]]
    lg = j.v[3] if len(j.v) > 3 else {}
    for nm, x in (("Q", Q), ("R", R), ("g", g)):
        j.nonneg(x, nm)
    if lg and "lazy_plan" in lg:
        if not np.allclose(num(lg["lazy_plan"][:]), (Q / g) @ R.T, atol=1e-9):
            j.say("value", "the lazy plan is not the product of the factors")


@handles("unbalanced_co_optimal_transport", "fused_unbalanced_gromov_wasserstein")
def _(j):
    parts, lg = j.parts()
    for k, T in enumerate(parts[:2]):
        j.nonneg(num(T), f"plan {k}")
    if len(parts) > 1 and j.call.fn.__name__.startswith("fused"):
        a, b = num(parts[0]).sum(), num(parts[1]).sum()
        if j["rescale_plan"] and abs(a - b) > 1e-6 * max(a, b):
            j.say("marginal", f"the two plans have mass {a:.8g} and {b:.8g}")


@handles("co_optimal_transport", "co_optimal_transport2")
def _(j):
    parts, lg = j.parts()
    if j.call.fn.__name__.endswith("2"):
        return
    S, F = num(parts[0]), num(parts[1])
    X, Y = j["X"], j["Y"]
    eps = pair(j["epsilon"])
    for T, (p, q), e, what in ((S, (hist(j["wx_samp"], X.shape[0]), hist(j["wy_samp"], Y.shape[0])), eps[0], "sample plan"),
                               (F, (hist(j["wx_feat"], X.shape[1]), hist(j["wy_feat"], Y.shape[1])), eps[1], "feature plan")):
        j.nonneg(T, what)
        j.shape(T, (len(p), len(q)), what)
        if e == 0:
            j.rows(T, p, what=what)
            j.cols(T, q, what=what)
    if lg:
        D = float(np.einsum("ij,kl,ik,jl->", X ** 2, np.ones_like(Y), S, F) + np.einsum("ij,kl,ik,jl->", np.ones_like(X), Y ** 2, S, F) - 2 * np.einsum("ij,kl,ik,jl->", X, Y, S, F))
        if eps == (0.0, 0.0):
            j.decreasing(lg["distances"], "logged distance", 1e-7)
            if np.all([j[k] is None for k in ("M_samp", "M_feat")]):
                j.value(lg["distances"][-1], D, "last logged distance", 1e-6)


# ------------------------------------------------------- conditional gradient etc.
@handles("cg", "gcg", "semirelaxed_cg", "emd_laplace", "weak_optimal_transport")
def _(j):
    (T,), lg = j.parts()
    T = num(T)
    nm = j.call.fn.__name__
    if nm == "weak_optimal_transport":
        n, m = len(j["Xa"]), len(j["Xb"])
        a, b = hist(j["a"], n), hist(j["b"], m)
    else:
        a, b = j["a"], j["b"]
    if not j.shape(T, (len(a), len(b))):
        return
    j.nonneg(T)
    j.rows(T, a, 1e-6 if nm == "gcg" else MT)
    if nm not in ("semirelaxed_cg", "gcg"):
        j.cols(T, b)
    if "loss" in lg:
        j.decreasing(lg["loss"], "logged loss", 1e-7)
        if nm in ("cg", "semirelaxed_cg"):
            j.value(lg["loss"][-1], float((T * j["M"]).sum()) + float(j["reg"]) * float(j.P["f"](T)), "last logged loss")
        if nm == "weak_optimal_transport":
            Xa, Xb = j["Xa"], j["Xb"]
            j.value(lg["loss"][-1], float((a * ((Xa - (T @ Xb) / a[:, None]) ** 2).sum(1)).sum()), "last logged loss")


@handles("factored_optimal_transport")
def _(j):
    Ga, Gb, X = [num(x) for x in j.v[:3]]
    lg = j.v[3] if len(j.v) > 3 else {}
    j.nonneg(Ga)
    j.nonneg(Gb)
    a, b = hist(j["a"], len(Ga)), hist(j["b"], Gb.shape[1])
    j.rows(Ga, a, 1e-6)
    if not j["reg"]:
        j.cols(Gb, b, 1e-6)
        w = Ga.sum(0)
        if np.abs(w - Gb.sum(1)).max() > 1e-6:
            j.say("marginal", "the two factors disagree on the mass of the template points")


@handles("smooth_ot_semi_dual", "smooth_ot_dual")
def _(j):
    (T,), lg = j.parts()
    T = num(T)
    j.shape(T, j["M"].shape)
    j.nonneg(T)
    if j.call.fn.__name__ == "smooth_ot_semi_dual":
        j.cols(T, j["b"], 1e-6)


@handles("solve_semi_dual_entropic", "solve_dual_entropic")
def _(j):
    (T,), lg = j.parts()
    T = num(T)
    j.shape(T, j["M"].shape)
    j.nonneg(T)
    if j.call.fn.__name__ == "solve_semi_dual_entropic":
        j.rows(T, j["a"], 1e-6)


@handles("bures_wasserstein_barycenter", "empirical_bures_wasserstein_barycenter")
def _(j):
    m, C = num(j.v[0]), num(j.v[1])
    if np.abs(C - C.T).max() > 1e-7 * max(1, np.abs(C).max()):
        j.say("psd", "the covariance is not symmetric")
    if np.linalg.eigvalsh((C + C.T) / 2).min() < -1e-8:
        j.say("psd", "the covariance is not positive semi-definite")


@handles("gmm_barycenter_fixed_point")
def _(j):
    for C in num(j.v[1]):
        if np.abs(C - C.T).max() > 1e-7 * max(1, np.abs(C).max()) or np.linalg.eigvalsh((C + C.T) / 2).min() < -1e-8:
            j.say("psd", "a covariance is not symmetric positive semi-definite")
            return


@handles("projection_robust_wasserstein")
def _(j):
    pi, U = num(j.v[0]), num(j.v[1])
    j.nonneg(pi)
    if np.abs(U.T @ U - np.eye(U.shape[1])).max() > 1e-7:
        j.say("orthonormal", "the projection is not orthonormal")


@handles("ewca")
def _(j):
    pi, U = num(j.v[0]), num(j.v[1])
    j.nonneg(pi)
    if np.abs(U.T @ U - np.eye(U.shape[1])).max() > 1e-7:
        j.say("orthonormal", "the projection is not orthonormal")


@handles("joint_OT_mapping_linear", "joint_OT_mapping_kernel")
def _(j):
    G = num(j.v[0])
    lg = j.v[2] if len(j.v) > 2 else {}
    n, m = len(j["xs"]), len(j["xt"])
    j.nonneg(G)
    j.rows(G, np.full(n, 1.0 / n))
    j.cols(G, np.full(m, 1.0 / m))
    if lg.get("loss"):
        j.decreasing(lg["loss"], "logged loss", 1e-7)


@handles("sinkhorn_lpl1_mm", "sinkhorn_l1l2_gl")
def _(j):
    (T,), lg = j.parts()
    T = num(T)
    j.shape(T, j["M"].shape)
    j.nonneg(T)
    if not j.numeric:
        j.rows(T, j["a"], 1e-6)


@handles("dmmot_monge_1dgrid_optimize", "gromov_wasserstein_dictionary_learning", "fused_gromov_wasserstein_dictionary_learning")
def _(j):
    return


@handles("gromov_wasserstein_linear_unmixing", "fused_gromov_wasserstein_linear_unmixing")
def _(j):
    w = num(j.v[0])
    if w.min() < -1e-9 or abs(w.sum() - 1) > 1e-6:
        j.say("simplex", f"unmixing weights {w}")
