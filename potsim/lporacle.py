"""Generators of transport instances and the oracle of exact solutions."""
import numpy as np


def weights(r, n, kind):
    if kind == "uniform":
        w = np.ones(n)
    elif kind == "integer":
        w = r.integers(1, 5, n).astype(float)
    elif kind == "zeros":
        w = r.uniform(0.1, 1, n)
        w[r.permutation(n)[: max(1, n // 3)]] = 0.0
        if not w.any():
            w[0] = 1.0
    elif kind == "single":
        w = np.zeros(n)
        w[r.integers(n)] = 1.0
    elif kind == "heavy":
        w = 10.0 ** r.uniform(-5, 0, n)
    elif kind == "dyadic":
        w = 2.0 ** -r.integers(0, 5, n)
    else:
        w = r.uniform(0.1, 1, n)
    return w / w.sum()


def cost(r, n, m, kind):
    if kind == "int":
        return r.integers(0, 4, (n, m)).astype(float)
    if kind == "const":
        return np.full((n, m), float(r.uniform(0.5, 2)))
    if kind == "zero":
        return np.zeros((n, m))
    if kind == "metric":
        x, y = r.normal(size=(n, 2)), r.normal(size=(m, 2))
        return ((x[:, None] - y[None]) ** 2).sum(-1)
    if kind == "line":
        return np.abs(r.permutation(n)[:, None] - r.permutation(m)[None, :]).astype(float)
    if kind == "negative":
        return r.normal(size=(n, m))
    if kind == "large":
        return r.uniform(0, 1, (n, m)) * 1e6
    if kind == "small":
        return r.uniform(0, 1, (n, m)) * 1e-6
    if kind == "mixed":
        return 10.0 ** r.uniform(-4, 3, (n, m))
    if kind == "block":
        c = np.full((n, m), 10.0)
        c[: n // 2 + 1, : m // 2 + 1] = 1.0
        return c + r.integers(0, 2, (n, m))
    return r.uniform(0, 1, (n, m))


WKINDS = ["random", "random", "uniform", "integer", "zeros", "single", "heavy", "dyadic"]
CKINDS = ["random", "random", "int", "const", "zero", "metric", "line", "negative", "large", "small", "mixed", "block"]


def instance(r, c):
    a = weights(r, c["n"], c["wa"]) * c.get("mass", 1.0)
    b = weights(r, c["m"], c["wb"]) * c.get("mass", 1.0)
    return a, b, cost(r, c["n"], c["m"], c["cost"])


def lp_value(a, b, M, allowed=None):
    """Optimal value by an independent solver, or None when infeasible."""
    from scipy.optimize import linprog
    import scipy.sparse as sp
    n, m = M.shape
    idx = np.arange(n * m) if allowed is None else np.flatnonzero(allowed.ravel())
    rows = np.concatenate([idx // m, n + idx % m])
    cols = np.concatenate([np.arange(len(idx))] * 2)
    A = sp.csr_matrix((np.ones(2 * len(idx)), (rows, cols)), shape=(n + m, len(idx)))
    s = max(np.abs(M).max(), 1e-300)
    res = linprog(M.ravel()[idx] / s, A_eq=A, b_eq=np.concatenate([a, b * (a.sum() / b.sum())]) / a.sum(), bounds=(0, None), method="highs")
    if res.status != 0:
        return None
    return res.fun * s * a.sum()


def check_success(a, b, M, G, value, u, v, allowed=None, duals=True):
    """What is wrong with a result reported as optimal, as (kind, text), or None."""
    mass = a.sum()
    b = b * (mass / b.sum())
    sc = max(np.abs(M[np.isfinite(M)]).max() if M.size else 0.0, 1e-12)
    for nm, x in (("plan", G), ("cost", np.asarray(value)), ("u", u), ("v", v)):
        if x is not None and not np.all(np.isfinite(x)):
            return "not-finite", f"{nm} has entries that are not finite"
    if G is not None:
        if G.shape != M.shape:
            return "shape", f"plan shape {G.shape} for costs {M.shape}"
        if G.min() < -1e-12 * mass:
            return "negative", f"plan entry {G.min():.3g}"
        e = max(np.abs(G.sum(1) - a).max(), np.abs(G.sum(0) - b).max())
        if e > 1e-7 * mass:
            return "marginal", f"marginal error {e:.3g} of mass {mass:.3g}"
        if allowed is not None and np.any(G[~allowed] > 0):
            return "forbidden", "mass on an absent edge"
        pv = float((G * np.where(np.isfinite(M), M, 0)).sum())
        if value is not None and abs(pv - float(value)) > 1e-7 * sc * mass:
            return "value", f"reported cost {float(value):.9g}, cost of the plan {pv:.9g}"
    else:
        pv = float(value)
    if duals and u is not None and v is not None:
        sa, sb = a > 0, b > 0
        slack = u[:, None] + v[None, :] - M
        ok = sa[:, None] & sb[None, :]
        if allowed is not None:
            ok &= allowed
        worst = slack[ok].max() if ok.any() else 0.0
        dv = float((u * a).sum() + (v * b).sum())
        pot = np.abs(u[sa]).max() + np.abs(v[sb]).max()
        if worst > 1e-6 * sc + 1e-9 * pot:
            kind, txt = "dual-infeasible", f"potentials violate u+v<=M by {worst:.3g} (costs up to {sc:.3g})"
        elif abs(dv - pv) > (1e-6 * sc + 1e-9 * pot) * mass:
            kind, txt = "dual-value", f"dual value {dv:.9g}, primal value {pv:.9g}"
        else:
            return None
        ref = lp_value(a, b, M, allowed)
        if ref is not None and pv > ref + 1e-6 * sc * mass:
            return "not-optimal", f"cost {pv:.9g}, optimum {ref:.9g}"
        return kind, txt
    ref = lp_value(a, b, M, allowed)
    if ref is not None and abs(pv - ref) > 1e-6 * sc * mass:
        return "not-optimal", f"cost {pv:.9g}, optimum {ref:.9g}"
    return None
