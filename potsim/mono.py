"""Solvers that can only improve their objective from one iteration to the next.

An entry builds one problem: `go(n)` runs n iterations, `energy(result)` is the
objective of what was returned, computed here from the arguments and the
returned arrays only.  Every iteration of these algorithms minimises the
objective exactly over some of its variables (or takes a descent step that is
checked), so wherever two runs are stopped, the longer one is not worse."""
import numpy as np

from .gen import Gen
from .judge import gw_ref, num

MONO = {}


class Mono:
    slack = 1e-9       # relative to 1 + |energy|
    hi = 10            # largest budget
    logged = mass = None

    def __init__(self, go, energy, **attrs):
        self.go, self.energy = go, energy
        self.__dict__.update(attrs)


def mono(name):
    def deco(f):
        MONO[name] = f
        return f
    return deco


def build(ot, name, shape, value):
    return MONO[name](ot, Gen(ot, shape, value))


def xlogy(p, q):
    p, q = np.broadcast_arrays(np.asarray(p, float), np.asarray(q, float))
    out = np.zeros(p.shape)
    k = p > 0
    out[k] = p[k] * np.log(p[k] / q[k])
    return out


def kl(p, q):
    return float(xlogy(p, q).sum() - np.sum(p) + np.sum(q))


def l2(p, q):
    return .5 * float(((p - q) ** 2).sum())


def _ab(g, lo=3, hi=6):
    n, m = g.n(lo, hi), g.n(lo, hi)
    return g.hist(n), g.hist(m), g.cost(n, m)


def ascending(f):
    return lambda r: -f(r)


# ------------------------------------------------------------------ entropic
def _dual(a, b, M, reg, lu, lv):
    return float(reg * (a @ lu + b @ lv - np.exp(lu[:, None] + lv[None] - M / reg).sum()))


@mono("sinkhorn dual")
def _(ot, g):
    a, b, M = _ab(g)
    meth = g.pick(["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "greenkhorn", "empirical", "lazy"])
    reg = g.u(.1, 1)
    kw = {"tau": g.pick([1.2, 3.0, 1e3])} if meth == "sinkhorn_stabilized" else {}
    if meth in ("empirical", "lazy"):
        X, Y = g.pts(len(a)), g.pts(len(b))
        M, reg = ((X[:, None] - Y[None]) ** 2).sum(-1), reg * 4
        kw = dict(isLazy=True, batchSize=g.pick([2, 100])) if meth == "lazy" else {}
        go = lambda n: ot.bregman.empirical_sinkhorn(X, Y, reg, a.copy(), b.copy(), numIterMax=n, stopThr=0, log=True, warn=False, **kw)[-1]
    else:
        go = lambda n: ot.sinkhorn(a.copy(), b.copy(), M.copy(), reg, method=meth, numItermax=n, stopThr=0, log=True, warn=False, **kw)[-1]

    def e(l):
        if "logu" in l:
            lu, lv = l["logu"], l["logv"]
        elif "log_u" in l:
            lu, lv = l["log_u"], l["log_v"]
        elif meth == "lazy":
            lu, lv = l["u"], l["v"]
        else:
            lu, lv = np.log(num(l["u"])), np.log(num(l["v"]))
        return -_dual(a, b, M, reg, num(lu), num(lv))
    return Mono(go, e, hi=40, what=meth)


@mono("unbalanced dual")
def _(ot, g):
    a, b, M = _ab(g)
    if g.flip():
        a = a * g.u(.5, 2)
    meth = g.pick(["sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"])
    reg, r1, r2 = g.u(.1, 1), g.u(.3, 3), g.u(.3, 3)
    rt = g.pick(["kl", "entropy"])
    c = a[:, None] * b[None] if rt == "kl" else np.ones(M.shape)
    kw = dict(reg_type=rt)
    if meth == "sinkhorn_stabilized":
        kw["tau"] = g.pick([1.2, 3.0, 1e3])
    go = lambda n: ot.unbalanced.sinkhorn_unbalanced(a.copy(), b.copy(), M.copy(), reg, (r1, r2), method=meth, numItermax=n, stopThr=0, log=True, **kw)[-1]

    def d(l):
        f, h = reg * num(l["logu"]), reg * num(l["logv"])
        if meth == "sinkhorn_translation_invariant":     # its objective is the best over all translations
            s = r1 * r2 / (r1 + r2) * (np.log((a * np.exp(-f / r1)).sum()) - np.log((b * np.exp(-h / r2)).sum()))
            f, h = f + s, h - s
        return -float(r1 * (a * (np.exp(-f / r1) - 1)).sum() + r2 * (b * (np.exp(-h / r2) - 1)).sum() + reg * (c * (np.exp((f[:, None] + h[None] - M) / reg) - 1)).sum())
    return Mono(go, ascending(d), hi=40, what=(meth, rt, kw))


@mono("mm_unbalanced")
def _(ot, g):
    a, b, M = _ab(g)
    div = g.pick(["kl", "l2"])
    r1, r2 = g.u(.5, 3), g.u(.5, 3)
    c = g.pick([None, g.v.uniform(.02, .2, M.shape)])
    reg = g.pick([0, g.u(.05, 1)])
    cc = a[:, None] * b[None] if c is None else c
    D = kl if div == "kl" else l2
    kw = {} if g.flip() else {"G0": g.v.uniform(.01, .2, M.shape)}
    go = lambda n: ot.unbalanced.mm_unbalanced(a.copy(), b.copy(), M.copy(), (r1, r2), c=c, reg=reg, div=div, numItermax=n, stopThr=0, **kw)
    return Mono(go, lambda T: float((T * M).sum()) + reg * D(T, cc) + r1 * D(T.sum(1), a) + r2 * D(T.sum(0), b), hi=40, slack=1e-8)


@mono("lbfgsb_unbalanced")
def _(ot, g):
    a, b, M = _ab(g)
    rd, md = g.pick(["kl", "l2", "entropy"]), g.pick(["kl", "l2", "tv"])
    r1, r2, reg = g.u(.5, 3), g.u(.5, 3), g.u(.05, 1)
    c = a[:, None] * b[None]
    R = {"kl": lambda T: kl(T, c), "l2": lambda T: l2(T, c), "entropy": lambda T: kl(T, np.ones_like(c)) - c.size}[rd]
    D = {"kl": kl, "l2": l2, "tv": lambda p, q: float(np.abs(p - q).sum())}[md]
    go = lambda n: ot.unbalanced.lbfgsb_unbalanced(a.copy(), b.copy(), M.copy(), reg, (r1, r2), reg_div=rd, regm_div=md, numItermax=n, stopThr=0)
    return Mono(go, lambda T: float((T * M).sum()) + reg * R(T) + r1 * D(T.sum(1), a) + r2 * D(T.sum(0), b), hi=30, slack=1e-8)


# ------------------------------------------------------ conditional gradient
def _reg(g, shape):
    B = g.v.uniform(.02, .2, shape)
    if g.flip():
        return lambda G: .5 * float(((G - B) ** 2).sum()), lambda G: G - B
    Q = g.sym(shape[0]) - .7
    return lambda G: float((G * (Q @ G)).sum()), lambda G: 2 * Q @ G


@mono("cg")
def _(ot, g):
    a, b, M = _ab(g)
    f, df = _reg(g, M.shape)
    reg, r2 = g.u(.2, 3), g.u(.1, .5)
    kind = g.pick(["cg", "gcg", "semi", "partial"])
    o = dict(stopThr=0, stopThr2=0)
    if kind == "cg":
        return Mono(lambda n: ot.optim.cg(a, b, M, reg, f, df, numItermax=n, **o), lambda T: float((T * M).sum()) + reg * f(T))
    if kind == "gcg":
        go = lambda n: ot.optim.gcg(a, b, M, r2, reg, f, df, numItermax=n, numInnerItermax=20000, **o)
        return Mono(go, lambda T: float((T * M).sum()) + r2 * float(xlogy(T, np.ones_like(T)).sum()) + reg * f(T), slack=1e-6, hi=5)
    if kind == "semi":
        ls = lambda cost, G, dG, Mi, cG, df_G, **k: ot.optim.line_search_armijo(cost, G, dG, Mi, cG, nx=ot.backend.NumpyBackend(), **k)
        return Mono(lambda n: ot.optim.semirelaxed_cg(a, b, M, reg, f, df, line_search=ls, numItermax=n, **o), lambda T: float((T * M).sum()) + reg * f(T))
    m = g.u(.3, .9)
    ax, bx = np.append(a, b.sum() - m), np.append(b, a.sum() - m)
    G0 = np.outer(a, b) * m
    big = g.pick([1.0, 100.0])            # the gradient may outweigh the linear cost
    F, dF = (lambda G: big * f(G)), (lambda G: big * df(G))
    kw = {}
    if g.flip():
        kw["line_search"] = lambda cost, G, dG, Mi, cG, df_G, **k: ot.optim.line_search_armijo(cost, G, dG, Mi, cG, **k)
    go = lambda n: ot.optim.partial_cg(a, b, ax, bx, M, reg, F, dF, G0=G0.copy(), numItermax=n, warn=False, **kw, **o)
    return Mono(go, lambda T: float((T * M).sum()) + reg * F(T), mass=lambda T: (T.sum(), m))


@mono("laplace")
def _(ot, g):
    n, m = g.n(5, 7), g.n(5, 7)
    a, b, xs, xt = g.hist(n), g.hist(m), g.pts(n), g.pts(m)
    M = ((xs[:, None] - xt[None]) ** 2).sum(-1)
    al, eta, reg, s2 = g.pick([.2, .5, .9]), g.u(.2, 2), g.pick(["pos", "disp"]), g.u(.5, 2)
    K = lambda x: np.exp(-((x[:, None] - x[None]) ** 2).sum(-1) / (2 * s2 ** 2))

    def f(T):
        if reg == "disp":
            return None
        L = lambda x: np.diag(K(x).sum(0)) - K(x)
        S, U = T @ xt, T.T @ xs
        return eta * float(al * np.trace(S.T @ L(xs) @ S) + (1 - al) * np.trace(U.T @ L(xt) @ U))
    reg = "pos"
    go = lambda n_: ot.da.emd_laplace(a, b, xs, xt, M, sim="gauss", sim_param=s2, reg=reg, eta=eta, alpha=al, numItermax=n_, stopThr=0, stopInnerThr=0)
    return Mono(go, lambda T: float((T * M).sum()) + f(T))


@mono("group lasso")
def _(ot, g):
    n, m = 6, g.n()
    a, b, M, y = g.hist(n), g.hist(m), g.cost(n, m), g.labels(n)
    reg, eta = g.u(.3, 1), g.u(.05, .5)
    if g.flip():
        def om(T):
            return sum(float(np.sqrt((T[y == c] ** 2).sum(0)).sum()) for c in np.unique(y))
        go = lambda k: ot.da.sinkhorn_l1l2_gl(a, y, b, M, reg, eta=eta, numItermax=k, numInnerItermax=20000, stopInnerThr=1e-11)
    else:
        def om(T):
            return sum(float(np.sqrt(T[y == c].sum(0) + 1e-3).sum()) for c in np.unique(y))
        go = lambda k: ot.da.sinkhorn_lpl1_mm(a, y, b, M, reg, eta=eta, numItermax=k, numInnerItermax=20000, stopInnerThr=1e-11)
    return Mono(go, lambda T: float((T * M).sum()) + reg * float(xlogy(T, np.ones_like(T)).sum()) + eta * om(T), slack=1e-6, hi=5)


@mono("weak")
def _(ot, g):
    n, m = g.n(), g.n()
    X, Y, a, b = g.pts(n), g.pts(m), g.hist(n), g.hist(m)
    go = lambda k: ot.weak_optimal_transport(X, Y, a, b, numItermax=k, stopThr=0, stopThr2=0)
    return Mono(go, lambda T: float((a * ((X - (T @ Y) / a[:, None]) ** 2).sum(1)).sum()))


@mono("smooth")
def _(ot, g):
    a, b, M = _ab(g)
    reg = g.u(.1, 1)
    rt = g.pick(["l2", "negentropy"])
    go = lambda k: ot.smooth.smooth_ot_dual(a, b, M, reg, reg_type=rt, stopThr=0, numItermax=k, log=True)[-1]

    def d(l):
        al, be = num(l["alpha"]), num(l["beta"])
        z = al[:, None] + be[None] - M
        c = (np.maximum(z, 0) ** 2 / (2 * reg)).sum() if rt == "l2" else reg * np.exp(z / reg - 1).sum()
        return float(al @ a + be @ b - c)
    return Mono(go, ascending(d), hi=30)


# ---------------------------------------------------------- Gromov-Wasserstein
@mono("gw")
def _(ot, g):
    n, m = g.n(3, 6), g.n(3, 6)
    sym = g.flip(.7)
    mk = (lambda k: g.sym(k) + .1) if sym else (lambda k: g.v.uniform(.1, 1, (k, k)))
    C1, C2, p, q, M = mk(n), mk(m), g.hist(n), g.hist(m), g.cost(n, m)
    loss = g.pick(["square_loss", "kl_loss"])
    kind = g.pick(["gw", "fgw", "semi", "fsemi", "partial", "fpartial"])
    al = g.pick([.2, .5, .8]) if kind[0] == "f" else 1.0
    kw = dict(loss_fun=loss)
    if g.flip():
        kw["symmetric"] = sym
    if kind.endswith("gw"):
        kw["armijo"] = g.flip(.3)
    elif kind.endswith("semi"):
        kw["G0"] = g.pick(["product", "random", "random_product"])
        kw["random_state"] = 3
    else:
        kw["m"] = g.u(.3, .95)
        kw["nb_dummies"] = g.pick([1, 2])
    base = {"gw": "gromov_wasserstein", "semi": "semirelaxed_gromov_wasserstein", "partial": "partial_gromov_wasserstein"}[kind.lstrip("f")]
    if kind[0] == "f":
        base = base.replace("gromov", "fused_gromov")
        kw["alpha"] = al
    fn = getattr(ot.gromov, base)
    args = ([M] if kind[0] == "f" else []) + [C1, C2, p] + ([] if kind.endswith("semi") else [q])
    it, tl = ("numItermax", {"tol": 0}) if "partial" in kind else ("max_iter", {"tol_rel": 0, "tol_abs": 0})
    if "partial" in kind:
        kw["warn"] = False
    go = lambda k: fn(*[x.copy() for x in args], **kw, **{it: k}, **tl)

    def e(T):
        if kind.endswith("semi"):
            r = gw_ref(C1, C2, T, loss, p, T.sum(0))
        elif "partial" in kind:
            r = gw_ref(C1, C2, T, loss)
        else:
            r = gw_ref(C1, C2, T, loss, p, q)
        return al * r + (1 - al) * float((T * M).sum())
    return Mono(go, e, slack=1e-8)


@mono("coot")
def _(ot, g):
    n, m, d1, d2 = g.n(3, 5), g.n(3, 5), g.n(2, 4), g.n(2, 4)
    X, Y = g.pts(n, d1), g.pts(m, d2)
    ws = g.hist(n), g.hist(d1), g.hist(m), g.hist(d2)
    A, B = (g.cost(n, m), g.cost(d1, d2)) if g.flip() else (None, None)
    al = (g.u(.1, 1), g.u(.1, 1))
    eps = g.pick([(0, 0), (0, 0), (1.0, 1.0), (0, .8), (.9, 0)])
    kw = {} if A is None else dict(M_samp=A, M_feat=B, alpha=al)

    def go(k):
        return ot.coot.co_optimal_transport(X, Y, *ws, epsilon=eps, nits_bcd=k, tol_bcd=0, early_stopping_tol=-1, nits_ot=20000, tol_sinkhorn=1e-12, eval_bcd=1, **kw)

    def e(r):
        S, F = num(r[0]), num(r[1])
        v = float(((X[:, None, :, None] - Y[None, :, None, :]) ** 2 * S[:, :, None, None] * F[None, None]).sum())
        if A is not None:
            v += al[0] * float((A * S).sum()) + al[1] * float((B * F).sum())
        return v + eps[0] * kl(S, np.outer(ws[0], ws[2])) + eps[1] * kl(F, np.outer(ws[1], ws[3]))
    return Mono(go, e, slack=1e-7, hi=8)


def _ucoot(ot, g, div):
    fused = g.flip()
    rt = g.pick(["joint", "independent"])
    e0 = g.pick([0.0, .3, .8])
    eps = (e0, e0) if rt == "joint" else (e0, g.pick([e0, .2] if e0 else [0.0]))
    sol = "sinkhorn" if div == "kl" and e0 and g.flip() else "lbfgsb" if div == "l2" or g.flip() else "mm"
    rho = (g.u(.4, 2), g.u(.4, 2))
    n, m = g.n(3, 4), g.n(3, 4)
    o = dict(reg_marginals=rho, epsilon=eps, divergence=div, unbalanced_solver=sol, tol=0, max_iter_ot=2000, tol_ot=1e-12, log=True)
    if fused:
        X, Y = g.metric(n) * .4, g.metric(m) * .4
        wx = wf = g.hist(n)
        wy = vf = g.hist(m)
        d1, d2 = n, m
        A = g.cost(n, m) if g.flip() else None
        al = g.u(.1, 1) if A is not None else 0
        pair_al = (al, 0.0)
        o.update(reg_type=rt)
        rs = g.flip(.3) and rt == "joint" and sol != "lbfgsb"
    else:
        d1, d2 = g.n(2, 3), g.n(2, 3)
        X, Y = g.v.uniform(0, .6, (n, d1)), g.v.uniform(0, .6, (m, d2))
        wx, wf, wy, vf = g.hist(n), g.hist(d1), g.hist(m), g.hist(d2)
        o.update(reg_type=rt)
        A = None
        pair_al = (0.0, 0.0)
        rs = False
    B = None
    if not fused and g.flip():
        A, B = g.cost(n, m), g.cost(d1, d2)
        pair_al = (g.u(.1, 1), g.u(.1, 1))
    F = __import__("importlib").import_module("ot.gromov._unbalanced").fused_unbalanced_across_spaces_divergence
    aa, bb = (A, B)

    def go(k):
        kw = dict(o, max_iter=k, rescale_plan=False)
        if aa is not None or bb is not None:
            kw.update(M_samp=aa, M_feat=bb, alpha=pair_al)
        return F(X, Y, wx, wf, wy, vf, **kw)
    D = kl if div == "kl" else l2
    ou = np.multiply.outer

    def e(r):
        S, P = num(r[0]), num(r[1])
        v = float(((X[:, None, :, None] - Y[None, :, None, :]) ** 2 * S[:, :, None, None] * P[None, None]).sum())
        if aa is not None:
            v += pair_al[0] * float((aa * S).sum())
        if bb is not None:
            v += pair_al[1] * float((bb * P).sum())
        v += rho[0] * D(ou(S.sum(1), P.sum(1)), ou(wx, wf)) + rho[1] * D(ou(S.sum(0), P.sum(0)), ou(wy, vf))
        if rt == "joint":
            v += eps[0] * D(ou(S, P), ou(ou(wx, wy), ou(wf, vf)))
        else:
            v += eps[0] * D(S, ou(wx, wy)) + eps[1] * D(P, ou(wf, vf))
        return v
    return Mono(go, e, slack=3e-6, hi=6, logged=lambda r: r[2]["ucoot_cost"] if "ucoot_cost" in r[2] else None)


mono("ucoot")(lambda ot, g: _ucoot(ot, g, "kl"))
mono("ucoot l2")(lambda ot, g: _ucoot(ot, g, "l2"))


# ------------------------------------------------------------------ barycenters
@mono("free support")
def _(ot, g):
    ns = [g.n(3, 5) for _ in range(g.n(2, 3))]
    Xs, ws, w = [g.pts(n) for n in ns], [g.hist(n) for n in ns], g.hist(len(ns))
    b, X0 = g.hist(4), g.pts(4)
    go = lambda k: ot.lp.free_support_barycenter(Xs, ws, X0.copy(), b=b, weights=w, numItermax=k, stopThr=0)
    return Mono(go, lambda X: sum(w[i] * ot.emd2(b, ws[i], ((X[:, None] - Xs[i][None]) ** 2).sum(-1)) for i in range(len(ns))))


@mono("factored")
def _(ot, g):
    n, m = g.n(), g.n()
    X, Y, a, b = g.pts(n), g.pts(m), g.hist(n), g.hist(m)
    X0 = g.pts(3)
    go = lambda k: ot.factored.factored_optimal_transport(X, Y, a, b, reg=0.0, r=3, X0=X0.copy(), numItermax=k, stopThr=0)

    def e(r):
        P, Q, Z = map(num, r[:3])
        return float((P * ((X[:, None] - Z[None]) ** 2).sum(-1)).sum() + (Q * ((Z[:, None] - Y[None]) ** 2).sum(-1)).sum())
    return Mono(go, e)


@mono("bures")
def _(ot, g):
    k, d = g.n(2, 4), 2
    m, C, w = g.pts(k), g.cov(d, k), g.hist(k)
    from scipy.linalg import sqrtm

    def go(n):
        return ot.gaussian.bures_wasserstein_barycenter(m, C, w, num_iter=n, eps=0)

    def e(r):
        S = num(r[1])
        h = np.real(sqrtm(S))
        return sum(w[i] * float(np.trace(S + C[i] - 2 * np.real(sqrtm(h @ C[i] @ h)))) for i in range(k))
    return Mono(go, e)


@mono("gw barycenters")
def _(ot, g):
    fused = g.flip()
    ns = [g.n(3, 5) for _ in range(2)]
    Cs, ps, lam, Ys = [g.sym(n) + .1 for n in ns], [g.hist(n) for n in ns], [.5, .5], [g.pts(n) for n in ns]
    N = 4
    p = g.hist(N)
    loss = g.pick(["square_loss", "kl_loss"])
    kw = dict(p=p, lambdas=lam, loss_fun=loss, warmstartT=True, stop_criterion="loss", tol=-1, log=True, init_C=g.sym(N))
    al = g.pick([.3, .7]) if fused else 1.0
    if fused:
        kw.update(alpha=al, init_X=g.pts(N))
        go = lambda k: ot.gromov.fgw_barycenters(N, Ys, Cs, ps, max_iter=k, **kw)
    else:
        go = lambda k: ot.gromov.gromov_barycenters(N, Cs, ps, max_iter=k, **kw)

    def e(r):
        l = r[-1]
        C = num(r[-2])
        v = 0.0
        for s in range(2):
            T = num(l["T"][s])
            x = al * gw_ref(C, Cs[s], T, loss, p, ps[s])
            if fused:
                x += (1 - al) * float((T * ((num(r[0])[:, None] - Ys[s][None]) ** 2).sum(-1)).sum())
            v += x
        return v
    # the inner solver shares the budget, so two budgets are two different runs: the history of one run is checked instead
    return Mono(go, e, hi=0, history=lambda r: list(map(float, r[-1]["loss"])) + [e(r)], slack=1e-7)


@mono("joint mapping")
def _(ot, g):
    n, m = g.n(4, 6), g.n(4, 6)
    xs, xt = g.pts(n), g.pts(m)
    mu, eta, bias = g.u(.3, 2), g.u(.01, .5), g.flip()
    M = ((xs[:, None] - xt[None]) ** 2).sum(-1) * n
    if g.flip():
        go = lambda k: ot.mapping.joint_OT_mapping_linear(xs, xt, mu=mu, eta=eta, bias=bias, numItermax=k, stopThr=0, stopInnerThr=0, numInnerItermax=g_in)
        x1 = np.hstack([xs, np.ones((n, 1))]) if bias else xs

        def om(L):
            D = L[:2] - np.eye(2)
            return float((D ** 2).sum())
    else:
        s = g.u(.5, 2)
        go = lambda k: ot.mapping.joint_OT_mapping_kernel(xs, xt, mu=mu, eta=eta, bias=bias, sigma=s, numItermax=k, stopThr=0, stopInnerThr=0, numInnerItermax=g_in)
        K = np.exp(-((xs[:, None] - xs[None]) ** 2).sum(-1) / (2 * s ** 2))
        x1 = np.hstack([K, np.ones((n, 1))]) if bias else K

        def om(L):
            return float(np.trace(L[:n].T @ K @ L[:n])) + float((L[n:] ** 2).sum())
    g_in = g.n(2, 12)

    def e(r):
        G, L = num(r[0]), num(r[1])
        return float(((x1 @ L - n * G @ xt) ** 2).sum()) + mu * float((G * M).sum()) + eta * om(L)
    return Mono(go, e, slack=1e-7)


@mono("unmixing")
def _(ot, g):
    n, m, D = g.n(3, 5), g.n(3, 4), 3
    C, Cd = g.sym(n), np.stack([g.sym(m) for _ in range(D)])
    p, q = g.hist(n), g.hist(m)
    reg = g.pick([0.0, 0.05])
    fused = g.flip()
    kw = dict(reg=reg, p=p, q=q, tol_outer=-1, tol_inner=1e-9, max_iter_inner=g.n(5, 200))
    if fused:
        Y, Yd, al = g.pts(n), np.stack([g.pts(m) for _ in range(D)]), g.pick([.3, .7])
        go = lambda k: ot.gromov.fused_gromov_wasserstein_linear_unmixing(C, Y, Cd, Yd, alpha=al, max_iter_outer=k, **kw)
    else:
        al = 1.0
        go = lambda k: ot.gromov.gromov_wasserstein_linear_unmixing(C, Cd, max_iter_outer=k, **kw)

    def e(r):
        w, T = num(r[0]), num(r[-2])
        v = al * gw_ref(C, np.tensordot(w, Cd, 1), T, "square_loss", p, q)
        if fused:
            y = np.tensordot(w, Yd, 1)
            v += (1 - al) * float((T * ((Y[:, None] - y[None]) ** 2).sum(-1)).sum())
        return v - reg * float((w ** 2).sum())
    return Mono(go, e, slack=1e-7, hi=6, logged=lambda r: r[-1])
