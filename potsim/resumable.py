"""Solvers that can be given a state to start from, and how that state is read
from what they return.

An entry builds one problem; `start(state, n)` is the call that does n
iterations from a state (None: from scratch), `state(result)` what a caller
would save, `out(result)` what has to agree.  With the tolerances at zero the
number of iterations is exactly n, so a chain of segments must arrive where one
long run arrives."""
import numpy as np

from .gen import Call, Gen

RES = {}
KINDS = {}


class Seg:
    tol = 1e-7
    zero = 0.0         # the tolerance that never stops
    convex = None      # tolerance under which any start arrives at the same solution
    each = 0           # length of every segment (0: any)
    budget = 12        # iterations in all, at most

    def __init__(self, fn, args, kw, n, state, out, off=(), **attrs):
        self.fn, self.args, self.kw, self.n, self.state, self.out, self.off = fn, args, kw, n, state, out, off
        self.__dict__.update(attrs)

    def start(self, st, n, tols=None):
        kw = dict(self.kw)
        kw[self.n] = n
        for t in self.off:
            kw[t] = self.zero if tols is None else tols
        if st:
            kw.update(st)
        return Call(self.fn, *self.args, **kw)


def res(name, kinds="chain"):
    def deco(f):
        RES[name] = f
        KINDS[name] = kinds.split()
        return f
    return deco


def build(ot, name, shape, value):
    return RES[name](ot, Gen(ot, shape, value))


def _log(r):
    return r[-1]


def _ab(g, lo=3, hi=6):
    n, m = g.n(lo, hi), g.n(lo, hi)
    return g.hist(n), g.hist(m), g.cost(n, m)


# ------------------------------------------------------------------ entropic
def _uv(r):
    l = r[-1]
    return {"warmstart": (np.log(l["u"]), np.log(l["v"]))}


def _luv(r):
    l = r[-1]
    return {"warmstart": (l["log_u"], l["log_v"])}


def _ws(r):
    return {"warmstart": r[-1]["warmstart"]}


def _foreign(g, n, m, s=0.5):
    return {"warmstart": (g.v.normal(size=n) * s, g.v.normal(size=m) * s)}


def _state_for(meth):
    return {"sinkhorn": _uv, "sinkhorn_knopp": _uv, "greenkhorn": _uv, "sinkhorn_log": _luv, "sinkhorn_stabilized": _ws, "sinkhorn_epsilon_scaling": _ws}[meth]


@res("sinkhorn", "chain foreign")
def _(ot, g):
    a, b, M = _ab(g)
    meth = g.pick(["sinkhorn", "sinkhorn_log", "greenkhorn", "sinkhorn_stabilized"])
    direct = g.flip()
    kw = dict(log=True, warn=False)
    if direct:
        fn = getattr(ot.bregman, {"sinkhorn": "sinkhorn_knopp"}.get(meth, meth))
        if fn is ot.bregman.sinkhorn_stabilized:
            kw["tau"] = float(g.pick([1e3, 1.5, 3.0]))
    else:
        fn, kw["method"] = ot.bregman.sinkhorn, meth
    if direct and meth == "sinkhorn_stabilized" and kw["tau"] < 100:
        kw["stopThr"] = 0.0
    return Seg(fn, (a, b, M, g.u(.1, 1)), kw, "numItermax", _state_for(meth), lambda r: r[0], ("stopThr",), budget=60, convex=1e-6,
               foreign=lambda g2: _foreign(g2, len(a), len(b)), long=3000 if meth != "greenkhorn" else 6000, atol=1e-11)


@res("sinkhorn2", "chain foreign")
def _(ot, g):
    a, b, M = _ab(g)
    meth = g.pick(["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"])
    rt = g.pick([None, "KL", "entropy"])
    kw = dict(log=True, warn=False, method=meth)
    return Seg(ot.bregman.sinkhorn2, (a, b, M, g.u(.1, 1)), kw, "numItermax", _state_for(meth), lambda r: r[0], ("stopThr",), budget=60, convex=1e-6,
               foreign=lambda g2: _foreign(g2, len(a), len(b)), long=3000, atol=1e-11)


@res("sinkhorn several", "chain")
def _(ot, g):
    n, m, k = g.n(), g.n(), g.n(2, 3)
    meth = g.pick(["sinkhorn", "sinkhorn_log"])
    fn = {"sinkhorn": ot.bregman.sinkhorn_knopp, "sinkhorn_log": ot.bregman.sinkhorn_log}[meth]
    return Seg(fn, (g.hist(n), g.hists(m, k), g.cost(n, m), g.u(.1, 1)), dict(log=True, warn=False), "numItermax", _state_for(meth), lambda r: r[0],
               ("stopThr",), budget=60)


@res("sinkhorn_epsilon_scaling", "foreign")
def _(ot, g):
    a, b, M = _ab(g)
    return Seg(ot.bregman.sinkhorn_epsilon_scaling, (a, b, M, g.u(.2, 1)), dict(log=True, warn=False), "numItermax", _ws, lambda r: r[0], ("stopThr",),
               convex=1e-5, foreign=lambda g2: _foreign(g2, len(a), len(b)), long=100, atol=1e-9)


@res("empirical_sinkhorn", "chain foreign")
def _(ot, g):
    n, m = g.n(), g.n()
    lazy = g.flip()
    fn = g.pick([ot.bregman.empirical_sinkhorn, ot.bregman.empirical_sinkhorn2])
    kw = dict(log=True, warn=False, a=g.hist(n), b=g.hist(m))
    st = _uv
    if lazy:
        kw.update(isLazy=True, batchSize=g.n(1, 4))
        st = lambda r: {"warmstart": (r[-1]["u"], r[-1]["v"])}
    X, Y, reg = g.pts(n), g.pts(m), g.u(1, 3)
    out = (lambda r: (r[0], r[1])) if lazy and fn is ot.bregman.empirical_sinkhorn else (lambda r: r[0])
    return Seg(fn, (X, Y, reg), kw, "numIterMax", st, out, ("stopThr",), budget=60, convex=None if lazy else 1e-6,
               foreign=lambda g2: _foreign(g2, n, m), long=3000, atol=1e-11)


@res("empirical_sinkhorn_divergence", "foreign")
def _(ot, g):
    n, m = g.n(2, 6), g.n(2, 6)
    kw = dict(warn=False, log=True, a=g.hist(n), b=g.hist(m))
    return Seg(ot.bregman.empirical_sinkhorn_divergence, (g.pts(n), g.pts(m), g.u(1, 3)), kw, "numIterMax", lambda r: _uv((r[-1]["log_sinkhorn_ab"],)), lambda r: r[0], ("stopThr",),
               convex=1e-6, foreign=lambda g2: _foreign(g2, n, m), long=3000, atol=1e-11,
               settled=lambda r: all(r[-1]["log_sinkhorn_" + k]["err"][-1] <= 1e-11 for k in ("ab", "a", "b")))


@res("empirical_sinkhorn_nystroem", "chain foreign")
def _(ot, g):
    n, m = g.n(5, 8), g.n(5, 8)
    fn = g.pick([ot.bregman.empirical_sinkhorn_nystroem, ot.bregman.empirical_sinkhorn_nystroem2])
    two = fn is ot.bregman.empirical_sinkhorn_nystroem2
    return Seg(fn, (g.pts(n), g.pts(m)), dict(reg=4.0, anchors=4, a=g.hist(n), b=g.hist(m), random_state=g.seed(), log=True, warn=False), "numItermax", _uv,
               (lambda r: r[0]) if two else (lambda r: (r[-1]["u"], r[-1]["v"])), ("stopThr",), budget=40)


@res("sinkhorn_low_rank_kernel", "chain")
def _(ot, g):
    n, m = g.n(5, 8), g.n(5, 8)
    return Seg(ot.lowrank.sinkhorn_low_rank_kernel, (g.v.uniform(.1, 1, (n, 3)), g.v.uniform(.1, 1, (m, 3)), g.hist(n), g.hist(m)), dict(log=True, warn=False),
               "numItermax", lambda r: {"warmstart": (np.log(r[0]), np.log(r[1]))}, lambda r: r[:2], ("stopThr",), budget=40)


# ---------------------------------------------------------------- unbalanced
def _lu(r):
    return {"warmstart": (r[-1]["logu"], r[-1]["logv"])}


@res("sinkhorn_unbalanced", "chain foreign")
def _(ot, g):
    n, m = g.n(), g.n()
    meth = g.pick(["sinkhorn", "sinkhorn_stabilized"])
    x, y = g.u(.5, 2), g.u(.5, 2)
    rm = g.pick(["s", "t", "semi"])
    kw = dict(method=meth, log=True, reg_type=g.pick(["kl", "entropy"]))
    if meth == "sinkhorn_stabilized":
        kw["tau"] = float(g.pick([1e5, 3.0]))
    fn = g.pick([ot.unbalanced.sinkhorn_unbalanced, ot.unbalanced.sinkhorn_unbalanced2])
    return Seg(fn, (g.hist(n), g.hist(m) * 1.3, g.cost(n, m), g.u(.2, 1), x if rm == "s" else (x, y) if rm == "t" else (float("inf"), y)),
               kw, "numItermax", _lu, lambda r: r[0], ("stopThr",), budget=60, convex=1e-5, foreign=lambda g2: _foreign(g2, n, m), long=1500, atol=1e-12)


@res("sinkhorn_unbalanced several", "chain")
def _(ot, g):
    n, m, k = g.n(), g.n(), g.n(2, 3)
    meth = g.pick(["sinkhorn", "sinkhorn_stabilized"])
    return Seg(ot.unbalanced.sinkhorn_unbalanced, (g.hist(n), g.hists(m, k), g.cost(n, m), g.u(.2, 1), g.u(.5, 2)), dict(method=meth, log=True),
               "numItermax", _lu, lambda r: r[0], ("stopThr",), budget=40)


@res("translation_invariant", "foreign")
def _(ot, g):
    n, m = g.n(), g.n()
    return Seg(ot.unbalanced.sinkhorn_unbalanced, (g.hist(n), g.hist(m) * 1.3, g.cost(n, m), g.u(.3, 1), g.u(.5, 2)),
               dict(method="sinkhorn_translation_invariant", log=True), "numItermax", _lu, lambda r: r[0], ("stopThr",), convex=1e-5,
               foreign=lambda g2: _foreign(g2, n, m), long=1000, atol=1e-12)


@res("mm_unbalanced", "chain foreign")
def _(ot, g):
    n, m = g.n(), g.n()
    reg = g.pick([0, 0.3])
    div = g.pick(["kl", "l2"])
    fn = g.pick([ot.unbalanced.mm_unbalanced, ot.unbalanced.mm_unbalanced2])
    two = fn is ot.unbalanced.mm_unbalanced2
    return Seg(fn, (g.hist(n), g.hist(m) * 1.3, g.cost(n, m), g.u(.5, 2)), dict(reg=reg, div=div, log=True, c=None), "numItermax",
               (lambda r: {"G0": r[-1]["G"][-1]}) if two else (lambda r: {"G0": r[0]}), lambda r: r[0], ("stopThr",), budget=40,
               convex=1e-4 if reg and div == "kl" else None, foreign=lambda g2: {"G0": g2.v.uniform(.01, .5, (n, m))}, long=4000, atol=1e-13)


@res("lbfgsb_unbalanced", "foreign")
def _(ot, g):
    n, m = g.n(3, 5), g.n(3, 5)
    return Seg(ot.unbalanced.lbfgsb_unbalanced, (g.hist(n), g.hist(m) * 1.3, g.cost(n, m), g.u(.3, 1), g.u(.5, 2)),
               dict(reg_div="kl", regm_div=g.pick(["kl", "l2"]), log=True), "numItermax", lambda r: {"G0": r[0]}, lambda r: r[0], ("stopThr",),
               convex=2e-3, foreign=lambda g2: {"G0": g2.v.uniform(.02, .3, (n, m))}, long=3000, atol=1e-14)


# ------------------------------------------------------- conditional gradient
def _G0(r):
    return {"G0": r[0]}


def _quad():
    return (lambda G: 0.5 * np.sum(G ** 2)), (lambda G: G)


@res("cg")
def _(ot, g):
    a, b, M = _ab(g)
    f, df = _quad()
    return Seg(ot.optim.cg, (a, b, M, g.u(.1, 1), f, df), dict(log=True), "numItermax", _G0, lambda r: r[0], ("stopThr", "stopThr2"), budget=25)


@res("gcg")
def _(ot, g):
    a, b, M = _ab(g)
    f, df = _quad()
    return Seg(ot.optim.gcg, (a, b, M, g.u(.2, 1), g.u(.1, 1), f, df), dict(log=True), "numItermax", _G0, lambda r: r[0], ("stopThr", "stopThr2"), budget=6)


@res("semirelaxed_cg")
def _(ot, g):
    n, m = g.n(), g.n()
    a = g.hist(n)
    f, df = _quad()
    ls = lambda cost, G, deltaG, Mi, cost_G, df_G, **kw: (lambda r: (r[0], r[1], r[2], df(G + r[0] * deltaG)))(
        ot.optim.line_search_armijo(cost, G, deltaG, Mi + df_G, cost_G, alpha_min=0.0, alpha_max=1.0))
    s = Seg(ot.optim.semirelaxed_cg, (a, np.ones(m) / m, g.cost(n, m), g.u(.1, 1), f, df), dict(log=True, line_search=ls), "numItermax", _G0, lambda r: r[0],
            ("stopThr", "stopThr2"), budget=15)
    s.kw["G0"] = a[:, None] * np.ones((1, m)) / m
    return s


@res("partial_cg")
def _(ot, g):
    a, b, M = _ab(g)
    f, df = _quad()
    w = g.u(.3, .8)
    ext = lambda G: G
    ls = lambda cost, G, deltaG, Mi, cost_G, df_G, **kw: (lambda r: (r[0], r[1], r[2], df(G + r[0] * deltaG)))(
        ot.optim.line_search_armijo(cost, G, deltaG, Mi + df_G, cost_G, alpha_min=0.0, alpha_max=1.0))
    k = 1
    ae, be = np.append(a, [(b.sum() - w) / k] * k), np.append(b, [(a.sum() - w) / k] * k)
    s = Seg(ot.optim.partial_cg, (a, b, ae, be, M, g.u(.1, 1), f, df, np.outer(a, b) * w, ls), dict(log=True, warn=False), "numItermax", None, lambda r: r[0],
            ("stopThr", "stopThr2"), budget=15)
    s.pos = 8
    return s


@res("weak")
def _(ot, g):
    n, m = g.n(), g.n()
    return Seg(ot.weak.weak_optimal_transport, (g.pts(n), g.pts(m), g.hist(n), g.hist(m)), dict(log=True), "numItermax", _G0, lambda r: r[0],
               ("stopThr", "stopThr2"), budget=12)


# -------------------------------------------------------------------- gromov
def _T(r):
    return {"G0": r[-1]["T"]}


def _gw(name, fused=False, srel=False, n_="max_iter", off=("tol_rel", "tol_abs"), budget=12, **extra):
    @res("gw." + name)
    def _(ot, g):
        fn = getattr(ot.gromov, name)
        two = name.endswith("2")
        n, m = g.n(3, 6), g.n(3, 6)
        loss = g.pick(["square_loss", "kl_loss"])
        sh = 0.1 if loss == "kl_loss" else 0
        C1, C2 = g.metric(n) + sh, g.metric(m) + sh
        if g.flip(.3):
            C1 = C1 + g.v.uniform(0, .2, C1.shape)
        p, q = g.hist(n), g.hist(m)
        kw = {k: (v(g) if callable(v) else v) for k, v in extra.items()}
        kw.update(loss_fun=loss, log=True)
        if fused:
            kw["alpha"] = g.u(.2, .8)
        args = ([g.cost(n, m)] if fused else []) + [C1, C2, p] + ([] if srel else [q])
        s = Seg(fn, tuple(args), kw, n_, _T if two else _G0, lambda r: r[0], off, budget=budget)
        if g.flip(.3) and not srel:
            s.kw["G0"] = np.outer(p, q) * kw.get("m", 1.0)
        return s


for _f in ("gromov_wasserstein", "gromov_wasserstein2"):
    _gw(_f, armijo=lambda g: g.flip(.3))
for _f in ("fused_gromov_wasserstein", "fused_gromov_wasserstein2"):
    _gw(_f, True, armijo=lambda g: g.flip(.3))
for _f in ("semirelaxed_gromov_wasserstein", "semirelaxed_gromov_wasserstein2"):
    _gw(_f, srel=True)
for _f in ("semirelaxed_fused_gromov_wasserstein", "semirelaxed_fused_gromov_wasserstein2"):
    _gw(_f, True, True)
for _f in ("partial_gromov_wasserstein", "partial_gromov_wasserstein2"):
    _gw(_f, n_="numItermax", off=("tol",), m=lambda g: g.u(.4, .95), warn=False)
for _f in ("partial_fused_gromov_wasserstein", "partial_fused_gromov_wasserstein2"):
    _gw(_f, True, n_="numItermax", off=("tol",), m=lambda g: g.u(.4, .95), warn=False)
_e = dict(epsilon=lambda g: g.u(.3, 1), solver=lambda g: g.pick(["PGD", "PPA"]))
for _f in ("entropic_gromov_wasserstein", "entropic_gromov_wasserstein2"):
    _gw(_f, off=("tol",), budget=8, **_e)
for _f in ("entropic_fused_gromov_wasserstein", "entropic_fused_gromov_wasserstein2"):
    _gw(_f, True, off=("tol",), budget=8, **_e)
_b = dict(epsilon=lambda g: g.u(.3, 1), marginal_loss=lambda g: g.flip())
for _f in ("BAPG_gromov_wasserstein", "BAPG_gromov_wasserstein2"):
    _gw(_f, off=("tol",), **_b)
for _f in ("BAPG_fused_gromov_wasserstein", "BAPG_fused_gromov_wasserstein2"):
    _gw(_f, True, off=("tol",), **_b)
_es = dict(epsilon=lambda g: g.u(.3, 1))
for _f in ("entropic_semirelaxed_gromov_wasserstein", "entropic_semirelaxed_gromov_wasserstein2"):
    _gw(_f, srel=True, off=("tol",), **_es)
for _f in ("entropic_semirelaxed_fused_gromov_wasserstein", "entropic_semirelaxed_fused_gromov_wasserstein2"):
    _gw(_f, True, True, off=("tol",), **_es)
_ep = dict(reg=lambda g: g.u(1, 5), m=lambda g: g.u(.4, .95))
for _f in ("entropic_partial_gromov_wasserstein", "entropic_partial_gromov_wasserstein2"):
    _gw(_f, n_="numItermax", off=("tol",), budget=4, **_ep)
for _f in ("entropic_partial_fused_gromov_wasserstein", "entropic_partial_fused_gromov_wasserstein2"):
    _gw(_f, True, n_="numItermax", off=("tol",), budget=4, **_ep)


@res("coot")
def _(ot, g):
    n, m = g.n(3, 5), g.n(3, 5)
    eps = g.pick([0, 0.5, (0.5, 0), (0, 0.7)])
    kw = dict(epsilon=eps, nits_ot=30000 if eps == 0 else 200, log=True, eval_bcd=1, method_sinkhorn="sinkhorn")
    if g.flip():
        kw.update(M_samp=g.cost(n, m), alpha=g.pick([.5, (.5, 0.0)]))
    return Seg(ot.coot.co_optimal_transport, (g.pts(n, 3), g.pts(m, 4), g.hist(n), g.hist(3), g.hist(m), g.hist(4)), kw, "nits_bcd",
               lambda r: {"warmstart": {"pi_sample": r[0], "pi_feature": r[1], "duals_sample": r[2]["duals_sample"], "duals_feature": r[2]["duals_feature"]}},
               lambda r: r[:2], ("tol_bcd", "early_stopping_tol"), budget=8)


def _ucoot(fused):
    def _(ot, g):
        n, m = g.n(3, 5), g.n(3, 5)
        uns = g.pick(["sinkhorn", "sinkhorn_log"] if fused else ["sinkhorn", "sinkhorn_log", "mm", "lbfgsb"])
        sk = uns.startswith("sink")
        eps = g.pick([0.5, 1.0]) if sk else g.pick([0, .3])
        if sk and not fused:
            eps = g.pick([eps, (.5, 1.0)])
        kw = dict(reg_marginals=g.pick([2.0, (3.0, 2.0)]), epsilon=eps, unbalanced_solver=uns, max_iter_ot=40, log=True, divergence="kl" if sk else g.pick(["kl", "l2"]))
        if fused:
            kw.update(max_iter_ot=3000, tol_ot=1e-13)     # the second plan and its duals are not part of the state
        if fused:
            fn = ot.gromov.fused_unbalanced_gromov_wasserstein
            args = (g.metric(n), g.metric(m), g.hist(n), g.hist(m))
            if g.flip():
                kw.update(M=g.cost(n, m), alpha=.5)

            def st(r):
                return {"init_pi": r[0], "init_duals": r[2]["duals"]}
        else:
            fn = ot.gromov.unbalanced_co_optimal_transport
            args = (g.pts(n, 3), g.pts(m, 4), g.hist(n), None, g.hist(m), None)
            if g.flip():
                kw.update(M_samp=g.cost(n, m), alpha=.5)

            def st(r):
                d = {"init_pi": (r[0], r[1])}
                if sk:
                    d["init_duals"] = (r[2]["duals_sample"], r[2]["duals_feature"])
                return d
        s = Seg(fn, args, kw, "max_iter", st, lambda r: r[:2], ("tol",) if fused else ("tol", "tol_ot"), budget=5, tol=1e-5)
        return s
    return _


res("ucoot")(_ucoot(False))
res("fugw")(_ucoot(True))


@res("solve_gromov_batch")
def _(ot, g):
    B, n, m = g.n(2, 3), g.n(3, 5), g.n(3, 5)
    kw = dict(reg=g.u(.2, .6), max_iter_inner=30, symmetric=True)
    if g.flip():
        kw.update(M=np.stack([g.cost(n, m) for _ in range(B)]), alpha=.5)
    return Seg(ot.batch.solve_gromov_batch, (np.stack([g.metric(n) for _ in range(B)]), np.stack([g.metric(m) for _ in range(B)])), kw, "max_iter",
               lambda r: {"T_init": r.plan}, lambda r: r.plan, ("tol", "tol_inner"), budget=8, tol=1e-5)


# --------------------------------------------------------------- barycenters
@res("free_support_barycenter")
def _(ot, g):
    ns = [g.n() for _ in range(g.n(2, 3))]
    k = 4
    s = Seg(ot.lp.free_support_barycenter, ([g.pts(n) for n in ns], [g.hist(n) for n in ns]), dict(X_init=g.pts(k), b=g.hist(k) if g.flip() else None,
            weights=g.hist(len(ns)), log=True), "numItermax", lambda r: {"X_init": r[0]}, lambda r: r[0], ("stopThr",), budget=10)
    return s


@res("free_support_sinkhorn_barycenter")
def _(ot, g):
    ns = [g.n() for _ in range(2)]
    return Seg(ot.bregman.free_support_sinkhorn_barycenter, ([g.pts(n) for n in ns], [g.hist(n) for n in ns]),
               dict(X_init=g.pts(4), reg=g.u(.5, 2), weights=g.hist(2), log=True, numInnerItermax=40), "numItermax", lambda r: {"X_init": r[0]}, lambda r: r[0], ("stopThr",), budget=8)


@res("generalized_free_support_barycenter")
def _(ot, g):
    ns = [g.n() for _ in range(2)]
    return Seg(ot.lp.generalized_free_support_barycenter, ([g.pts(n) for n in ns], [g.hist(n) for n in ns], [g.v.normal(size=(2, 2)) for _ in ns], 4),
               dict(Y_init=g.pts(4), weights=g.hist(2), log=True, eps=.01), "numItermax", lambda r: {"Y_init": r[0]}, lambda r: r[0], ("stopThr",), budget=8)


@res("free_support_barycenter_generic_costs")
def _(ot, g):
    ns = [g.n(), g.n()]
    cost = lambda x, y: ((x[:, None] - y[None]) ** 2).sum(-1)
    w = g.u(.2, .8)
    gb = lambda y: w * y[0] + (1 - w) * y[1]
    return Seg(ot.lp.free_support_barycenter_generic_costs, ([g.pts(n) for n in ns], [g.hist(n) for n in ns]),
               dict(X_init=g.pts(4), cost_list=cost, ground_bary=gb, a=g.hist(4) if g.flip() else None, log=True, method="L2_barycentric_proj"),
               "numItermax", lambda r: {"X_init": r[0]}, lambda r: r[0], ("stopThr",), budget=6, zero=-np.inf)


@res("gmm_barycenter")
def _(ot, g):
    def gm(k):
        return g.pts(k), g.cov(2, k), g.hist(k)
    A = [gm(2), gm(3)]
    s = Seg(ot.gmm.gmm_barycenter_fixed_point, ([x[0] for x in A], [x[1] for x in A], [x[2] for x in A]),
            dict(means_init=g.pts(2), covs_init=g.cov(2, 2), weights=g.hist(2), log=True, barycentric_proj_method=g.pick(["euclidean", "bures"])), "iterations",
            lambda r: {"means_init": r[0], "covs_init": r[1]}, lambda r: r[:2], budget=4)
    s.mutates = ("means_init", "covs_init")
    return s


@res("factored")
def _(ot, g):
    n, m = g.n(), g.n()
    return Seg(ot.factored.factored_optimal_transport, (g.pts(n), g.pts(m), g.hist(n), g.hist(m)), dict(reg=g.pick([0.0, .5]), r=3, X0=g.pts(3), log=True),
               "numItermax", lambda r: {"X0": r[2]}, lambda r: r[2], (), budget=8)


@res("solve", "chain foreign")
def _(ot, g):
    n, m = g.n(), g.n()
    kind = g.pick(["ent", "ent", "unb"])
    kw = dict(a=g.hist(n), b=g.hist(m))
    if kind == "ent":
        kw.update(reg=g.u(.2, 1), reg_type=g.pick(["KL", "entropy"]))
        reg = kw["reg"]
    else:
        kw.update(reg=g.u(.2, 1), unbalanced=g.u(.5, 2), unbalanced_type="KL")
        reg = kw["reg"]
    # potentials in the result are multiplied by reg, as the ones handed in are
    return Seg(ot.solve, (g.cost(n, m),), kw, "max_iter", lambda r: {"potentials_init": (r.potential_a, r.potential_b)}, lambda r: r.plan, ("tol",), budget=40,
               convex=1e-5, foreign=lambda g2: {"potentials_init": (g2.v.normal(size=n) * .3, g2.v.normal(size=m) * .3)}, long=2000, atol=1e-11)


@res("solve quadratic")
def _(ot, g):
    n, m = g.n(), g.n()
    return Seg(ot.solve, (g.cost(n, m),), dict(a=g.hist(n), b=g.hist(m), reg=g.u(.3, 1), reg_type=_quad()), "max_iter", lambda r: {"plan_init": r.plan},
               lambda r: r.plan, ("tol",), budget=20, tol=1e-3)


@res("solve_gromov")
def _(ot, g):
    n, m = g.n(3, 5), g.n(3, 5)
    kind = g.pick(["gw", "fgw", "semi", "partial", "ent", "entsemi"])
    kw = dict(a=g.hist(n), b=g.hist(m))
    if kind == "fgw":
        kw.update(M=g.cost(n, m), alpha=.5)
    if kind in ("ent", "entsemi"):
        kw.update(reg=1.0)
    if kind in ("semi", "entsemi"):
        kw.update(unbalanced_type="semirelaxed", unbalanced=0)
    if kind == "partial":
        kw.update(unbalanced_type="partial", unbalanced=g.u(.4, .9))
    return Seg(ot.solve_gromov, (g.metric(n), g.metric(m)), kw, "max_iter", lambda r: {"plan_init": r.plan}, lambda r: r.plan, ("tol",), budget=8)


@res("solve_sample", "chain")
def _(ot, g):
    n, m = g.n(5, 8), g.n(5, 8)
    kind = g.pick(["ent", "unb", "factored", "lazy"])
    kw = dict(a=g.hist(n), b=g.hist(m))
    st = lambda r: {"potentials_init": (r.potential_a, r.potential_b)}
    out = lambda r: r.plan
    if kind == "ent":
        kw.update(reg=g.u(1, 2))
    elif kind == "unb":
        kw.update(reg=1.0, unbalanced=1.0)
    elif kind == "lazy":
        kw.update(reg=g.u(1, 2), lazy=True, batch_size=g.n(1, 4))
        out = lambda r: (r.potential_a, r.potential_b)
    elif kind == "nystroem":
        kw.update(method="nystroem", reg=4.0, rank=4, random_state=g.seed())
        out = lambda r: r.lazy_plan[:]
    elif kind == "factored":
        kw.update(method="factored", rank=3, X_init=g.pts(3))
        st = None
        return Seg(ot.solve_sample, (g.pts(n), g.pts(m)), kw, "max_iter", lambda r: {"X_init": r.log["X"]} if "X" in (r.log or {}) else None, out, (), budget=6)
    return Seg(ot.solve_sample, (g.pts(n), g.pts(m)), kw, "max_iter", st, out, ("tol",), budget=30)


# ------------------------------------ barycenters of spaces: restart at the end
@res("gw_barycenters")
def _(ot, g):
    name = g.pick(["gromov_barycenters", "fgw_barycenters", "entropic_gromov_barycenters", "entropic_fused_gromov_barycenters"])
    ns = [g.n(4, 5) for _ in range(2)]
    Cs = [g.metric(n) for n in ns]
    fused = "fgw" in name or "fused" in name
    kw = dict(lambdas=g.hist(2), log=True, random_state=g.seed(), loss_fun="square_loss")
    if name.startswith("entropic"):
        kw["epsilon"] = 2.0
    if fused:
        kw["alpha"] = g.pick([.2, .5, .8])
    args = [4] + ([[g.pts(n) for n in ns]] if fused else []) + [Cs, [g.hist(n) for n in ns]]
    if fused:
        xk = "init_Y" if name.startswith("entropic") else "init_X"
        st = lambda r: {"init_C": r[1], xk: r[0]}
        out = lambda r: r[:2]
    else:
        st = lambda r: {"init_C": r[0]}
        out = lambda r: r[0]
    return Seg(getattr(ot.gromov, name), tuple(args), kw, "max_iter", st, out, ("tol",), each=40 if name[0] == "e" else 25, zero=-1.0, tol=2e-3 if name[0] == "e" else 1e-7)
