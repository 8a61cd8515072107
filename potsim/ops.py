"""Registry of public API calls.  Each entry builds one Call from a Gen.

Only public names of `ot` are used, always through attribute look-up at call
time, so that refactorings of private code do not disturb the harness."""
import numpy as np

from .gen import Call, Gen, Skip

OPS = {}


class Op:
    def __init__(self, name, build, tags, seedkw, budget):
        self.name, self.build, self.tags = name, build, set(tags)
        self.seedkw, self.budget = seedkw, budget


def op(name=None, tags="", seedkw=None, budget=None):
    def deco(f):
        nm = name or f.__name__
        assert nm not in OPS, nm
        OPS[nm] = Op(nm, f, tags.split(), seedkw, budget)
        return f
    return deco


def build(ot, name, shape, value):
    o = OPS[name]
    g = Gen(ot, shape, value)
    c = o.build(ot, g)
    c.meta.update(op=name, seedkw=o.seedkw, budget=o.budget)
    return c


# ---------------------------------------------------------------- exact OT
def _ab(g, zeros=False):
    n, m = g.n(), g.n()
    return g.hist(n, zeros), g.hist(m, zeros), g.cost(n, m)


@op(budget="numItermax", tags="lp plan threads")
def emd(ot, g):
    z = g.flip(0.3)
    a, b, M = _ab(g, z)
    return Call(ot.lp.emd, a, b, M, log=g.flip(), numItermax=100000, center_dual=g.flip())


@op(budget="numItermax", tags="lp threads")
def emd_threads(ot, g):
    a, b, M = _ab(g)
    return Call(ot.lp.emd, a, b, M, log=True, numThreads=g.pick([2, 3]))


@op(budget="numItermax", tags="lp")
def emd_warm(ot, g):
    a, b, M = _ab(g, g.flip(0.3))
    return Call(ot.lp.emd, a, b, M, log=True, potentials_init=(g.v.normal(size=len(a)), g.v.normal(size=len(b))))


@op(budget="numItermax", tags="lp sparse")
def emd_sparse(ot, g):
    from scipy.sparse import csr_array
    n = g.n(); m = n
    a = np.ones(n) / n
    M = g.cost(n, m) + 0.1
    mask = (g.v.random((n, m)) < 0.5) | np.eye(n, dtype=bool)
    return Call(ot.lp.emd, a, a.copy(), csr_array(M * mask), log=g.flip())


@op(budget="numItermax", tags="lp")
def emd2(ot, g):
    a, b, M = _ab(g, g.flip(0.3))
    return Call(ot.lp.emd2, a, b, M, log=g.flip(), return_matrix=g.flip(), center_dual=g.flip())


@op(budget="numItermax", tags="lp multi")
def emd2_multi(ot, g):
    n, m, k = g.n(), g.n(), g.n(2, 4)
    return Call(ot.lp.emd2, g.hist(n), g.hists(m, k), g.cost(n, m), log=g.flip(), return_matrix=g.flip())


@op(budget="numItermax", tags="lp")
def emd2_lazy(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.lp.emd2_lazy, g.pts(n), g.pts(m), g.hist(n), g.hist(m),
                metric=g.pick(["sqeuclidean", "euclidean", "cityblock"]), log=g.flip(), return_matrix=g.flip())


@op(tags="lp")
def lp_barycenter(ot, g):
    n, k = g.n(3, 5), g.n(2, 3)
    return Call(ot.lp.barycenter, g.hists(n, k), g.cost(n, n), g.hist(k), solver="highs-ds")


@op(budget="numItermax", tags="lp bary")
def free_support_barycenter(ot, g):
    k = g.n(2, 3)
    ns = [g.n() for _ in range(k)]
    return Call(ot.lp.free_support_barycenter, [g.pts(n) for n in ns], [g.hist(n) for n in ns],
                g.pts(4), weights=g.hist(k), numItermax=g.n(3, 12), log=g.flip())


@op(budget="numItermax", tags="lp bary")
def generalized_free_support_barycenter(ot, g):
    k = 2
    ns = [g.n() for _ in range(k)]
    P = [g.v.normal(size=(2, 2)) for _ in range(k)]
    return Call(ot.lp.generalized_free_support_barycenter, [g.pts(n) for n in ns], [g.hist(n) for n in ns],
                P, 4, Y_init=g.pts(4), weights=g.hist(k), numItermax=g.n(3, 12), log=g.flip(), eps=0.01)


@op(budget="numItermax", tags="lp bary callback")
def free_support_barycenter_generic_costs(ot, g):
    ns = [g.n(), g.n()]
    cost = lambda x, y: ((x[:, None] - y[None]) ** 2).sum(-1)
    gb = lambda y: (y[0] + y[1]) / 2
    return Call(ot.lp.free_support_barycenter_generic_costs, [g.pts(n) for n in ns], [g.hist(n) for n in ns],
                g.pts(4), cost, ground_bary=gb, numItermax=g.n(2, 5), log=g.flip(),
                method=g.pick(["L2_barycentric_proj", "true_fixed_point"]))


@op(tags="lp")
def nw_gluing(ot, g):
    n = g.n()
    a = g.hist(n)
    pis = [ot.lp.emd(a, g.hist(m), g.cost(n, m)) for m in (g.n(), g.n())]
    return Call(ot.lp.NorthWestMMGluing, pis, a, log=g.flip())


@op(tags="lp")
def dmmot_loss(ot, g):
    n = g.n(3, 5)
    return Call(ot.lp.dmmot_monge_1dgrid_loss, g.hists(n, 3), log=True)


@op(tags="lp", budget="niters")
def dmmot_optimize(ot, g):
    n = g.n(3, 5)
    return Call(ot.lp.dmmot_monge_1dgrid_optimize, g.hists(n, 3), niters=g.n(2, 6), log=g.flip())


@op(tags="lp onedim")
def wasserstein_1d(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.lp.wasserstein_1d, g.v.normal(size=n), g.v.normal(size=m), g.hist(n), g.hist(m), p=g.pick([1, 2]))


@op(tags="lp onedim")
def emd_1d(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.lp.emd_1d, g.v.normal(size=n), g.v.normal(size=m), g.hist(n), g.hist(m),
                metric=g.pick(["sqeuclidean", "cityblock", "minkowski"]), p=1.5, dense=True, log=g.flip())


@op(tags="lp onedim")
def emd2_1d(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.lp.emd2_1d, g.v.normal(size=n), g.v.normal(size=m), g.hist(n), g.hist(m), log=g.flip())


@op(tags="lp onedim torchonly")
def emd_1d_dual_backprop(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.lp.emd_1d_dual_backprop, g.v.normal(size=n), g.v.normal(size=m), g.hist(n), g.hist(m), p=2)


@op(tags="lp circle")
def wasserstein_circle(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.lp.wasserstein_circle, g.v.random(n), g.v.random(m), g.hist(n), g.hist(m), p=g.pick([1, 2]))


@op(tags="lp circle")
def binary_search_circle(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.lp.binary_search_circle, g.v.random(n), g.v.random(m), g.hist(n), g.hist(m), p=2, log=g.flip())


@op(tags="lp circle")
def semidiscrete_circle(ot, g):
    n = g.n()
    return Call(ot.lp.semidiscrete_wasserstein2_unif_circle, g.v.random(n), g.hist(n))


@op(tags="lp circle")
def linear_circular_ot(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.lp.linear_circular_ot, g.v.random(n), g.v.random(m), g.hist(n), g.hist(m))


# ---------------------------------------------------------------- entropic
SINK = ["sinkhorn", "sinkhorn_log", "greenkhorn", "sinkhorn_stabilized", "sinkhorn_epsilon_scaling"]


@op(budget="numItermax", tags="sinkhorn plan warm")
def sinkhorn(ot, g):
    a, b, M = _ab(g)
    return Call(ot.bregman.sinkhorn, a, b, M, g.u(0.3, 1.0), method=g.pick(SINK), log=g.flip(), numItermax=500)


@op(budget="numItermax", tags="sinkhorn warm")
def sinkhorn_warm(ot, g):
    a, b, M = _ab(g)
    return Call(ot.bregman.sinkhorn, a, b, M, g.u(0.3, 1.0), method=g.pick(["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "greenkhorn"]),
                log=True, numItermax=500, warmstart=(g.v.normal(size=len(a)) * .3, g.v.normal(size=len(b)) * .3))


@op(budget="numItermax", tags="sinkhorn")
def sinkhorn2(ot, g):
    a, b, M = _ab(g)
    return Call(ot.bregman.sinkhorn2, a, b, M, g.u(0.3, 1.0), method=g.pick(["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"]),
                log=g.flip(), numItermax=500)


@op(budget="numItermax", tags="sinkhorn multi")
def sinkhorn2_multi(ot, g):
    n, m, k = g.n(), g.n(), g.n(2, 4)
    return Call(ot.bregman.sinkhorn2, g.hist(n), g.hists(m, k), g.cost(n, m), g.u(0.3, 1.0),
                method=g.pick(["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"]), log=g.flip(), numItermax=300)


def _direct(name, **extra):
    @op(name, budget="numItermax", tags="sinkhorn plan")
    def f(ot, g, name=name, extra=extra):
        a, b, M = _ab(g)
        return Call(getattr(ot.bregman, name), a, b, M, g.u(0.2, 0.8), log=g.flip(), **extra)
    return f


_direct("sinkhorn_knopp", numItermax=300)
_direct("sinkhorn_log", numItermax=300)
_direct("greenkhorn", numItermax=300)
_direct("sinkhorn_stabilized", numItermax=300)
_direct("sinkhorn_epsilon_scaling", numItermax=50)


@op(budget="maxiter", tags="sinkhorn")
def screenkhorn(ot, g):
    n = m = g.n(5, 8)
    return Call(ot.bregman.screenkhorn, g.hist(n), g.hist(m), g.cost(n, m), g.u(0.3, 1.0), ns_budget=g.pick([n, n - 1]), nt_budget=g.pick([m, m - 1]),
                uniform=g.flip(), restricted=True, maxiter=50, maxfun=100, log=g.flip())


@op(budget="numItermax", tags="bary")
def barycenter(ot, g):
    n, k = g.n(), g.n(2, 3)
    return Call(ot.bregman.barycenter, g.hists(n, k), g.sym(n), g.u(0.3, 1.0), weights=g.hist(k),
                method=g.pick(["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"]), log=g.flip(), numItermax=200)


@op(budget="numItermax", tags="bary")
def barycenter_debiased(ot, g):
    n, k = g.n(), g.n(2, 3)
    return Call(ot.bregman.barycenter_debiased, g.hists(n, k), g.sym(n), g.u(0.3, 1.0), weights=g.hist(k),
                method=g.pick(["sinkhorn", "sinkhorn_log"]), log=g.flip(), numItermax=60)


@op(budget="numItermax", tags="bary")
def free_support_sinkhorn_barycenter(ot, g):
    ns = [g.n(), g.n()]
    return Call(ot.bregman.free_support_sinkhorn_barycenter, [g.pts(n) for n in ns], [g.hist(n) for n in ns],
             g.pts(4), 1.0, numItermax=g.n(2, 5), numInnerItermax=100, log=g.flip())


@op(budget="numItermax", tags="bary")
def convolutional_barycenter2d(ot, g):
    w, h, k = g.n(4, 6), g.n(4, 6), 2
    A = g.v.uniform(0.2, 1, (k, w, h)); A /= A.sum((1, 2), keepdims=True)
    f = g.pick([ot.bregman.convolutional_barycenter2d, ot.bregman.convolutional_barycenter2d_debiased])
    return Call(f, A, g.u(0.05, 0.2), weights=g.hist(k), method=g.pick(["sinkhorn", "sinkhorn_log"]), log=g.flip(), numItermax=30)


@op(budget="numItermax", tags="bary")
def unmix(ot, g):
    n, k = g.n(), 2
    return Call(ot.bregman.unmix, g.hist(n), g.hists(n, k), g.sym(n), g.sym(k), g.hist(k), 0.5, 0.5, 0.1,
                numItermax=50, log=g.flip())


@op(budget="numItermax", tags="bary")
def jcpot_barycenter(ot, g):
    Xs = [g.pts(6), g.pts(6)]
    Ys = [np.array([0, 0, 0, 1, 1, 1])] * 2
    return Call(ot.bregman.jcpot_barycenter, Xs, Ys, g.pts(5), 0.5, numItermax=50, log=g.flip())


@op(budget="numIterMax", tags="sinkhorn empirical")
def empirical_sinkhorn(ot, g):
    n, m = g.n(), g.n()
    lazy = g.flip()
    kw = dict(isLazy=True, batchSize=g.n(1, 4)) if lazy else {}
    return Call(ot.bregman.empirical_sinkhorn, g.pts(n), g.pts(m), g.u(0.5, 2), a=g.hist(n), b=g.hist(m), log=g.flip(),
                numIterMax=60, **kw)


@op(budget="numIterMax", tags="sinkhorn empirical")
def empirical_sinkhorn2(ot, g):
    n, m = g.n(), g.n()
    kw = dict(isLazy=True, batchSize=g.n(1, 4)) if g.flip() else {}
    return Call(ot.bregman.empirical_sinkhorn2, g.pts(n), g.pts(m), g.u(0.5, 2), a=g.hist(n), b=g.hist(m), log=g.flip(),
                numIterMax=60, **kw)


@op(budget="numIterMax", tags="sinkhorn empirical")
def empirical_sinkhorn_divergence(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.bregman.empirical_sinkhorn_divergence, g.pts(n), g.pts(m), g.u(0.5, 2), a=g.hist(n), b=g.hist(m),
                log=g.flip(), numIterMax=60)


@op(budget="numItermax", tags="sinkhorn empirical seeded", seedkw="random_state")
def empirical_sinkhorn_nystroem(ot, g):
    n, m = g.n(5, 8), g.n(5, 8)
    f = g.pick([ot.bregman.empirical_sinkhorn_nystroem, ot.bregman.empirical_sinkhorn_nystroem2])
    return Call(f, g.pts(n), g.pts(m), reg=2.0, anchors=4, a=g.hist(n), b=g.hist(m), random_state=g.seed(), log=g.flip(), numItermax=100)


# ---------------------------------------------------------------- unbalanced
@op(budget="numItermax", tags="unbalanced warm")
def sinkhorn_unbalanced(ot, g):
    n, m = g.n(), g.n()
    meth = g.pick(["sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant", "sinkhorn_reg_scaling"])
    regm = g.pick(["s", "t", "l"])
    x = g.u(0.5, 2); y = g.u(0.5, 2)
    reg_m = x if regm == "s" else ((x, y) if regm == "t" else [x, y])
    return Call(ot.unbalanced.sinkhorn_unbalanced, g.hist(n), g.hist(m) * 1.3, g.cost(n, m), g.u(0.2, 1), reg_m, method=meth,
                reg_type=g.pick(["kl", "entropy"]), log=g.flip(), numItermax=200)


@op(budget="numItermax", tags="unbalanced")
def sinkhorn_unbalanced2(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.unbalanced.sinkhorn_unbalanced2, g.hist(n), g.hist(m) * 1.3, g.cost(n, m), g.u(0.2, 1), g.u(.5, 2),
                method=g.pick(["sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"]), log=g.flip(), numItermax=200,
                returnCost=g.pick(["linear", "total"]))


@op(budget="numItermax", tags="unbalanced multi")
def sinkhorn_unbalanced_multi(ot, g):
    n, m, k = g.n(), g.n(), 3
    return Call(ot.unbalanced.sinkhorn_unbalanced, g.hist(n), g.hists(m, k), g.cost(n, m), g.u(0.2, 1), g.u(.5, 2),
                method=g.pick(["sinkhorn", "sinkhorn_stabilized"]), log=g.flip(), numItermax=200)


@op(budget="numItermax", tags="unbalanced")
def mm_unbalanced(ot, g):
    n, m = g.n(), g.n()
    f = g.pick([ot.unbalanced.mm_unbalanced, ot.unbalanced.mm_unbalanced2])
    kw = {}
    if g.flip(0.3):
        kw["G0"] = g.v.uniform(0.01, 0.1, (n, m))
    return Call(f, g.hist(n), g.hist(m) * 1.3, g.cost(n, m), g.u(.5, 2), reg=g.pick([0, 0.3]), div=g.pick(["kl", "l2"]),
                numItermax=100, log=g.flip(), **kw)


@op(budget="numItermax", tags="unbalanced")
def lbfgsb_unbalanced(ot, g):
    n, m = g.n(), g.n()
    f = g.pick([ot.unbalanced.lbfgsb_unbalanced, ot.unbalanced.lbfgsb_unbalanced2])
    return Call(f, g.hist(n), g.hist(m) * 1.3, g.cost(n, m), g.u(.2, 1), g.u(.5, 2), reg_div=g.pick(["kl", "l2", "entropy"]),
                regm_div=g.pick(["kl", "l2", "tv"]), numItermax=60, log=g.flip())


@op(budget="numItermax", tags="unbalanced bary")
def barycenter_unbalanced(ot, g):
    n, k = g.n(), 2
    return Call(ot.unbalanced.barycenter_unbalanced, g.hists(n, k), g.sym(n), g.u(.3, 1), g.u(.5, 2), weights=g.hist(k),
                method=g.pick(["sinkhorn", "sinkhorn_stabilized", "sinkhorn_reg_scaling"]), numItermax=100, log=g.flip())


@op(budget="numItermax", tags="unbalanced onedim torchonly")
def uot_1d(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.unbalanced.uot_1d, g.v.normal(size=n), g.v.normal(size=m), g.u(.5, 2), g.hist(n), g.hist(m), p=2,
                log=g.flip(), returnCost=g.pick(["linear", "total"]))


@op(budget="numItermax", tags="unbalanced seeded sliced torchonly", seedkw="seed")
def sliced_unbalanced(ot, g):
    n, m = g.n(), g.n()
    f = g.pick([ot.unbalanced.sliced_unbalanced_ot, ot.unbalanced.unbalanced_sliced_ot])
    return Call(f, g.pts(n), g.pts(m), g.u(.5, 2), g.hist(n), g.hist(m), n_projections=5, seed=g.seed(), log=g.flip())


# ---------------------------------------------------------------- partial
@op(tags="partial plan")
def partial_wasserstein(ot, g):
    a, b, M = _ab(g)
    f = g.pick([ot.partial.partial_wasserstein, ot.partial.partial_wasserstein2])
    return Call(f, a, b, M, m=g.u(0.3, 0.9), nb_dummies=g.n(1, 2), log=g.flip())


@op(tags="partial")
def partial_wasserstein_lagrange(ot, g):
    a, b, M = _ab(g)
    return Call(ot.partial.partial_wasserstein_lagrange, a, b, M, reg_m=g.u(0.3, 1.2), log=g.flip())


@op(tags="partial", budget="numItermax")
def entropic_partial_wasserstein(ot, g):
    a, b, M = _ab(g)
    return Call(ot.partial.entropic_partial_wasserstein, a, b, M, g.u(0.3, 1), m=g.u(0.3, 0.9), method=g.pick(["sinkhorn", "sinkhorn_log"]),
                numItermax=50, log=g.flip())


@op(tags="partial onedim")
def partial_wasserstein_1d(ot, g):
    n = g.n(4, 7); m = g.n(4, 7)
    return Call(ot.partial.partial_wasserstein_1d, g.v.normal(size=n), g.v.normal(size=m), n_transported_samples=3, p=g.pick([1, 2]))


@op(tags="partial gw deprecated", budget="numItermax")
def partial_partial_gw(ot, g):
    n, m = g.n(3, 5), g.n(3, 5)
    return Call(ot.partial.partial_gromov_wasserstein, g.metric(n), g.metric(m), g.hist(n), g.hist(m), m=g.u(.4, .9),
                numItermax=10, log=g.flip())


@op(tags="partial gw deprecated", budget="numItermax")
def partial_entropic_gw(ot, g):
    n, m = g.n(3, 5), g.n(3, 5)
    return Call(ot.partial.entropic_partial_gromov_wasserstein, g.metric(n), g.metric(m), g.hist(n), g.hist(m), 5.0, m=g.u(.4, .9),
                numItermax=10, log=g.flip())


# ---------------------------------------------------------------- gromov
def _gw(g, lo=3, hi=6):
    n, m = g.n(lo, hi), g.n(lo, hi)
    return g.metric(n), g.metric(m), g.hist(n), g.hist(m)


def _LOSS(g):
    return g.pick(["square_loss", "kl_loss"])


def _gwC(g, loss, n):
    C = g.metric(n)
    return C + 0.1 if loss == "kl_loss" else C


def _gw_op(fname, reg=None, fused=False, srel=False, seedkw=None, budget="max_iter", klok=True, **extra):
    nm = "gw." + fname

    @op(nm, tags="gw", budget=budget, seedkw=seedkw)
    def f(ot, g):
        fn = getattr(ot.gromov, fname)
        n, m = g.n(3, 6), g.n(3, 6)
        loss = _LOSS(g) if klok else "square_loss"
        C1, C2 = _gwC(g, loss, n), _gwC(g, loss, m)
        p, q = g.hist(n), g.hist(m)
        kw = dict(extra)
        for k, v in list(kw.items()):
            if callable(v):
                kw[k] = v(g)
        if g.flip(0.3):
            kw["symmetric"] = True
        kw["loss_fun"] = loss
        kw["log"] = g.flip()
        if seedkw:
            kw[seedkw] = g.seed()
        args = ([g.cost(n, m)] if fused else []) + [C1, C2, p] + ([] if srel else [q])
        if fused:
            kw["alpha"] = g.u(0.2, 0.8)
        if budget:
            kw.setdefault(budget, g.pick([2, 3] if "entropic_partial" in fname else [5, 12] if "epsilon" in kw else [20, 50]))
        if g.flip(0.25) and not seedkw:
            kw["G0"] = p[:, None] * q[None, :] * kw.get("m", 1.0)
        return Call(fn, *args, **kw)
    return f


for _f in ["gromov_wasserstein", "gromov_wasserstein2"]:
    _gw_op(_f, armijo=lambda g: g.flip(0.3))
for _f in ["fused_gromov_wasserstein", "fused_gromov_wasserstein2"]:
    _gw_op(_f, fused=True, armijo=lambda g: g.flip(0.3))
_ent = dict(epsilon=lambda g: g.u(0.3, 1), solver=lambda g: g.pick(["PGD", "PPA"]), warmstart=lambda g: g.flip(0.3))
for _f in ["entropic_gromov_wasserstein", "entropic_gromov_wasserstein2"]:
    _gw_op(_f, **_ent)
for _f in ["entropic_fused_gromov_wasserstein", "entropic_fused_gromov_wasserstein2"]:
    _gw_op(_f, fused=True, **_ent)
for _f in ["BAPG_gromov_wasserstein", "BAPG_gromov_wasserstein2"]:
    _gw_op(_f, epsilon=lambda g: g.u(0.3, 1), marginal_loss=lambda g: g.flip())
for _f in ["BAPG_fused_gromov_wasserstein", "BAPG_fused_gromov_wasserstein2"]:
    _gw_op(_f, fused=True, epsilon=lambda g: g.u(0.3, 1), marginal_loss=lambda g: g.flip())
_srG0 = dict(G0=lambda g: g.pick(["product", "random_product", "random"]))
for _f in ["semirelaxed_gromov_wasserstein", "semirelaxed_gromov_wasserstein2"]:
    _gw_op(_f, srel=True, seedkw="random_state", **_srG0)
for _f in ["semirelaxed_fused_gromov_wasserstein", "semirelaxed_fused_gromov_wasserstein2"]:
    _gw_op(_f, srel=True, fused=True, seedkw="random_state", **_srG0)
for _f in ["entropic_semirelaxed_gromov_wasserstein", "entropic_semirelaxed_gromov_wasserstein2"]:
    _gw_op(_f, srel=True, seedkw="random_state", epsilon=lambda g: g.u(0.3, 1), **_srG0)
for _f in ["entropic_semirelaxed_fused_gromov_wasserstein", "entropic_semirelaxed_fused_gromov_wasserstein2"]:
    _gw_op(_f, srel=True, fused=True, seedkw="random_state", epsilon=lambda g: g.u(0.3, 1), **_srG0)
_pm = dict(m=lambda g: g.u(0.4, 0.95))
for _f in ["partial_gromov_wasserstein", "partial_gromov_wasserstein2"]:
    _gw_op(_f, budget="numItermax", warn=False, **_pm)
for _f in ["partial_fused_gromov_wasserstein", "partial_fused_gromov_wasserstein2"]:
    _gw_op(_f, budget="numItermax", fused=True, warn=False, **_pm)
for _f in ["entropic_partial_gromov_wasserstein", "entropic_partial_gromov_wasserstein2"]:
    _gw_op(_f, budget="numItermax", reg=lambda g: g.u(1, 5), **_pm)
for _f in ["entropic_partial_fused_gromov_wasserstein", "entropic_partial_fused_gromov_wasserstein2"]:
    _gw_op(_f, budget="numItermax", fused=True, reg=lambda g: g.u(1, 5), **_pm)


def _cs(g, k=2):
    ns = [g.n(4, 6) for _ in range(k)]
    return ns, [g.metric(n) for n in ns]


def _gwbary(fname, feats, seedkw="random_state", **extra):
    @op("gw." + fname, tags="gw bary seeded", budget="max_iter", seedkw=seedkw)
    def f(ot, g):
        ns, Cs = _cs(g)
        kw = {k: (v(g) if callable(v) else v) for k, v in extra.items()}
        if feats:
            kw.setdefault("alpha", g.u(0.3, 0.7))
        args = [4] + ([[g.pts(n) for n in ns]] if feats else []) + [Cs, [g.hist(n) for n in ns]]
        lam = g.hist(2)
        return Call(getattr(ot.gromov, fname), *args, lambdas=[float(x) for x in lam] if fname.startswith("semi") else lam, max_iter=g.n(2, 4), tol=1e-5,
                    stop_criterion=g.pick(["barycenter", "loss"]), warmstartT=g.flip(), log=g.flip(), random_state=g.seed(), **kw)
    return f


_gwbary("gromov_barycenters", False)
_gwbary("fgw_barycenters", True)
_gwbary("entropic_gromov_barycenters", False, epsilon=0.5)
_gwbary("entropic_fused_gromov_barycenters", True, epsilon=0.5)
_gwbary("semirelaxed_gromov_barycenters", False, G0=lambda g: g.pick(["product", "random", "random_product"]))
_gwbary("semirelaxed_fgw_barycenters", True, G0=lambda g: g.pick(["product", "random", "random_product"]))


@op("gw.semirelaxed_init_plan", tags="gw seeded", seedkw="random_state")
def _sip(ot, g):
    n, m = g.n(4, 7), g.n(3, 4)
    meth = g.pick(["product", "random_product", "random", "fluid", "fluid_soft", "spectral", "spectral_soft", "kmeans", "kmeans_soft"])
    return Call(ot.gromov.semirelaxed_init_plan, g.graph(n), g.graph(m), g.hist(n), method=meth, random_state=g.seed())


@op("gw.pointwise_gromov_wasserstein", tags="gw seeded", seedkw="random_state", budget="max_iter")
def _pgw(ot, g):
    C1, C2, p, q = _gw(g)
    return Call(ot.gromov.pointwise_gromov_wasserstein, C1, C2, p, q, lambda x, y: (x - y) ** 2, max_iter=5, log=g.flip(), random_state=g.seed())


@op("gw.sampled_gromov_wasserstein", tags="gw seeded", seedkw="random_state", budget="max_iter")
def _sgw(ot, g):
    C1, C2, p, q = _gw(g)
    if g.flip():            # structures without symmetry: the gradient has two terms
        C1, C2 = g.v.uniform(0, 1, C1.shape), g.v.uniform(0, 1, C2.shape)
    return Call(ot.gromov.sampled_gromov_wasserstein, C1, C2, p, q, lambda x, y: (x - y) ** 2, nb_samples_grad=3, max_iter=5,
                epsilon=g.pick([1, 0.5]), log=g.flip(), random_state=g.seed())


@op("gw.GW_distance_estimation", tags="gw seeded", seedkw="random_state")
def _gde(ot, g):
    C1, C2, p, q = _gw(g)
    return Call(ot.gromov.GW_distance_estimation, C1, C2, p, q, lambda x, y: (x - y) ** 2, p[:, None] * q[None, :],
                nb_samples_p=3, nb_samples_q=2, random_state=g.seed())


@op("gw.lowrank_gromov_wasserstein_samples", tags="gw seeded lowrank", seedkw="seed_init", budget="numItermax")
def _lgw(ot, g):
    n, m = g.n(5, 7), g.n(5, 7)
    return Call(ot.gromov.lowrank_gromov_wasserstein_samples, g.pts(n), g.pts(m), g.hist(n), g.hist(m), rank=g.n(2, 3), seed_init=g.seed(),
                gamma_init=g.pick(["rescale", "theory"]), numItermax=15, log=g.flip(), warn=False)


@op("gw.quantized_fused_gromov_wasserstein", tags="gw seeded", seedkw="random_state")
def _qgw(ot, g):
    n, m = g.n(6, 8), g.n(6, 8)
    kw = {}
    if g.flip():
        kw = dict(F1=g.pts(n), F2=g.pts(m), alpha=0.5)
    return Call(ot.gromov.quantized_fused_gromov_wasserstein, g.graph(n), g.graph(m), 2, 3, g.hist(n), g.hist(m),
                part_method=g.pick(["random", "fluid", "spectral", "louvain"]),
                rep_method=g.pick(["pagerank", "random"]), log=g.flip(), random_state=g.seed(), **kw)


@op("gw.quantized_fused_gromov_wasserstein_samples", tags="gw seeded", seedkw="random_state")
def _qgws(ot, g):
    n, m = g.n(6, 8), g.n(6, 8)
    return Call(ot.gromov.quantized_fused_gromov_wasserstein_samples, g.pts(n), g.pts(m), 2, 3, g.hist(n), g.hist(m),
                method=g.pick(["random", "kmeans"]), log=g.flip(), random_state=g.seed())


@op("gw.get_graph_partition", tags="gw seeded", seedkw="random_state")
def _ggp(ot, g):
    n = g.n(6, 9)
    return Call(ot.gromov.get_graph_partition, g.graph(n), 3, part_method=g.pick(["random", "fluid", "spectral", "louvain"]), random_state=g.seed())


@op("gw.get_graph_representants", tags="gw seeded", seedkw="random_state")
def _ggr(ot, g):
    n = g.n(6, 9)
    return Call(ot.gromov.get_graph_representants, g.graph(n), np.arange(n) % 3, rep_method=g.pick(["pagerank", "random"]), random_state=g.seed())


@op("gw.get_partition_and_representants_samples", tags="gw seeded", seedkw="random_state")
def _gprs(ot, g):
    return Call(ot.gromov.get_partition_and_representants_samples, g.pts(g.n(6, 9)), 3, method=g.pick(["kmeans", "random"]), random_state=g.seed())


@op("gw.format_partitioned_graph", tags="gw")
def _fpg(ot, g):
    n = g.n(6, 9)
    return Call(ot.gromov.format_partitioned_graph, g.graph(n), g.hist(n), np.arange(n) % 3, [0, 1, 2],
                F=g.pts(n), M=g.cost(n, n), alpha=0.5)


@op("gw.format_partitioned_samples", tags="gw")
def _fps(ot, g):
    n = g.n(6, 9)
    return Call(ot.gromov.format_partitioned_samples, g.pts(n), g.hist(n), np.arange(n) % 3, [0, 1, 2], F=g.pts(n), alpha=0.5)


@op("gw.dictionary_learning", tags="gw seeded", seedkw="random_state", budget="epochs")
def _gdl(ot, g):
    ns, Cs = _cs(g, 3)
    return Call(ot.gromov.gromov_wasserstein_dictionary_learning, Cs, 2, 3, reg=g.pick([0.0, 0.01]), epochs=2, batch_size=2, learning_rate=0.1,
                max_iter_outer=2, max_iter_inner=10, use_adam_optimizer=g.flip(), projection=g.pick(["nonnegative_symmetric", "symmetric", "nonnegative"]),
                use_log=g.flip(), random_state=g.seed())


@op("gw.fused_dictionary_learning", tags="gw seeded", seedkw="random_state", budget="epochs")
def _fgdl(ot, g):
    ns, Cs = _cs(g, 3)
    return Call(ot.gromov.fused_gromov_wasserstein_dictionary_learning, Cs, [g.pts(n) for n in ns], 2, 3, g.u(.3, .7), reg=g.pick([0.0, 0.01]),
                epochs=2, batch_size=2, learning_rate_C=0.1, learning_rate_Y=0.1, max_iter_outer=2, max_iter_inner=10,
                use_adam_optimizer=g.flip(), use_log=g.flip(), random_state=g.seed())


@op("gw.linear_unmixing", tags="gw", budget="max_iter_outer")
def _glu(ot, g):
    n = g.n(4, 6)
    return Call(ot.gromov.gromov_wasserstein_linear_unmixing, g.metric(n), np.stack([g.metric(3), g.metric(3)]), reg=g.pick([0.0, 0.01]),
                max_iter_outer=3, max_iter_inner=20)


@op("gw.fused_linear_unmixing", tags="gw", budget="max_iter_outer")
def _fglu(ot, g):
    n = g.n(4, 6)
    return Call(ot.gromov.fused_gromov_wasserstein_linear_unmixing, g.metric(n), g.pts(n), np.stack([g.metric(3), g.metric(3)]),
                np.stack([g.pts(3), g.pts(3)]), g.u(.3, .7), max_iter_outer=3, max_iter_inner=20)


@op("gw.ucoot", tags="gw unbalanced", budget="max_iter")
def _ucoot(ot, g):
    n, m = g.n(3, 5), g.n(3, 5)
    f = g.pick([ot.gromov.unbalanced_co_optimal_transport, ot.gromov.unbalanced_co_optimal_transport2])
    uns = g.pick(["sinkhorn", "sinkhorn_log", "mm", "lbfgsb"])
    eps = g.pick([0.5, 0.2]) if uns.startswith("sink") else g.pick([0, 0.3])
    return Call(f, g.pts(n, 3), g.pts(m, 4), g.hist(n), None, g.hist(m), None, reg_marginals=g.pick([5.0, (3.0, 2.0)]), epsilon=eps,
                divergence=g.pick(["kl", "l2"]) if not uns.startswith("sink") else "kl", unbalanced_solver=uns, max_iter=4, max_iter_ot=30, log=g.flip(),
                rescale_plan=g.flip())


@op("gw.fugw", tags="gw unbalanced", budget="max_iter")
def _fugw(ot, g):
    n, m = g.n(3, 5), g.n(3, 5)
    f = g.pick([ot.gromov.fused_unbalanced_gromov_wasserstein, ot.gromov.fused_unbalanced_gromov_wasserstein2])
    uns = g.pick(["sinkhorn", "sinkhorn_log", "mm", "lbfgsb"])
    eps = g.pick([0.5, 0.2]) if uns.startswith("sink") else g.pick([0, 0.3])
    kw = {}
    if g.flip():
        kw = dict(alpha=0.5, M=g.cost(n, m))
    return Call(f, g.metric(n), g.metric(m), g.hist(n), g.hist(m), reg_marginals=2.0, epsilon=eps, unbalanced_solver=uns,
                max_iter=4, max_iter_ot=30, log=g.flip(), **kw)


@op("coot", tags="gw", budget="nits_bcd")
def _coot(ot, g):
    n, m = g.n(3, 5), g.n(3, 5)
    f = g.pick([ot.coot.co_optimal_transport, ot.coot.co_optimal_transport2])
    return Call(f, g.pts(n, 3), g.pts(m, 4), g.hist(n), g.hist(3), g.hist(m), g.hist(4), epsilon=g.pick([0, 0.5, (0.5, 0)]),
                nits_bcd=6, nits_ot=100, log=g.flip())


# ---------------------------------------------------------------- conditional gradient
@op("optim.cg", tags="optim callback plan", budget="numItermax")
def _cg(ot, g):
    a, b, M = _ab(g)
    f = lambda G: 0.5 * np.sum(G ** 2)
    df = lambda G: G
    return Call(ot.optim.cg, a, b, M, g.u(.1, 1), f, df, numItermax=20, log=g.flip())


@op("optim.gcg", tags="optim callback plan", budget="numItermax")
def _gcg(ot, g):
    a, b, M = _ab(g)
    f = lambda G: 0.5 * np.sum(G ** 2)
    df = lambda G: G
    return Call(ot.optim.gcg, a, b, M, g.u(.2, 1), g.u(.1, 1), f, df, numItermax=8, log=g.flip())


@op("optim.semirelaxed_cg", tags="optim callback", budget="numItermax")
def _srcg(ot, g):
    n, m = g.n(), g.n()
    a = g.hist(n)
    f = lambda G: 0.5 * np.sum(G ** 2)
    df = lambda G: G
    G0 = a[:, None] * np.ones((1, m)) / m
    ls = lambda cost, G, deltaG, Mi, cost_G, df_G, **kw: (lambda r: (r[0], r[1], r[2], kw.get("df", None) or df(G + r[0] * deltaG)))(
        ot.optim.line_search_armijo(cost, G, deltaG, Mi + df_G, cost_G, alpha_min=0.0, alpha_max=1.0))
    return Call(ot.optim.semirelaxed_cg, a, np.ones(m) / m, g.cost(n, m), g.u(.1, 1), f, df, G0, line_search=ls, numItermax=10, log=g.flip())


@op("optim.line_search_armijo", tags="optim callback")
def _lsa(ot, g):
    n = g.n()
    x = g.v.normal(size=n)
    f = lambda z: np.sum(z ** 2)
    return Call(ot.optim.line_search_armijo, f, x, -x, 2 * x, float(np.sum(x ** 2)))


@op("weak", tags="optim", budget="numItermax")
def _weak(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.weak.weak_optimal_transport, g.pts(n), g.pts(m), g.hist(n), g.hist(m), numItermax=20, log=g.flip())


@op("factored", tags="lowrank", budget="numItermax")
def _fact(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.factored.factored_optimal_transport, g.pts(n), g.pts(m), g.hist(n), g.hist(m), reg=g.pick([0.0, 0.5]), r=3, X0=g.pts(3),
                numItermax=g.n(2, 6), log=g.flip())


@op("lowrank_sinkhorn", tags="lowrank seeded", seedkw="seed_init", budget="numItermax")
def _lrs(ot, g):
    n, m = g.n(5, 7), g.n(5, 7)
    return Call(ot.lowrank.lowrank_sinkhorn, g.pts(n), g.pts(m), g.hist(n), g.hist(m), rank=g.n(2, 3), init=g.pick(["random", "deterministic", "kmeans"]),
                seed_init=g.seed(), reg=g.pick([0, 0.1]), gamma_init=g.pick(["rescale", "theory"]), numItermax=15, log=g.flip(), warn=False)


@op("kernel_nystroem", tags="lowrank seeded", seedkw="random_state")
def _kn(ot, g):
    n, m = g.n(5, 8), g.n(5, 8)
    return Call(ot.lowrank.kernel_nystroem, g.pts(n), g.pts(m), anchors=4, sigma=1.0, random_state=g.seed())


@op("sinkhorn_low_rank_kernel", tags="lowrank sinkhorn", budget="numItermax")
def _slrk(ot, g):
    n, m = g.n(5, 8), g.n(5, 8)
    return Call(ot.lowrank.sinkhorn_low_rank_kernel, g.v.uniform(.1, 1, (n, 3)), g.v.uniform(.1, 1, (m, 3)), g.hist(n), g.hist(m), numItermax=100, log=g.flip())


@op("smooth", tags="dual", budget="numItermax")
def _smooth(ot, g):
    a, b, M = _ab(g)
    f = g.pick([ot.smooth.smooth_ot_dual, ot.smooth.smooth_ot_semi_dual])
    rt = g.pick(["l2", "kl", "sparsity_constrained"])
    kw = dict(max_nz=2) if rt == "sparsity_constrained" else {}
    return Call(f, a, b, M, g.u(.2, 1), reg_type=rt, numItermax=60, log=g.flip(), **kw)


@op("stochastic.semi_dual", tags="stochastic", budget="numItermax")
def _ssd(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.stochastic.solve_semi_dual_entropic, g.hist(n), g.hist(m), g.cost(n, m), g.u(.5, 1), g.pick(["SAG", "ASGD"]), numItermax=40, log=g.flip())


@op("stochastic.dual", tags="stochastic", budget="numItermax")
def _sd(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.stochastic.solve_dual_entropic, g.hist(n), g.hist(m), g.cost(n, m), g.u(.5, 1), 2, numItermax=20, lr=0.1, log=g.flip())


@op("stochastic.sag", tags="stochastic seeded", seedkw="random_state", budget="numItermax")
def _sag(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.stochastic.sag_entropic_transport, g.hist(n), g.hist(m), g.cost(n, m), g.u(.5, 1), numItermax=40, random_state=g.seed())


@op("stochastic.asgd", tags="stochastic seeded", seedkw="random_state", budget="numItermax")
def _asgd(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.stochastic.averaged_sgd_entropic_transport, g.hist(n), g.hist(m), g.cost(n, m), g.u(.5, 1), numItermax=40, random_state=g.seed())


@op("stochastic.sgd", tags="stochastic seeded", seedkw="random_state", budget="numItermax")
def _sgd(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.stochastic.sgd_entropic_regularization, g.hist(n), g.hist(m), g.cost(n, m), g.u(.5, 1), 2, 20, 0.1, random_state=g.seed())


@op("stochastic.plan_loss", tags="stochastic dual")
def _spl(ot, g):
    n, m = g.n(), g.n()
    f = g.pick([ot.stochastic.loss_dual_entropic, ot.stochastic.plan_dual_entropic, ot.stochastic.loss_dual_quadratic, ot.stochastic.plan_dual_quadratic])
    return Call(f, g.v.normal(size=n), g.v.normal(size=m), g.pts(n), g.pts(m), reg=g.u(.5, 2), ws=g.hist(n), wt=g.hist(m))


@op("regpath", tags="regpath")
def _rp(ot, g):
    n, m = g.n(3, 5), g.n(3, 5)
    return Call(ot.regpath.regularization_path, g.hist(n), g.hist(m), g.cost(n, m), reg=1e-3, semi_relaxed=g.flip())


# ---------------------------------------------------------------- gaussian / gmm
@op("gaussian.mapping", tags="gaussian")
def _gm(ot, g):
    f = g.pick([ot.gaussian.bures_wasserstein_mapping, ot.gaussian.bures_wasserstein_distance])
    return Call(f, g.pts(1, 3)[0], g.pts(1, 3)[0], g.cov(3), g.cov(3), log=g.flip())


@op("gaussian.empirical", tags="gaussian")
def _ge(ot, g):
    n, m = g.n(6, 9), g.n(6, 9)
    f = g.pick([ot.gaussian.empirical_bures_wasserstein_mapping, ot.gaussian.empirical_bures_wasserstein_distance])
    return Call(f, g.pts(n), g.pts(m), ws=g.hist(n)[:, None], wt=g.hist(m)[:, None], bias=g.flip(), log=g.flip())


@op("gaussian.bures_distance", tags="gaussian")
def _gb(ot, g):
    return Call(ot.gaussian.bures_distance, g.cov(3, 4), g.cov(3, 4), paired=g.flip(), log=g.flip())


@op("gaussian.barycenter", tags="gaussian bary", budget="num_iter")
def _gbary(ot, g):
    return Call(ot.gaussian.bures_wasserstein_barycenter, g.pts(3, 2), g.cov(2, 3), weights=g.hist(3), method=g.pick(["fixed_point", "gradient_descent"]),
                num_iter=30, log=g.flip())


@op("gaussian.barycenter_sgd", tags="gaussian bary globalrng", budget="num_iter")
def _gbs(ot, g):
    return Call(ot.gaussian.bures_wasserstein_barycenter, g.pts(3, 2), g.cov(2, 3), weights=g.hist(3), method=g.pick(["stochastic_gradient_descent", "averaged_stochastic_gradient_descent"]),
                num_iter=10, batch_size=2)


@op("gaussian.empirical_barycenter", tags="gaussian bary", budget="num_iter")
def _geb(ot, g):
    return Call(ot.gaussian.empirical_bures_wasserstein_barycenter, [g.pts(6), g.pts(7)], weights=g.hist(2), num_iter=30, log=g.flip())


@op("gaussian.gw", tags="gaussian")
def _ggw(ot, g):
    k = g.n(0, 3)
    if k == 0:
        return Call(ot.gaussian.gaussian_gromov_wasserstein_distance, g.cov(3), g.cov(3), log=g.flip())
    if k == 1:
        return Call(ot.gaussian.empirical_gaussian_gromov_wasserstein_distance, g.pts(8, 3), g.pts(9, 2), log=g.flip())
    if k == 2:
        return Call(ot.gaussian.gaussian_gromov_wasserstein_mapping, g.pts(1, 3)[0], g.pts(1, 3)[0], g.cov(3), g.cov(3), log=g.flip())
    return Call(ot.gaussian.empirical_gaussian_gromov_wasserstein_mapping, g.pts(8, 3), g.pts(9, 3), log=g.flip())


def _gmm(g, k=2, d=2):
    return g.pts(k, d), g.cov(d, k), g.hist(k)


@op("gmm.ot", tags="gmm")
def _gmmot(ot, g):
    ms, cs, ws = _gmm(g); mt, ct, wt = _gmm(g, 3)
    f = g.pick([ot.gmm.gmm_ot_loss, ot.gmm.gmm_ot_plan])
    return Call(f, ms, mt, cs, ct, ws, wt, log=g.flip())


@op("gmm.pdf", tags="gmm")
def _gmmpdf(ot, g):
    ms, cs, ws = _gmm(g)
    return Call(ot.gmm.gmm_pdf, g.pts(5), ms, cs, ws)


@op("gmm.map", tags="gmm seeded", seedkw="seed")
def _gmmmap(ot, g):
    ms, cs, ws = _gmm(g); mt, ct, wt = _gmm(g, 3)
    return Call(ot.gmm.gmm_ot_apply_map, g.pts(5), ms, mt, cs, ct, ws, wt, method=g.pick(["bary", "rand"]), seed=g.seed())


@op("gmm.density", tags="gmm")
def _gmmd(ot, g):
    ms, cs, ws = _gmm(g); mt, ct, wt = _gmm(g, 3)
    return Call(ot.gmm.gmm_ot_plan_density, g.pts(3), g.pts(4), ms, mt, cs, ct, ws, wt, atol=2.0)


@op("gmm.barycenter", tags="gmm bary", budget="iterations")
def _gmmb(ot, g):
    A = [_gmm(g, 2), _gmm(g, 3)]
    return Call(ot.gmm.gmm_barycenter_fixed_point, [x[0] for x in A], [x[1] for x in A], [x[2] for x in A], g.pts(2), g.cov(2, 2), g.hist(2),
                iterations=3, log=g.flip(), barycentric_proj_method=g.pick(["euclidean", "bures"]))


# ---------------------------------------------------------------- sliced
def _sl(name, mod="sliced", sphere=False):
    @op("sliced." + name, tags="sliced seeded", seedkw="seed")
    def f(ot, g):
        n, m = g.n(), g.n()
        X, Y = g.pts(n, 3), g.pts(m, 3)
        if sphere:
            X /= np.linalg.norm(X, axis=1, keepdims=True); Y /= np.linalg.norm(Y, axis=1, keepdims=True)
        kw = {}
        if not sphere and g.flip(0.3):
            kw["scaler"] = ot.utils.DataScaler(norm=g.pick(["standard", "minmax", "l2"])).fit(X)
        return Call(getattr(ot.sliced, name), X, Y, g.hist(n), g.hist(m), n_projections=g.n(3, 6), seed=g.seed(), log=g.flip(), **kw)


_sl("sliced_wasserstein_distance")
_sl("max_sliced_wasserstein_distance")
_sl("sliced_wasserstein_sphere", sphere=True)
_sl("linear_sliced_wasserstein_sphere", sphere=True)


@op("sliced.sphere_unif", tags="sliced seeded", seedkw="seed")
def _slu(ot, g):
    n = g.n()
    X = g.pts(n, 3); X /= np.linalg.norm(X, axis=1, keepdims=True)
    return Call(ot.sliced.sliced_wasserstein_sphere_unif, X, g.hist(n), n_projections=4, seed=g.seed(), log=g.flip())


@op("sliced.projections", tags="sliced seeded", seedkw="seed")
def _slp(ot, g):
    f = g.pick([ot.sliced.get_random_projections, ot.sliced.get_projections_sphere])
    return Call(f, 3, g.n(2, 6), seed=g.seed())


@op("sliced.plans", tags="sliced seeded", seedkw="seed")
def _slpl(ot, g):
    n = g.n()
    k = g.n(0, 2)
    X, Y = g.pts(n, 2), g.pts(n, 2)
    if k == 0:
        return Call(ot.sliced.sliced_plans, X, Y, n_projections=4, seed=g.seed(), batch_size=g.pick([None, 1, 2]), log=g.flip())
    if k == 1:
        return Call(ot.sliced.min_sliced_transport_plan, X, Y, g.hist(n), g.hist(n), n_projections=4, seed=g.seed(), dense=True, log=g.flip())
    return Call(ot.sliced.expected_sliced_plan, X, Y, g.hist(n), g.hist(n), n_projections=4, seed=g.seed(), beta=g.pick([0.0, 1.0]), log=g.flip())


# ---------------------------------------------------------------- batch
@op("batch.solve_batch", tags="batch", budget="max_iter")
def _sb(ot, g):
    B, n, m = g.n(2, 4), g.n(), g.n()
    a = np.stack([g.hist(n) for _ in range(B)]); b = np.stack([g.hist(m) for _ in range(B)])
    return Call(ot.batch.solve_batch, np.stack([g.cost(n, m) for _ in range(B)]), g.u(.2, 1), a, b, max_iter=100,
                solver=g.pick(["log_sinkhorn", "sinkhorn"]), reg_type=g.pick(["entropy", "kl"]))


@op("batch.solve_sample_batch", tags="batch", budget="max_iter")
def _ssb(ot, g):
    B, n, m = g.n(2, 4), g.n(), g.n()
    return Call(ot.batch.solve_sample_batch, np.stack([g.pts(n) for _ in range(B)]), np.stack([g.pts(m) for _ in range(B)]), g.u(.5, 1),
                metric=g.pick(["sqeuclidean", "euclidean", "minkowski"]), max_iter=100)


@op("batch.solve_gromov_batch", tags="batch gw", budget="max_iter")
def _sgb(ot, g):
    B, n, m = g.n(2, 3), g.n(3, 5), g.n(3, 5)
    kw = {}
    if g.flip():
        kw = dict(M=np.stack([g.cost(n, m) for _ in range(B)]), alpha=0.5)
    return Call(ot.batch.solve_gromov_batch, np.stack([g.metric(n) for _ in range(B)]), np.stack([g.metric(m) for _ in range(B)]), reg=g.u(.1, .5),
                max_iter=8, max_iter_inner=20, symmetric=g.pick([None, True, False]), **kw)


@op("batch.misc", tags="batch")
def _bm(ot, g):
    B, n, m = 2, g.n(), g.n()
    T = np.stack([g.cost(n, m) for _ in range(B)])
    k = g.n(0, 3)
    if k == 0:
        return Call(ot.batch.loss_linear_batch, T, T * .5)
    if k == 1:
        return Call(ot.batch.dist_batch, np.stack([g.pts(n), g.pts(n)]), np.stack([g.pts(m), g.pts(m)]), metric=g.pick(["sqeuclidean", "euclidean", "minkowski"]))
    if k == 2:
        return Call(ot.batch.bregman_log_projection_batch, -T, np.stack([g.hist(n)] * 2), np.stack([g.hist(m)] * 2), max_iter=50)
    return Call(ot.batch.bregman_projection_batch, np.exp(-T), np.stack([g.hist(n)] * 2), np.stack([g.hist(m)] * 2), max_iter=50)


# ---------------------------------------------------------------- unified API
class _Res:
    """collect what a user reads from an OTResult"""


OTR_FIELDS = ["value", "value_linear", "value_quad", "plan", "potential_a", "potential_b", "potentials", "marginal_a", "marginal_b", "marginals",
              "sparse_plan", "lazy_plan", "status", "log"]


def read_result(res, fields=OTR_FIELDS):
    out = {}
    for f in fields:
        try:
            v = getattr(res, f)
            if f == "lazy_plan" and v is not None:
                v = v[:]
        except NotImplementedError:
            v = "NotImplemented"
        except ValueError:
            if f != "sparse_plan":      # there are no sparse arrays of more than two dimensions
                raise
            v = "NotImplemented"
        out[f] = v
    return out


def _solve(ot, fn, *a, **k):
    return read_result(fn(*a, **k))


@op("solve", tags="api", budget="max_iter")
def _slv(ot, g):
    n, m = g.n(), g.n()
    kind = g.pick(["exact", "ent", "ent_other", "unb", "unb_ent", "sym"])
    kw = dict(a=g.hist(n), b=g.hist(m))
    if kind == "ent":
        kw.update(reg=g.u(.3, 1), reg_type=g.pick(["KL", "entropy"]), method=g.pick([None, "sinkhorn", "sinkhorn_log"]), max_iter=200)
    elif kind == "ent_other":
        kw.update(reg=g.u(.3, 1), reg_type=g.pick(["L2", "group lasso"][:1]), max_iter=30)
    elif kind == "unb":
        kw.update(unbalanced=g.u(.5, 2), unbalanced_type=g.pick(["KL", "L2", "TV"]), max_iter=50)
    elif kind == "unb_ent":
        kw.update(reg=g.u(.3, 1), unbalanced=g.u(.5, 2), unbalanced_type=g.pick(["KL", "L2", "TV"]), max_iter=50)
    elif kind == "sym":
        kw.pop("a"); kw.pop("b")
    elif kind == "partial":
        kw.update(unbalanced=g.u(.5, 2), unbalanced_type="partial", max_iter=50)
    return Call(_solve, ot, ot.solve, g.cost(n, m), **kw)


@op("solve_gromov", tags="api gw", budget="max_iter")
def _slg(ot, g):
    n, m = g.n(3, 5), g.n(3, 5)
    kind = g.pick(["gw", "fgw", "ent", "entf", "semi", "semif", "partial", "entsemi", "entpartial"])
    kw = dict(a=g.hist(n), b=g.hist(m), max_iter=10)
    if kind in ("fgw", "entf", "semif"):
        kw.update(M=g.cost(n, m), alpha=0.5)
    if kind in ("ent", "entf"):
        kw.update(reg=0.5, method=g.pick([None, "PGD", "PPA"]))
    if kind == "bapg":
        kw.update(reg=0.5, method="BAPG")
    if kind in ("semi", "semif", "entsemi"):
        kw.update(unbalanced_type="semirelaxed", unbalanced=0)
    if kind in ("entsemi", "entpartial"):
        kw.update(reg=2.0)
    if kind in ("partial", "entpartial"):
        kw.update(unbalanced_type="partial", unbalanced=g.u(.4, .9))
    if kind == "unb":
        kw.update(unbalanced=1.0, unbalanced_type="KL")
    return Call(_solve, ot, ot.solve_gromov, g.metric(n), g.metric(m), **kw)


@op("solve_sample", tags="api seeded", budget="max_iter")
def _sls(ot, g):
    n, m = g.n(5, 8), g.n(5, 8)
    kind = g.pick(["exact", "ent", "lazy", "lowrank", "factored", "nystroem", "gaussian", "1d", "unb", "lazyexact", "fe"])
    kw = dict(a=g.hist(n), b=g.hist(m))
    d = 2
    if kind == "ent":
        kw.update(reg=1.0, max_iter=100)
    elif kind == "lazy":
        kw.update(reg=1.0, lazy=True, batch_size=g.n(1, 4), max_iter=60)
    elif kind == "lowrank":
        kw.update(reg=1.0, method="lowrank", rank=2, max_iter=15, random_state=g.seed())
    elif kind == "factored":
        kw.update(method="factored", rank=3, X_init=g.pts(3), max_iter=5)
    elif kind == "nystroem":
        kw.update(method="nystroem", reg=2.0, rank=4, max_iter=60, random_state=g.seed())
    elif kind == "gaussian":
        kw = dict(method="gaussian", reg=1e-3)
    elif kind == "1d":
        kw.update(method="1d"); d = 1
    elif kind == "unb":
        kw.update(reg=1.0, unbalanced=1.0, max_iter=60)
    elif kind == "lazyexact":
        kw.update(lazy=True)
    c = Call(_solve, ot, ot.solve_sample, g.pts(n, d), g.pts(m, d), **kw)
    if kind == "factored":
        c.meta["unseeded"] = True    # no seed argument reaches this method
    return c


@op("lazy_result", tags="api lazy")
def _lzr(ot, g):
    n, m = g.n(5, 8), g.n(5, 8)

    def f(X, Y, a, b, reg, bs, order):
        r = ot.solve_sample(X, Y, a, b, reg=reg, lazy=True, batch_size=bs, max_iter=40)
        T = r.lazy_plan
        return [T[i] for i in order], T[1:4], T[:, 2], ot.utils.reduce_lazytensor(T, lambda z: z, batch_size=bs) if False else None
    order = [int(x) for x in g.v.permutation(n)[:3]]
    return Call(f, g.pts(n), g.pts(m), g.hist(n), g.hist(m), 1.0, g.n(1, 4), order)


@op("bary_sample_free", tags="api")
def _ext(ot, g):
    return Call(ot.utils.proj_simplex, g.v.normal(size=(g.n(), 3)))


# ---------------------------------------------------------------- utils
@op("dist", tags="utils")
def _dist(ot, g):
    n, m = g.n(), g.n()
    metr = g.pick(["sqeuclidean", "euclidean", "cityblock", "minkowski", "cosine", "chebyshev", "correlation"])
    kw = dict(p=3) if metr in ("minkowski", "wminkowski") else {}
    if metr == "wminkowski":
        kw["w"] = g.hist(3)
    return Call(ot.dist, g.pts(n, 3), g.pts(m, 3) if g.flip(.8) else None, metric=metr, **kw)


@op("utils.simplex", tags="utils")
def _ps(ot, g):
    if g.flip():
        return Call(ot.utils.proj_simplex, g.v.normal(size=(g.n(), 3)), z=g.u(.5, 2))
    return Call(ot.utils.projection_sparse_simplex, g.v.normal(size=(g.n(), 4)), 2, z=g.u(.5, 2), axis=g.pick([0, 1]))


@op("utils.misc", tags="utils")
def _um(ot, g):
    k = g.n(0, 8)
    n = g.n()
    u = ot.utils
    if k == 0:
        return Call(u.euclidean_distances, g.pts(n), g.pts(n), squared=g.flip())
    if k == 1:
        return Call(u.clean_zeros, g.hist(n, True), g.hist(n, True), g.cost(n, n))
    if k == 2:
        return Call(u.kernel, g.pts(n), g.pts(n), sigma=g.u(.5, 2))
    if k == 3:
        return Call(u.label_normalization, g.labels(n) + 3, start=g.pick([0, 1]))
    if k == 4:
        return Call(u.labels_to_masks, g.labels(n))
    if k == 5:
        return Call(u.proj_SDP, g.sym(4) - 1.0)
    if k == 6:
        return Call(u.exp_bures, g.cov(3), g.sym(3) * .1)
    if k == 7:
        return Call(u.laplacian, g.sym(4))
    return Call(u.get_coordinate_circle, (lambda x: x / np.linalg.norm(x, axis=1, keepdims=True))(g.pts(n)))


@op("utils.scaler", tags="utils")
def _sc(ot, g):
    n, m = g.n(), g.n()

    def f(norm, X, Y):
        s = ot.utils.DataScaler(norm=norm)
        s.fit(X)
        return s.transform(Y), s.fit_transform(X)
    return Call(f, g.pick(["standard", "minmax", "l2"]), g.pts(n, 3), g.pts(m, 3))


@op("utils.lazytensor", tags="utils lazy callback")
def _lt(ot, g):
    n, m = g.n(), g.n()
    A = g.cost(n, m)

    def f(A, bs, axis):
        T = ot.utils.LazyTensor(A.shape, lambda i, j, A: A[i, j], A=A)
        return ot.utils.reduce_lazytensor(T, np.sum, axis=axis, batch_size=bs) if axis is not None else None, T[1:3], T[:, 1]
    return Call(f, A, g.n(1, 4), g.pick([0, 1, None]))


@op("datasets", tags="datasets seeded", seedkw="random_state")
def _ds(ot, g):
    u = g.s.random()
    if u < .2:
        return Call(ot.datasets.get_2D_samples_gauss, g.n(), g.pts(1)[0], g.cov(2), random_state=g.seed())
    if u < .4:
        return Call(ot.datasets.get_data_classif, g.pick(["3gauss", "3gauss2", "gaussrot"]), 9, nz=.5, random_state=g.seed())
    if u < .6:
        return Call(ot.datasets.make_2D_samples_gauss, g.n(), g.pts(1)[0], g.cov(2), random_state=g.seed())
    return Call(ot.datasets.make_data_classif, g.pick(["3gauss", "3gauss2", "gaussrot", "2gauss_prop", "sinreg"][:3]), 9, nz=.5, random_state=g.seed())


# ---------------------------------------------------------------- dr / mapping
@op("dr.fda", tags="dr")
def _fda(ot, g):
    return Call(_dr_out, ot.dr.fda, g.pts(10, 3), g.labels(10), p=1)


def _dr_out(f, X, *a, **k):
    P, proj = f(X, *a, **k)[:2]
    return P, proj(X)


@op("dr.wda", tags="dr slow globalrng")
def _wda(ot, g):
    P0 = np.linalg.qr(g.v.normal(size=(3, 1)))[0]
    return Call(_dr_out, ot.dr.wda, g.pts(8, 3), g.labels(8), p=1, reg=1, k=3, maxiter=2, P0=P0)


@op("dr.prw", tags="dr seeded", seedkw="random_state", budget="maxiter")
def _prw(ot, g):
    n, m = g.n(), g.n()
    return Call(ot.dr.projection_robust_wasserstein, g.pts(n, 3), g.pts(m, 3), g.hist(n), g.hist(m), 0.1, reg=0.5, k=2, maxiter=3, random_state=g.seed())


@op("dr.ewca", tags="dr slow globalrng", budget="maxiter")
def _ewca(ot, g):
    X = g.pts(6, 3)
    return Call(ot.dr.ewca, X, U0=None, reg=1, k=2, method=g.pick(["MM", "BCD"]), maxiter=2, maxiter_sink=20, maxiter_MM=2)


@op("mapping.joint", tags="mapping", budget="numItermax")
def _mj(ot, g):
    n = g.n(4, 6)
    f, kw = g.pick([(ot.mapping.joint_OT_mapping_linear, {}), (ot.mapping.joint_OT_mapping_kernel, dict(sigma=1.0))])
    return Call(f, g.pts(n), g.pts(n), mu=1, eta=.01, bias=g.flip(), numItermax=3, numInnerItermax=3, log=g.flip(), **kw)


@op("mapping.brenier", tags="mapping slow")
def _mb(ot, g):
    n = g.n(3, 4)

    def f(X, V, Y, seed):
        np.random.seed(seed)
        phi, G = ot.mapping.nearest_brenier_potential_fit(X, V, its=2, init_method="barycentric")
        return phi, G, ot.mapping.nearest_brenier_potential_predict_bounds(X, phi, G, Y)
    return Call(f, g.pts(n), g.pts(n), g.pts(2), 3)


@op("sgot", tags="gaussian")
def _sgot(ot, g):
    def c(*s):
        return g.v.normal(size=s) + 1j * g.v.normal(size=s)
    from ot import sgot
    f = g.pick([sgot.sgot_metric, sgot.sgot_cost_matrix])
    return Call(f, c(2), c(4, 2), c(4, 2), c(3), c(4, 3), c(4, 3), eta=g.u(.2, .8), grassmann_metric=g.pick(["chordal", "geodesic", "procrustes", "martin"]))


# ---------------------------------------------------------------- domain adaptation
@op("da.lpl1", tags="da", budget="numItermax")
def _lpl1(ot, g):
    n, m = 6, g.n()
    f = g.pick([ot.da.sinkhorn_lpl1_mm, ot.da.sinkhorn_l1l2_gl])
    return Call(f, g.hist(n), g.labels(n) + g.pick([0, 3]), g.hist(m), g.cost(n, m), g.u(.3, 1), eta=.1, numItermax=4, numInnerItermax=50, log=g.flip())


@op("da.emd_laplace", tags="da", budget="numItermax")
def _el(ot, g):
    n, m = g.n(5, 7), g.n(5, 7)
    xs, xt = g.pts(n), g.pts(m)
    return Call(ot.da.emd_laplace, g.hist(n), g.hist(m), xs, xt, ot.dist(xs, xt), sim=g.pick(["gauss", "knn"]), sim_param=None if g.flip() else 2,
                reg=g.pick(["pos", "disp"]), numItermax=4, log=g.flip())


def run_da(ot, cls, init, Xs, ys, Xt, yt, Xnew, inv=True):
    est = getattr(ot.da, cls)(**init)
    est.fit(Xs=Xs, ys=ys, Xt=Xt, yt=yt)
    out = {"coupling": getattr(est, "coupling_", None), "cost": getattr(est, "cost_", None)}
    for nm, f in [("t", lambda: est.transform(Xs=Xs)), ("tn", lambda: est.transform(Xs=Xnew)),
                  ("i", lambda: est.inverse_transform(Xt=Xt)), ("lab", lambda: est.transform_labels(ys=ys)),
                  ("ilab", lambda: est.inverse_transform_labels(yt=yt))]:
        if not hasattr(est, {"t": "transform", "tn": "transform", "i": "inverse_transform", "lab": "transform_labels", "ilab": "inverse_transform_labels"}[nm]):
            continue
        if nm == "ilab" and yt is None:
            continue
        try:
            out[nm] = f()
        except (ValueError, NotImplementedError, AttributeError, TypeError) as e:
            out[nm] = "raised " + type(e).__name__
    return out


DA = {
    "SinkhornTransport": lambda g: dict(reg_e=g.u(.5, 2), max_iter=100, norm=g.pick([None, "median", "max"]), limit_max=g.pick([np.inf, 10]), out_of_sample_map=g.pick(["continuous", "ferradans"])),
    "EMDTransport": lambda g: dict(norm=g.pick([None, "median"]), limit_max=10),
    "SinkhornLpl1Transport": lambda g: dict(reg_e=g.u(.5, 2), reg_cl=.1, max_iter=3, max_inner_iter=50, norm=g.pick([None, "max"])),
    "SinkhornL1l2Transport": lambda g: dict(reg_e=g.u(.5, 2), reg_cl=.1, max_iter=3, max_inner_iter=50, norm=g.pick([None, "max"])),
    "EMDLaplaceTransport": lambda g: dict(reg_type=g.pick(["pos", "disp"]), max_iter=3, similarity_param=2),
    "UnbalancedSinkhornTransport": lambda g: dict(reg_e=g.u(.5, 2), reg_m=.5, max_iter=60),
    "LinearTransport": lambda g: dict(reg=1e-3, bias=g.flip()),
    "LinearGWTransport": lambda g: dict(),
    "MappingTransport": lambda g: dict(kernel=g.pick(["linear", "gaussian"]), mu=1, eta=1e-2, max_iter=3, bias=g.flip()),
}
for _c in DA:
    def _mk(_c):
        @op("da." + _c, tags="da estimator")
        def f(ot, g):
            n, m = g.n(6, 8), g.n(6, 8)
            if _c == "MappingTransport":
                m = n
            k = g.pick([0, 1, 3])         # labels need not start at 0
            return Call(run_da, ot, _c, DA[_c](g), g.pts(n), g.labels(n) + k, g.pts(m), None if _c == "EMDLaplaceTransport" else g.labels(m) + k, g.pts(3))
    _mk(_c)


@op("da.JCPOTTransport", tags="da estimator", budget=None)
def _jc(ot, g):
    def f(Xs, ys, Xt, init):
        e = ot.da.JCPOTTransport(**init)
        e.fit(Xs=Xs, ys=ys, Xt=Xt)
        return e.coupling_, e.proportions_, e.transform(Xs=Xs), e.transform_labels(ys=ys)
    k = g.pick([0, 2])
    return Call(f, [g.pts(6), g.pts(7)], [g.labels(6) + k, g.labels(7) + k], g.pts(5), dict(reg_e=1.0, max_iter=30, log=g.flip()))


@op("params", tags="da estimator")
def _par(ot, g):
    def f(x, y):
        e = ot.da.SinkhornTransport(reg_e=x)
        p = e.get_params()
        e.set_params(reg_e=y)
        return {k: v for k, v in p.items() if not callable(v)}, e.reg_e
    return Call(f, g.u(.1, 1), g.u(.1, 1))
