"""Operations evaluated piece by piece.  A kind has make(r) -> data (numpy
arrays and scalars), call(ot, d, chunk) -> list of arrays, dense(ot, d) ->
list of arrays by another route, size(d) -> largest useful chunk, pieces ->
name of a callable in the data that evaluates one piece (for failures)."""
import numpy as np

CHUNKS = {}


class K:
    def __init__(self, make, call, dense, size, tol=1e-9, torch=True, pair=False, callback=None, after=False):
        self.__dict__.update(locals())


def H(r, n, zero=False):
    w = r.uniform(0.2, 1, n)
    return w / w.sum()


def nm(r, lo=1, hi=12):
    return int(r.integers(lo, hi)), int(r.integers(lo, hi))


# ------------------------------------------------------------ reductions
def _mk_red(r):
    shape = tuple(int(x) for x in r.integers(1, 9, size=int(r.integers(2, 4))))
    return {"A": r.normal(size=shape), "axis": (None, 0, 1)[int(r.integers(3))], "f": str(r.choice(["sum", "max", "mean", "prod"]))}


def _fn(nx, d):
    name = "sum" if d["axis"] is None else d["f"]
    return {"sum": nx.sum, "max": nx.max, "mean": nx.mean, "prod": nx.prod}[name]


def _red(ot, d, chunk):
    nx = ot.backend.get_backend(d["A"])
    cb = d.get("callback")

    def get(i, j, *k, A):
        if cb:
            cb()
        return A[(i, j) + k]
    T = ot.utils.LazyTensor(tuple(d["A"].shape), get, A=d["A"])
    return [ot.utils.reduce_lazytensor(T, _fn(nx, d), axis=d["axis"], nx=nx if d["A"].shape[0] % 2 else None, batch_size=chunk)]


def _red_dense(ot, d):
    nx = ot.backend.get_backend(d["A"])
    return [_fn(nx, d)(d["A"], axis=d["axis"]) if d["axis"] is not None else _fn(nx, d)(d["A"])]


CHUNKS["reduce_lazytensor"] = K(_mk_red, _red, _red_dense, lambda d: max(d["A"].shape[:2]), callback="callback")


# ------------------------------------------------------ sinkhorn, lazily
METRICS = ["sqeuclidean", "euclidean", "cityblock"]


def _mk_smp(r):
    n, m = nm(r)
    return {"X": r.normal(size=(n, 2)), "Y": r.normal(size=(m, 2)), "a": H(r, n), "b": H(r, m), "reg": float(r.uniform(0.7, 3)), "metric": str(r.choice(METRICS)),
            "k": int(r.choice([1, 3, 10, 13, 31])), "w": bool(r.random() < .8), "order": [int(x) for x in r.permutation(n)], "sub": [int(x) for x in r.integers(0, 7, 6)],
            "warm": bool(r.random() < .3)}


def _metric(d):
    cb = d.get("callback")
    if cb is None:
        return d["metric"]

    def f(x, y):
        cb()
        return float({"sqeuclidean": ((x - y) ** 2).sum(), "euclidean": np.sqrt(((x - y) ** 2).sum()), "cityblock": np.abs(x - y).sum()}[d["metric"]])
    return f


def cost(ot, d):
    X, Y = np.asarray(d["X"]), np.asarray(d["Y"])
    D = X[:, None] - Y[None]
    return {"sqeuclidean": (D ** 2).sum(-1), "euclidean": np.sqrt((D ** 2).sum(-1)), "cityblock": np.abs(D).sum(-1)}[d["metric"]]


def _ab(d):
    return (d["a"], d["b"]) if d["w"] else (None, None)


def _wt(d):
    n, m = d["X"].shape[0], d["Y"].shape[0]
    return (np.asarray(d["a"]), np.asarray(d["b"])) if d["w"] else (np.full(n, 1 / n), np.full(m, 1 / m))


def _reference(ot, d):
    """f from g, then g from f, k times, in the log domain"""
    from scipy.special import logsumexp
    a, b = _wt(d)
    M = cost(ot, d) / d["reg"]
    f, g = np.zeros(len(a)), np.zeros(len(b))
    if d["warm"]:
        f, g = 0.1 * np.arange(len(a)), -0.2 * np.arange(len(b))
    for _ in range(d["k"]):
        f = np.log(a) - logsumexp(g[None] - M, axis=1)
        g = np.log(b) - logsumexp(f[:, None] - M, axis=0)
    return f, g, np.exp(f[:, None] + g[None] - M)


def _warm(ot, d):
    if not d["warm"]:
        return None
    nx = ot.backend.get_backend(d["X"])
    n, m = d["X"].shape[0], d["Y"].shape[0]
    return nx.from_numpy(0.1 * np.arange(n), type_as=d["X"]), nx.from_numpy(-0.2 * np.arange(m), type_as=d["X"])


def _emp(ot, d, chunk):
    f, g, l = ot.bregman.empirical_sinkhorn(d["X"], d["Y"], d["reg"], *_ab(d), metric=_metric(d), numIterMax=d["k"], stopThr=0., isLazy=True, batchSize=chunk, log=True, warn=False, warmstart=_warm(ot, d))
    T = l["lazy_plan"]
    return [f, g, T[:]] + _views(T, d)


def _views(T, d):
    """parts of a lazy plan, in a seeded order"""
    n, m = T.shape
    i, j, k, l, s, t = d["sub"]
    out = [T[x] for x in d["order"][:3]]
    out += [T[i % n:(i + j) % n + 1], T[:, k % m:(k + l) % m + 1], T[i % n, k % m], T[::s + 1, ::t + 1], T[i % n, :], T[:, k % m], T[-1 - (i % n)], T[:, -1 - (k % m)], T[-1 - (i % n):, :-1 or None]]
    return out


def views_dense(P, d):
    n, m = P.shape
    i, j, k, l, s, t = d["sub"]
    out = [P[x] for x in d["order"][:3]]
    out += [P[i % n:(i + j) % n + 1], P[:, k % m:(k + l) % m + 1], P[i % n, k % m], P[::s + 1, ::t + 1], P[i % n, :], P[:, k % m], P[-1 - (i % n)], P[:, -1 - (k % m)], P[-1 - (i % n):, :-1]]
    return out


def _emp_dense(ot, d):
    f, g, P = _reference(ot, d)
    return [f, g, P] + views_dense(P, d)


CHUNKS["empirical_sinkhorn"] = K(_mk_smp, _emp, _emp_dense, lambda d: max(d["X"].shape[0], d["Y"].shape[0]), pair=True, callback="callback", tol=1e-8)


def _emp2(ot, d, chunk):
    v, l = ot.bregman.empirical_sinkhorn2(d["X"], d["Y"], d["reg"], *_ab(d), metric=_metric(d), numIterMax=d["k"], stopThr=0., isLazy=True, batchSize=chunk, log=True, warn=False, warmstart=_warm(ot, d))
    w = ot.bregman.empirical_sinkhorn2(d["X"], d["Y"], d["reg"], *_ab(d), metric=_metric(d), numIterMax=d["k"], stopThr=0., isLazy=True, batchSize=chunk, log=False, warn=False, warmstart=_warm(ot, d))
    return [v, w, l["u"], l["v"]]


def _emp2_dense(ot, d):
    f, g, P = _reference(ot, d)
    v = (P * cost(ot, d)).sum()
    return [v, v, f, g]


CHUNKS["empirical_sinkhorn2"] = K(_mk_smp, _emp2, _emp2_dense, lambda d: max(d["X"].shape[0], d["Y"].shape[0]), pair=True, callback="callback", tol=1e-8)


def _mk_stop(r):
    d = _mk_smp(r)
    X = d["X"]
    X[r.permutation(len(X))[: len(X) // 2]] *= .1        # rows that converge at different speeds
    return dict(d, k=2000, warm=False, thr=float(10.0 ** r.uniform(-7, -1.5)), reg=float(r.uniform(.2, 1)))


def _stop(ot, d, chunk):
    """stopped by the tolerance: at the same iteration whatever the chunks"""
    f, g, l = ot.bregman.empirical_sinkhorn(d["X"], d["Y"], d["reg"], *_ab(d), metric=_metric(d), numIterMax=d["k"], stopThr=d["thr"], isLazy=True, batchSize=chunk, log=True, warn=False)
    v, l2 = ot.bregman.empirical_sinkhorn2(d["X"], d["Y"], d["reg"], *_ab(d), metric=_metric(d), numIterMax=d["k"], stopThr=d["thr"], isLazy=True, batchSize=chunk, log=True, warn=False)
    return [f, g, np.array(float(l["niter"])), np.array(float(l2["niter"])), np.array([float(x) for x in l["err"]]), v]


CHUNKS["empirical_sinkhorn to a tolerance"] = K(_mk_stop, _stop, lambda ot, d: _stop(ot, dict(d, callback=None), 1000), lambda d: max(d["X"].shape[0], d["Y"].shape[0]), pair=True, torch=False, tol=1e-8)


def _conv(ot, d, chunk):
    r = ot.solve_sample(d["X"], d["Y"], *_ab(d), reg=d["reg"], metric=_metric(d), lazy=True, batch_size=chunk, max_iter=5000, tol=1e-11)
    T = r.lazy_plan
    return [r.value_linear, T[:], r.marginal_a, r.marginal_b]


def _conv_dense(ot, d):
    a, b = _ab(d)
    r = ot.solve_sample(d["X"], d["Y"], a, b, reg=d["reg"], reg_type="entropy", metric=d["metric"], max_iter=5000, tol=1e-11)
    A, B = _wt(d)
    return [r.value_linear, r.plan, A, B]


CHUNKS["solve_sample lazy"] = K(_mk_smp, _conv, _conv_dense, lambda d: max(d["X"].shape[0], d["Y"].shape[0]), pair=True, callback="callback", tol=1e-6)


# ---------------------------------------------------- exact from coordinates
def _lazyemd(ot, d, chunk):
    r = ot.solve_sample(d["X"], d["Y"], *_ab(d), metric=d["metric"], lazy=True, batch_size=chunk)
    v = ot.lp.emd2_lazy(d["X"], d["Y"], *_ab(d), metric=d["metric"], return_matrix=False)
    P = r.sparse_plan
    P = np.asarray(P.to_dense() if hasattr(P, "to_dense") else P.toarray() if hasattr(P, "toarray") else P)
    return [v, r.value, (P * cost(ot, d)).sum(), P.sum(1), P.sum(0)]


def _lazyemd_dense(ot, d):
    A, B = _wt(d)
    v = ot.emd2(A, B, cost(ot, d))
    return [v, v, v, A, B]


CHUNKS["exact from coordinates"] = K(_mk_smp, _lazyemd, _lazyemd_dense, lambda d: 4, tol=1e-7)


# ------------------------------------------------------------- factored plans
def _mk_fac(r):
    n, m = nm(r, 2)
    k = int(r.integers(1, 5))
    return {"Q": r.uniform(size=(n, k)), "R": r.uniform(size=(m, k)), "d": r.uniform(.5, 2, k) if r.random() < .6 else None,
            "order": [int(x) for x in r.permutation(n)], "sub": [int(x) for x in r.integers(0, 7, 6)]}


def _fac(ot, d, chunk):
    nx = ot.backend.get_backend(d["Q"])
    T = ot.utils.get_lowrank_lazytensor(d["Q"], d["R"], d["d"])
    return [T[:], ot.utils.reduce_lazytensor(T, nx.sum, axis=0, nx=nx, batch_size=chunk), ot.utils.reduce_lazytensor(T, nx.sum, axis=1, nx=nx, batch_size=chunk),
            ot.utils.reduce_lazytensor(T, nx.sum, nx=nx, batch_size=chunk)] + [T[x] for x in d["order"][:3]] + [T[i % T.shape[0]:, :d["sub"][1] + 1] for i in d["sub"][:2]] + [T[-1], T[:, -1:]]


def _fac_dense(ot, d):
    Q, R = np.asarray(d["Q"]), np.asarray(d["R"])
    P = Q @ (np.diag(np.asarray(d["d"])) if d["d"] is not None else np.eye(Q.shape[1])) @ R.T
    return [P, P.sum(0), P.sum(1), P.sum()] + [P[x] for x in d["order"][:3]] + [P[i % len(P):, :d["sub"][1] + 1] for i in d["sub"][:2]] + [P[-1], P[:, -1:]]


CHUNKS["factored lazy plan"] = K(_mk_fac, _fac, _fac_dense, lambda d: max(len(d["Q"]), len(d["R"])))


def _lowrank(method):
    def call(ot, d, chunk):
        kw = dict(rank=2, max_iter=20, method=method, lazy=bool(chunk % 2))
        if method == "nystroem":
            kw.update(reg=5., random_state=1)
        if method in ("lowrank",):
            kw.update(reg=.5)
        if method.startswith("geomloss"):
            kw = dict(method=method, reg=1., lazy=True, metric=d["metric"] if d["metric"] != "cityblock" else "euclidean")
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = ot.solve_sample(d["X"], d["Y"], *_ab(d), **kw)
        r._batch_size = chunk
        T = r.lazy_plan
        P = T[:]
        d["P"] = np.asarray(P.detach() if hasattr(P, "detach") else P)
        return [P, r.marginal_a, r.marginal_b] + _views(T, d)

    def dense(ot, d):
        P = d["P"]
        return [P, P.sum(1), P.sum(0)] + views_dense(P, d)

    def make(r):
        d = _mk_smp(r)
        n, m = max(3, d["X"].shape[0]), max(3, d["Y"].shape[0])
        d.update(X=r.normal(size=(n, 2)), Y=r.normal(size=(m, 2)), a=H(r, n), b=H(r, m), order=[int(x) for x in r.permutation(n)])
        return d
    CHUNKS[f"solve_sample {method}"] = K(make, call, dense, lambda d: max(d["X"].shape[0], d["Y"].shape[0]), tol=1e-8, after=True)


for _m in ("lowrank", "factored", "nystroem", "geomloss_tensorized"):
    _lowrank(_m)


# ---------------------------------------------------------- sums over pairs
def _mk_pairs(r):
    d = _mk_smp(r)
    k = int(r.integers(1, 25))
    d.update(i=r.integers(0, d["X"].shape[0], k), j=r.integers(0, d["Y"].shape[0], k), pw=r.uniform(size=k) if r.random() < .7 else None)
    return d


def _pairs(ot, d, chunk):
    return [ot.utils.sparse_ot_dist(d["X"], d["Y"], d["i"], d["j"], d["pw"], metric=d["metric"], batch_size=chunk)]


def _pairs_dense(ot, d):
    M = cost(ot, d)[np.asarray(d["i"]), np.asarray(d["j"])]
    return [(M * (np.asarray(d["pw"]) if d["pw"] is not None else 1 / len(M))).sum()]


CHUNKS["sparse_ot_dist"] = K(_mk_pairs, _pairs, _pairs_dense, lambda d: len(d["i"]))


def _splans(ot, d, chunk):
    a, b = _ab(d)
    th = ot.backend.get_backend(d["X"]).from_numpy(np.array([[1, 0, .6], [0, 1, .8]]), type_as=d["X"])
    plans, costs = ot.sliced.sliced_plans(d["X"], d["Y"], a, b, metric=d["metric"], projections=th, batch_size=chunk)
    P, c = ot.sliced.min_sliced_transport_plan(d["X"], d["Y"], a, b, metric=d["metric"], projections=th, batch_size=chunk)
    E, e = ot.sliced.expected_sliced_plan(d["X"], d["Y"], a, b, metric=d["metric"], projections=th, batch_size=chunk, beta=d["reg"] - 1)
    d["P"] = np.asarray(P)
    return [costs, c, e]


def _splans_dense(ot, d):
    a, b = _wt(d)
    X, Y, M = np.asarray(d["X"]), np.asarray(d["Y"]), cost(ot, d)
    cs, Ps = [], []
    for t in (np.array([1., 0]), np.array([0, 1.]), np.array([.6, .8])):
        p = 2 if d["metric"] != "cityblock" else 1
        P = ot.emd_1d(X @ t, Y @ t, a, b, metric="sqeuclidean")
        cs.append((P * M).sum())
        Ps.append(P)
    cs = np.array(cs)
    w = np.exp(-(d["reg"] - 1) * (cs - cs.min()))
    w /= w.sum()
    return [cs, cs.min(), (sum(x * P for x, P in zip(w, Ps)) * M).sum()]


CHUNKS["sliced plans"] = K(_mk_smp, _splans, _splans_dense, lambda d: d["X"].shape[0] + d["Y"].shape[0], tol=2e-6)


# ------------------------------------------------- out-of-sample transport
def _mk_oos(r):
    d = _mk_smp(r)
    n, m = max(2, d["X"].shape[0]), max(2, d["Y"].shape[0])
    k = int(r.integers(1, 14))
    d.update(X=r.normal(size=(n, 2)), Y=r.normal(size=(m, 2)) + 1, new=r.normal(size=(k, 2)), cls=str(r.choice(["EMDTransport", "SinkhornTransport", "UnbalancedSinkhornTransport"])),
             cont=bool(r.random() < .5), norm=(None, "max", "median")[int(r.integers(3))], inv=bool(r.random() < .5))
    return d


def _est(ot, d):
    if d["cls"] == "EMDTransport":
        e = ot.da.EMDTransport(norm=d["norm"], metric=d["metric"])
    elif d["cls"] == "SinkhornTransport":
        e = ot.da.SinkhornTransport(reg_e=d["reg"], norm=d["norm"], metric=d["metric"], max_iter=50, method="sinkhorn_log", out_of_sample_map="continuous" if d["cont"] else "ferradans")
    else:
        e = ot.da.UnbalancedSinkhornTransport(reg_e=d["reg"], reg_m=1., norm=d["norm"], metric=d["metric"], max_iter=50)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return e.fit(Xs=d["X"], Xt=d["Y"])


def _oos(ot, d, chunk):
    e = _est(ot, d)
    return [e.inverse_transform(Xt=d["new"], batch_size=chunk) if d["inv"] else e.transform(Xs=d["new"], batch_size=chunk)]


def _oos_dense(ot, d):
    """every new point on its own: that of the nearest sample, or the softmax formula"""
    e = _est(ot, d)
    X, Y, Z = (np.asarray(d[k]) for k in ("X", "Y", "new"))
    G = np.asarray(e.coupling_)
    if d["inv"]:
        X, Y, G = Y, X, G.T
    if d["cls"] == "SinkhornTransport" and d["cont"]:
        g = np.asarray(e.log_["log_u" if d["inv"] else "log_v"])
        full = cost(ot, d)
        s = {None: 1., "max": full.max(), "median": np.median(full)}[d["norm"]]
        M = cost(ot, {"X": Z, "Y": Y, "metric": d["metric"]}) / s
        K_ = np.exp(-M / d["reg"] + g[None])
        return [K_ @ Y / K_.sum(1, keepdims=True)]
    i = ((Z[:, None] - X[None]) ** 2).sum(-1).argmin(1)
    T = G / G.sum(1, keepdims=True) @ Y
    return [T[i] + Z - X[i]]


CHUNKS["out-of-sample transport"] = K(_mk_oos, _oos, _oos_dense, lambda d: len(d["new"]), tol=1e-8)


def _mk_jc(r):
    ns = [int(x) for x in r.integers(3, 8, 2)]
    return {"X1": r.normal(size=(ns[0], 2)), "X2": r.normal(size=(ns[1], 2)), "y1": np.arange(ns[0]) % 2, "y2": np.arange(ns[1]) % 2, "Y": r.normal(size=(6, 2)) + 1, "new": r.normal(size=(int(r.integers(1, 10)), 2)), "reg": float(r.uniform(.7, 2))}


def _jc(ot, d, chunk):
    e = ot.da.JCPOTTransport(reg_e=d["reg"], max_iter=20).fit(Xs=[d["X1"], d["X2"]], ys=[d["y1"], d["y2"]], Xt=d["Y"])
    d["e"] = [np.asarray(g) for g in e.coupling_]
    return [e.transform(Xs=d["new"], batch_size=chunk)]


def _jc_dense(ot, d):
    if "e" not in d:
        _jc(ot, d, 3)
    X = np.concatenate([np.asarray(d["X1"]), np.asarray(d["X2"])])
    T = np.concatenate([G / G.sum(1, keepdims=True) @ np.asarray(d["Y"]) for G in d["e"]])
    Z = np.asarray(d["new"])
    i = ((Z[:, None] - X[None]) ** 2).sum(-1).argmin(1)
    return [T[i] + Z - X[i]]


CHUNKS["out-of-sample transport, several sources"] = K(_mk_jc, _jc, _jc_dense, lambda d: len(d["new"]), torch=False)
