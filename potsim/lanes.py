"""Operations that solve several problems at once.  A member is a dict of
arrays; call(members) gives one output (list of arrays) per member."""
import numpy as np

LANES = {}


class L:
    """make(r, shape rng) -> member; call(ot, members, opt) -> outputs; poison:
    keys of a member that may be spoilt; scale: keys that may be badly scaled;
    options(s) -> dict; alone(ot, member, opt) -> outputs by another route;
    tol: relative tolerance"""

    def __init__(self, make, call, poison=(), scale=(), options=lambda s: {}, alone=None, tol=1e-9, torch=True, size=None, alone_tol=1e-6, stop=None, rejects=False):
        self.__dict__.update(locals())


def lane(name, *a, **k):
    LANES[name] = L(*a, **k)


def H(r, n):
    w = r.uniform(0.2, 1, n)
    return w / w.sum()


def st(ms, k):
    """members' arrays stacked first"""
    x = [m[k] for m in ms]
    if hasattr(x[0], "detach"):
        import torch
        return torch.stack(x)
    return np.stack(x)


def stl(ms, k):
    """members' arrays as columns"""
    x = [m[k] for m in ms]
    if hasattr(x[0], "detach"):
        import torch
        return torch.stack(x, -1)
    return np.stack(x, -1)


def rows(x):
    return list(x)


def dims(s):
    return int(s.integers(2, 7)), int(s.integers(2, 7))


# ---------------------------------------------------------------- ot.batch
def _mk_lin(r, s):
    n, m = dims(s)
    return {"M": r.uniform(0, 1, (n, m)), "a": H(r, n), "b": H(r, m)}


def _opt_lin(s):
    return {"reg": float(s.uniform(0.08, 1)), "solver": str(s.choice(["log_sinkhorn", "sinkhorn"])), "reg_type": str(s.choice(["entropy", "kl"])),
            "max_iter": int(s.choice([1, 2, 7, 11, 40])), "tol": 0.0, "w": bool(s.random() < 0.7), "grad": str(s.choice(["envelope", "detach"]))}


def _res(r, B):
    f, g = r.potentials
    return [[r.plan[i], r.value[i], r.value_linear[i], f[i], g[i]] for i in range(B)]


def _solve_batch(ot, ms, o):
    w = {"a": st(ms, "a"), "b": st(ms, "b")} if o["w"] else {}
    return _res(ot.batch.solve_batch(st(ms, "M"), o["reg"], max_iter=o["max_iter"], tol=o["tol"], solver=o["solver"], reg_type=o["reg_type"], grad=o["grad"], **w), len(ms))


lane("solve_batch", _mk_lin, _solve_batch, ("M", "a", "b"), ("M", "a", "b"), _opt_lin)


def _opt_conv(s):
    return dict(_opt_lin(s), max_iter=20000, tol=1e-10, reg=float(s.uniform(0.1, 1)))


def _alone_conv(ot, m, o):
    T = ot.bregman.sinkhorn_log(m["a"], m["b"], m["M"], o["reg"], numItermax=20000, stopThr=1e-11)
    v = (T * m["M"]).sum()
    e = (T * np.log(T + 1e-300)).sum() if o["reg_type"] == "entropy" else (T * np.log(T / (m["a"][:, None] * m["b"][None]) + 1e-300)).sum()
    return [T, v + o["reg"] * e, v]


def _conv(ot, ms, o):
    o = dict(o, w=True)
    return [x[:3] for x in _solve_batch(ot, ms, o)]


lane("solve_batch to convergence", _mk_lin, _conv, (), ("M",), _opt_conv, alone=_alone_conv, tol=1e-6, torch=False)


def _opt_tol(s):
    return dict(_opt_lin(s), max_iter=5000, tol=float(10.0 ** s.uniform(-6, -1.5)), reg=float(s.uniform(0.03, .3)), w=True)


def _mk_mixed(r, s):
    m = _mk_lin(r, s)
    return dict(m, M=m["M"] * (0.01 if r.random() < .6 else 1.0))     # easy problems beside hard ones


def _tol(ot, ms, o):
    """stopped by the tolerance: it holds for every member"""
    r = ot.batch.solve_batch(st(ms, "M"), o["reg"], max_iter=o["max_iter"], tol=o["tol"], solver=o["solver"], reg_type=o["reg_type"], grad=o["grad"], a=st(ms, "a"), b=st(ms, "b"))
    out = []
    for i, m in enumerate(ms):
        P, a, b = (np.asarray(x.detach().numpy() if hasattr(x, "detach") else x) for x in (r.plan[i], m["a"], m["b"]))
        e = np.hypot(np.linalg.norm(P.sum(1) - a), np.linalg.norm(P.sum(0) - b))
        out.append([np.array(float(e <= o["tol"] * 1.001 + 1e-12))])
    return out


lane("solve_batch to a tolerance", _mk_mixed, _tol, (), ("M",), _opt_tol, alone=lambda ot, m, o: _tol(ot, [m], o)[0])


def _mk_smp(r, s):
    n, m = dims(s)
    return {"X": r.normal(size=(n, 2)), "Y": r.normal(size=(m, 2)), "a": H(r, n), "b": H(r, m)}


def _opt_smp(s):
    return dict(_opt_lin(s), metric=str(s.choice(["sqeuclidean", "euclidean", "minkowski"])), p=int(s.integers(1, 4)), reg=float(s.uniform(0.5, 3)))


def _solve_sample(ot, ms, o):
    return _res(ot.batch.solve_sample_batch(st(ms, "X"), st(ms, "Y"), o["reg"], st(ms, "a"), st(ms, "b"), metric=o["metric"], p=o["p"], max_iter=o["max_iter"], tol=0.0, solver=o["solver"],
                                            reg_type=o["reg_type"], grad=o["grad"]), len(ms))


lane("solve_sample_batch", _mk_smp, _solve_sample, ("X", "Y", "a"), ("X", "a"), _opt_smp)


def _dist(ot, ms, o):
    return [[x] for x in ot.batch.dist_batch(st(ms, "X"), None if o["self"] else st(ms, "Y"), metric=o["metric"], p=o["p"])]


def _dist_alone(ot, m, o):
    from scipy.spatial.distance import cdist
    X, Y = m["X"], m["X"] if o["self"] else m["Y"]
    if o["metric"] == "minkowski":
        return [(np.abs(X[:, None] - Y[None]) ** o["p"]).sum(-1) ** (1.0 / o["p"])]
    return [cdist(X, Y, metric=o["metric"])]


lane("dist_batch", _mk_smp, _dist, ("X", "Y"), ("X",), lambda s: dict(_opt_smp(s), self=bool(s.random() < 0.2)), alone=_dist_alone, alone_tol=2e-6)


def _mk_kl(r, s):
    n, m = dims(s)
    X, Y = r.uniform(0.1, 1, (n, 3)), r.uniform(0.1, 1, (m, 3))
    return {"X": X / X.sum(1, keepdims=True), "Y": Y / Y.sum(1, keepdims=True)}


lane("dist_batch kl", _mk_kl, lambda ot, ms, o: [[x] for x in ot.batch.dist_batch(st(ms, "X"), st(ms, "Y"), metric="kl")], ("X", "Y"), ("X",),
     alone=lambda ot, m, o: [(m["Y"][None] * np.log(m["Y"][None] / m["X"][:, None])).sum(-1)], alone_tol=1e-6)


def _mk_T(r, s):
    n, m = dims(s)
    return {"M": r.uniform(0, 1, (n, m)), "T": r.uniform(0, 1, (n, m)), "X": r.normal(size=(n, 2)), "Y": r.normal(size=(m, 2))}


lane("loss_linear_batch", _mk_T, lambda ot, ms, o: [[x] for x in ot.batch.loss_linear_batch(st(ms, "M"), st(ms, "T"))], ("M", "T"), ("M", "T"), alone=lambda ot, m, o: [(m["M"] * m["T"]).sum()])
lane("loss_linear_samples_batch", _mk_T, lambda ot, ms, o: [[x] for x in ot.batch.loss_linear_samples_batch(st(ms, "X"), st(ms, "Y"), st(ms, "T"), metric="sqeuclidean")],
     ("X", "T"), ("X",), alone=lambda ot, m, o: [(((m["X"][:, None] - m["Y"][None]) ** 2).sum(-1) * m["T"]).sum()])


def _mk_proj(r, s):
    n, m = dims(s)
    return {"K": r.normal(size=(n, m)), "a": H(r, n), "b": H(r, m)}


def _proj(ot, ms, o):
    f = ot.batch.bregman_log_projection_batch if o["log"] else ot.batch.bregman_projection_batch
    K = st(ms, "K")
    r = f(K if o["log"] else (K.exp() if hasattr(K, "detach") else np.exp(K)), st(ms, "a"), st(ms, "b"), max_iter=o["max_iter"], tol=0.0, grad="detach")
    return [[r["T"][i], r["potentials"][0][i], r["potentials"][1][i]] for i in range(len(ms))]


lane("bregman projections", _mk_proj, _proj, ("K", "a", "b"), ("K", "a"), lambda s: {"log": bool(s.random() < 0.5), "max_iter": int(s.choice([1, 3, 12, 30]))})


def _sym(r, n, symmetric=True):
    C = r.uniform(0, 1, (n, n))
    return (C + C.T) / 2 if symmetric else C


def _mk_gw(r, s):
    n, m = dims(s)
    sy = s.random() < 0.7
    return {"C1": _sym(r, n, sy), "C2": _sym(r, m, sy), "a": H(r, n), "b": H(r, m), "M": r.uniform(0, 1, (n, m)), "T": np.outer(H(r, n), H(r, m))}


def _mk_gw_kl(r, s):
    n, m = dims(s)
    C1, C2 = r.uniform(0.1, 1, (n, n, 2)), r.uniform(0.1, 1, (m, m, 2))
    C1, C2 = (C1 + C1.transpose(1, 0, 2)) / 2, (C2 + C2.transpose(1, 0, 2)) / 2
    return {"C1": C1, "C2": C2, "a": H(r, n), "b": H(r, m), "M": r.uniform(0, 1, (n, m)), "T": np.outer(H(r, n), H(r, m))}


def _opt_gw(s):
    return {"reg": float(s.uniform(0.1, 1)), "alpha": None if s.random() < 0.5 else float(s.uniform(0, 1)), "symmetric": (None, False)[int(s.integers(2))],
            "max_iter": int(s.choice([1, 2, 5])), "inner": int(s.choice([1, 5, 11])), "w": bool(s.random() < 0.7), "init": bool(s.random() < 0.3)}


def _gw(loss):
    def call(ot, ms, o):
        kw = {"a": st(ms, "a"), "b": st(ms, "b")} if o["w"] else {}
        if o["alpha"] is not None:
            kw.update(M=st(ms, "M"), alpha=o["alpha"])
        if o["init"]:
            kw.update(T_init=st(ms, "T"))
        if loss == "kl":
            kw.update(logits=False)
        r = ot.batch.solve_gromov_batch(st(ms, "C1"), st(ms, "C2"), reg=o["reg"], loss=loss, symmetric=o["symmetric"], max_iter=o["max_iter"], tol=0.0, max_iter_inner=o["inner"], tol_inner=0.0, **kw)
        f, g = r.potentials
        return [[r.plan[i], r.value[i], r.value_linear[i], r.value_quad[i], f[i], g[i]] for i in range(len(ms))]
    return call


lane("solve_gromov_batch", _mk_gw, _gw("sqeuclidean"), ("C1", "C2", "a", "b", "M"), ("C1", "C2", "a"), _opt_gw, tol=1e-7)
lane("solve_gromov_batch kl", _mk_gw_kl, _gw("kl"), ("C1", "C2", "a", "M"), ("C1",), _opt_gw, tol=1e-7)


def _quad(ot, ms, o):
    if o["route"] == 0:
        v = ot.batch.loss_quadratic_samples_batch(st(ms, "a"), st(ms, "b"), st(ms, "C1"), st(ms, "C2"), st(ms, "T"), loss="sqeuclidean", symmetric=False, recompute_const=True)
    else:
        Lt = ot.batch.tensor_batch(st(ms, "a"), st(ms, "b"), st(ms, "C1"), st(ms, "C2"), symmetric=False, loss="sqeuclidean")
        v = ot.batch.loss_quadratic_batch(Lt, st(ms, "T"), recompute_const=True, symmetric=False)
    return [[x] for x in v]


lane("loss_quadratic_batch", _mk_gw, _quad, ("C1", "C2", "a", "T"), ("C1", "T"), lambda s: {"route": int(s.integers(2))},
     alone=lambda ot, m, o: [np.einsum("ij,kl,ikjl->", m["T"], m["T"], (m["C1"][:, :, None, None] - m["C2"][None, None]) ** 2)])


# -------------------------------------------------- several right-hand sides
def _mk_rhs(r, s):
    return {"b": H(r, _RHS(s)[1])}


def _RHS(s):
    q = np.random.Generator(np.random.PCG64(int(s.integers(1 << 30))))
    n, m = dims(q)
    return (n, m, q)


class Shared:
    """what all members of a batch have in common"""

    def __init__(self, seed, lib):
        q = np.random.Generator(np.random.PCG64(seed))
        self.n, self.m = dims(q)
        self.M, self.a = lib(q.uniform(0, 1, (self.n, self.m))), lib(H(q, self.n))
        self.reg, self.rm = float(q.uniform(0.1, 1)), float(q.uniform(0.3, 2))
        self.k = int(q.choice([1, 2, 10, 25]))
        self.Mn, self.an = np.array(self.M), np.array(self.a)


def _rhs(f, alone, name, **kw):
    def opt(s):
        return {"shared": int(s.integers(1 << 30)), "log": bool(s.random() < 0.5)}

    def make(r, s, o):
        q = Shared(o["shared"], lambda x: x)
        return {"b": H(r, q.m)}
    make.wants_options = True
    lane(name, make, f, options=opt, alone=alone, **kw)


def _lib(ms):
    x = next(iter(ms[0].values()))
    if hasattr(x, "detach"):
        import torch
        return lambda y: torch.from_numpy(np.array(y))
    return lambda y: y


def _emd2(ot, ms, o):
    S = Shared(o["shared"], _lib(ms))
    r = ot.emd2(S.a, stl(ms, "b"), S.M, log=o["log"], processes=1)
    if not o["log"]:
        return [[x] for x in r]
    if o["log"]:
        return [[v, l["u"], l["v"]] for v, l in r] if isinstance(r, list) else [[x] for x in r]


def _emd2_alone(ot, m, o):
    S = Shared(o["shared"], lambda x: x)
    return [ot.emd2(S.a, m["b"], S.M)]


_rhs(_emd2, _emd2_alone, "emd2 several right-hand sides", scale=(), torch=True, tol=1e-9)


def _sk(method):
    def f(ot, ms, o):
        S = Shared(o["shared"], _lib(ms))
        r = ot.sinkhorn2(S.a, stl(ms, "b"), S.M, S.reg, method=method, numItermax=S.k, stopThr=0, warn=False, **({"tau": 1.5} if method == "sinkhorn_stabilized" else {}))
        return [[x] for x in r]

    def alone(ot, m, o):
        S = Shared(o["shared"], lambda x: x)
        return [(ot.sinkhorn(S.a, m["b"], S.M, S.reg, method=method, numItermax=S.k, stopThr=0, warn=False) * S.M).sum()]
    return f, alone


for _m in ("sinkhorn", "sinkhorn_stabilized", "sinkhorn_log"):
    _rhs(*_sk(_m), f"{_m} several histograms", poison=("b",) if _m == "sinkhorn_log" else (), scale=("b",), tol=1e-8)


def _unb(method):
    def f(ot, ms, o):
        S = Shared(o["shared"], _lib(ms))
        return [[x] for x in ot.unbalanced.sinkhorn_unbalanced2(S.a, stl(ms, "b"), S.M, S.reg, S.rm, method=method, reg_type="entropy", numItermax=S.k, stopThr=0)]

    def alone(ot, m, o):
        S = Shared(o["shared"], lambda x: x)
        return [ot.unbalanced.sinkhorn_unbalanced2(S.a, m["b"], S.M, S.reg, S.rm, method=method, reg_type="entropy", numItermax=S.k, stopThr=0)]
    return f, alone


for _m in ("sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"):
    _rhs(*_unb(_m), f"unbalanced {_m} several histograms", scale=("b",), tol=1e-8)


# ------------------------------------------------------------ one dimension
def _mk_1d(r, s):
    n, m = dims(s)
    x, y = r.normal(size=n), r.normal(size=m)
    if s.random() < 0.3:
        x = np.round(x, 0)
    return {"x": x, "y": y, "a": H(r, n), "b": H(r, m)}


def _opt_1d(s):
    return {"p": float(s.choice([1, 2, 1.5, 3])), "w": int(s.integers(3)), "log": bool(s.random() < 0.5)}


def _w1d(ot, ms, o):
    kw = {} if o["w"] == 0 else {"u_weights": stl(ms, "a"), "v_weights": stl(ms, "b")} if o["w"] == 1 else {"u_weights": stl(ms, "a")}
    if o["log"] and not hasattr(ms[0]["x"], "detach"):
        v, P = ot.wasserstein_1d(stl(ms, "x"), stl(ms, "y"), p=o["p"], return_plans=True, **kw)
        return [[v[i], P[i].toarray()] for i in range(len(ms))]
    return [[x] for x in ot.wasserstein_1d(stl(ms, "x"), stl(ms, "y"), p=o["p"], **kw)]


def _w1d_alone(ot, m, o):
    a = m["a"] if o["w"] else np.full(len(m["x"]), 1 / len(m["x"]))
    b = m["b"] if o["w"] == 1 else np.full(len(m["y"]), 1 / len(m["y"]))
    return [ot.emd2(a, b, np.abs(m["x"][:, None] - m["y"][None]) ** o["p"])]


lane("wasserstein_1d", _mk_1d, _w1d, ("x", "y", "a"), ("x", "y"), _opt_1d, alone=_w1d_alone)


def _mk_circ(r, s):
    n, m = dims(s)
    return {"x": r.uniform(size=n), "y": r.uniform(size=m), "a": H(r, n), "b": H(r, m)}


def _circ(ot, ms, o):
    kw = {} if o["w"] == 0 else {"u_weights": stl(ms, "a"), "v_weights": stl(ms, "b")}
    if o["p"] == 1:
        return [[x] for x in ot.wasserstein_circle(stl(ms, "x"), stl(ms, "y"), p=1, **kw)]
    if o["log"]:
        v, l = ot.binary_search_circle(stl(ms, "x"), stl(ms, "y"), p=o["p"], log=True, **kw)
        return [[x] for x in v]
    return [[x] for x in ot.wasserstein_circle(stl(ms, "x"), stl(ms, "y"), p=o["p"], **kw)]


def _circ_alone(ot, m, o):
    a = m["a"] if o["w"] else np.full(len(m["x"]), 1 / len(m["x"]))
    b = m["b"] if o["w"] else np.full(len(m["y"]), 1 / len(m["y"]))
    d = np.abs(m["x"][:, None] - m["y"][None])
    return [ot.emd2(a, b, np.minimum(d, 1 - d) ** o["p"])]


lane("wasserstein_circle", _mk_circ, _circ, ("x", "y"), (), _opt_1d, alone=_circ_alone, tol=1e-6, alone_tol=1e-4)
lane("semidiscrete circle", _mk_circ, lambda ot, ms, o: [[x] for x in ot.semidiscrete_wasserstein2_unif_circle(stl(ms, "x"), **({"u_weights": stl(ms, "a")} if o["w"] else {}))],
     ("x", "a"), (), _opt_1d)
lane("linear_circular_ot", _mk_circ, lambda ot, ms, o: [[x] for x in ot.linear_circular_ot(stl(ms, "x"), stl(ms, "y"), **({"u_weights": stl(ms, "a"), "v_weights": stl(ms, "b")} if o["w"] else {}))],
     ("x", "y"), (), _opt_1d)


# ------------------------------------------------------------------ gaussian
def _mk_gauss(r, s):
    d = int(s.integers(1, 4))
    A, B = r.normal(size=(d, d + 1)), r.normal(size=(d, d + 1))
    return {"ms": r.normal(size=d), "mt": r.normal(size=d), "Cs": A @ A.T + .1 * np.eye(d), "Ct": B @ B.T + .1 * np.eye(d)}


def _bw_alone(ot, m, o):
    return [ot.gaussian.bures_wasserstein_distance(m["ms"], m["mt"], m["Cs"], m["Ct"])]


lane("bures_wasserstein_distance paired", _mk_gauss, lambda ot, ms, o: [[x] for x in ot.gaussian.bures_wasserstein_distance(st(ms, "ms"), st(ms, "mt"), st(ms, "Cs"), st(ms, "Ct"), paired=True)],
     ("ms", "mt"), ("ms", "Cs"), alone=_bw_alone, tol=1e-7, rejects=True)
lane("bures_distance paired", _mk_gauss, lambda ot, ms, o: [[x] for x in ot.gaussian.bures_distance(st(ms, "Cs"), st(ms, "Ct"), paired=True)],
     (), ("Cs",), alone=lambda ot, m, o: [ot.gaussian.bures_distance(m["Cs"], m["Ct"])], tol=1e-7)


def _pairs(f):
    def call(ot, ms, o):
        W = f(ot, ms)
        return [[W[i, i]] for i in range(len(ms))]
    return call


lane("bures_wasserstein_distance all pairs", _mk_gauss, _pairs(lambda ot, ms: ot.gaussian.bures_wasserstein_distance(st(ms, "ms"), st(ms, "mt"), st(ms, "Cs"), st(ms, "Ct"))),
     ("ms", "mt"), ("ms", "Cs"), alone=_bw_alone, tol=1e-7, rejects=True)
lane("dist_bures_squared", _mk_gauss, _pairs(lambda ot, ms: ot.gmm.dist_bures_squared(st(ms, "ms"), st(ms, "mt"), st(ms, "Cs"), st(ms, "Ct"))),
     (), ("Cs",), alone=lambda ot, m, o: [_bw_alone(ot, m, o)[0] ** 2], tol=1e-6, rejects=True)


def _mk_pt(r, s):
    return {"x": r.normal(size=2)}


_C = np.array([[1.0, .3], [.3, .7]])
lane("gaussian_logpdf", _mk_pt, lambda ot, ms, o: [[x] for x in ot.gmm.gaussian_logpdf(st(ms, "x"), _lib(ms)(np.array([.2, -.1])), _lib(ms)(_C))], ("x",), ("x",),
     alone=lambda ot, m, o: [__import__("scipy.stats").stats.multivariate_normal([.2, -.1], _C).logpdf(m["x"])])


def _map(method):
    def f(ot, ms, o):
        lb = _lib(ms)
        q = np.random.Generator(np.random.PCG64(3))
        m_s, m_t = lb(q.normal(size=(2, 2))), lb(q.normal(size=(3, 2)))
        C = lb(np.stack([_C] * 2)), lb(np.stack([_C * 1.5] * 3))
        w = lb(np.array([.4, .6])), lb(np.array([.3, .3, .4]))
        return [[x] for x in ot.gmm.gmm_ot_apply_map(st(ms, "x"), m_s, m_t, C[0], C[1], w[0], w[1], method=method)]
    return f


lane("gmm_ot_apply_map", _mk_pt, _map("bary"), ("x",), (), tol=1e-7)


# -------------------------------------------------------------- dist, simplex
lane("dist", _mk_pt, lambda ot, ms, o: [[x] for x in ot.dist(st(ms, "x"), _lib(ms)(np.array([[.1, .2], [1., -1.], [0., 3.]])), metric=o["metric"], p=3)], ("x",), ("x",),
     lambda s: {"metric": str(s.choice(["sqeuclidean", "euclidean", "cityblock", "minkowski", "chebyshev", "cosine"]))},
     alone=lambda ot, m, o: [__import__("scipy.spatial.distance").spatial.distance.cdist(m["x"][None], np.array([[.1, .2], [1., -1.], [0., 3.]]), metric=o["metric"], **({"p": 3} if o["metric"] == "minkowski" else {}))[0]],
     torch=False, tol=1e-7)


def _mk_v(r, s):
    return {"v": r.normal(size=int(s.integers(2, 8)))}


lane("proj_simplex", _mk_v, lambda ot, ms, o: [[x] for x in ot.utils.proj_simplex(stl(ms, "v"), o["z"]).T], ("v",), ("v",), lambda s: {"z": float(s.uniform(.5, 2))},
     alone=lambda ot, m, o: [_simplex(m["v"], o["z"])])
lane("projection_sparse_simplex", _mk_v, lambda ot, ms, o: [[x] for x in ot.utils.projection_sparse_simplex(st(ms, "v"), min(o["nz"], len(ms[0]["v"])), z=o["z"], axis=1)], ("v",), ("v",),
     lambda s: {"z": float(s.uniform(.5, 2)), "nz": int(s.integers(1, 4))}, alone=lambda ot, m, o: [_sparse(m["v"], o["z"], min(o["nz"], len(m["v"])))])


def _simplex(v, z):
    u = np.sort(v)[::-1]
    c = np.cumsum(u) - z
    k = np.nonzero(u - c / np.arange(1, len(v) + 1) > 0)[0][-1]
    return np.maximum(v - c[k] / (k + 1), 0)


def _sparse(v, z, nz):
    i = np.argsort(v)[::-1][:nz]
    out = np.zeros_like(v)
    out[i] = _simplex(v[i], z)
    return out


# -------------------------------------------------------------------- sliced
def _mk_dir(r, s):
    t = r.normal(size=2)
    return {"t": t / np.linalg.norm(t)}


def _sliced(ot, ms, o):
    q = np.random.Generator(np.random.PCG64(o["data"]))
    n, m = dims(q)
    lb = _lib(ms)
    X, Y, a, b = lb(q.normal(size=(n, 2))), lb(q.normal(size=(m, 2))), lb(H(q, n)), lb(H(q, m))
    f = ot.sliced_wasserstein_distance
    v, l = f(X, Y, a, b, p=o["p"], projections=stl(ms, "t"), log=True)
    return [[x] for x in l["projected_emds"]]


def _sliced_alone(ot, m, o):
    q = np.random.Generator(np.random.PCG64(o["data"]))
    n, k = dims(q)
    X, Y, a, b = q.normal(size=(n, 2)), q.normal(size=(k, 2)), H(q, n), H(q, k)
    return [ot.emd2(a, b, np.abs((X @ m["t"])[:, None] - (Y @ m["t"])[None]) ** o["p"])]


lane("sliced projections", _mk_dir, _sliced, (), ("t",), lambda s: {"data": int(s.integers(1 << 30)), "p": int(s.integers(1, 4))}, alone=_sliced_alone)


# ------------------------------------------------------------ unbalanced 1-D
def _uot1d(ot, ms, o):
    u, v, c = ot.unbalanced.uot_1d(stl(ms, "x"), stl(ms, "y"), o["rm"], u_weights=stl(ms, "a"), v_weights=stl(ms, "b"), p=int(o["p"] + .5), numItermax=o["k"], returnCost=o["cost"])
    return [[u[:, i], v[:, i], c[i]] for i in range(len(ms))]


lane("uot_1d", _mk_1d, _uot1d, (), (), lambda s: dict(_opt_1d(s), rm=float(s.uniform(.3, 3)), k=int(s.integers(1, 6)), cost=str(s.choice(["linear", "total"]))), tol=1e-6, torch="only")


def _sqrtm(ot, ms, o):
    C = st(ms, "Cs")
    nx = ot.backend.get_backend(C)
    return [[a, b] for a, b in zip(nx.sqrtm(C), nx.inv(C))]


def _sqrtm_alone(ot, m, o):
    w, V = np.linalg.eigh(m["Cs"])
    return [(V * np.sqrt(w)) @ V.T, np.linalg.inv(m["Cs"])]


lane("matrix square roots", _mk_gauss, _sqrtm, (), ("Cs",), alone=_sqrtm_alone, tol=1e-7)


def _mk_S(r, s):
    d = int(s.integers(2, 4))
    A, B = r.normal(size=(d, d)), r.normal(size=(d, d))
    return {"A": A + A.T, "S": B @ B.T + np.eye(d)}


lane("proj_SDP", _mk_S, lambda ot, ms, o: [[x] for x in ot.utils.proj_SDP(st(ms, "A"), vmin=o["v"])], (), ("A",), lambda s: {"v": float(s.choice([0, .1]))},
     alone=lambda ot, m, o: [(lambda w, V: (V * np.maximum(w, o["v"])) @ V.T)(*np.linalg.eigh(m["A"]))], tol=1e-7)


# ------------------------------------------------- pooling of graphs (ot.gnn)
def _mk_graph(r, s):
    d = int(s.integers(1, 4))
    n = int(r.integers(1, 6))
    E = [(i, j) for i in range(n) for j in range(i) if r.random() < .5]
    E = np.array([(i, j) for i, j in E] + [(j, i) for i, j in E], dtype=np.int64).reshape(-1, 2).T
    return {"x": r.normal(size=(n, d)), "E": np.ascontiguousarray(E[:, r.permutation(E.shape[1])]) if E.size else E.copy()}


def _opt_graph(s):
    return {"data": int(s.integers(1 << 30)), "alpha": [0.0, None, .3, 1.0][int(s.integers(4))], "multi": bool(s.random() < .4), "mix": bool(s.random() < .5),
            "T": int(s.integers(1, 4)), "nodes": int(s.integers(1, 5)), "tw": bool(s.random() < .3), "trained": bool(s.random() < .5)}


def _pool(d, o):
    import torch
    import ot.gnn
    torch.manual_seed(o["data"])
    if o["tw"]:
        f = ot.gnn.TWPooling(d, n_tplt=o["T"], n_tplt_nodes=o["nodes"], train_node_weights=o["trained"])
    else:
        f = ot.gnn.TFGWPooling(d, n_tplt=o["T"], n_tplt_nodes=o["nodes"], alpha=o["alpha"], multi_alpha=o["multi"], train_node_weights=o["trained"])
    if o["trained"]:
        torch.nn.init.normal_(f.q0)
    return f


def _pooled(ot, ms, o):
    import torch
    f = _pool(ms[0]["x"].shape[1], o)
    owner = np.concatenate([np.full(len(m["x"]), i) for i, m in enumerate(ms)])
    start = np.cumsum([0] + [len(m["x"]) for m in ms])
    place = np.arange(len(owner))               # where node k of the concatenation is stored
    if o["mix"]:                                # graphs interleaved, each in its own order
        place = np.empty(len(owner), dtype=int)
        slots = np.random.Generator(np.random.PCG64([o["data"], len(owner)])).permutation(owner)
        for i in range(len(ms)):
            place[owner == i] = np.nonzero(slots == i)[0]
    x = torch.empty((len(owner), ms[0]["x"].shape[1]), dtype=torch.float32)
    b = torch.empty(len(owner), dtype=torch.int64)
    x[place], b[place] = torch.cat([m["x"] for m in ms]).float(), torch.from_numpy(owner)
    E = torch.from_numpy(place)[torch.cat([m["E"] + int(s) for m, s in zip(ms, start)], dim=1)]
    return [[r] for r in f(x, E, b)]


def _pooled_alone(ot, m, o):
    import torch
    return [_pool(m["x"].shape[1], o)(torch.from_numpy(m["x"]).float(), torch.from_numpy(m["E"])).detach().numpy()]


lane("graph pooling", _mk_graph, _pooled, ("x",), (), _opt_graph, alone=_pooled_alone, tol=1e-5, alone_tol=1e-5, torch="only")
