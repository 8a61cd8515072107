"""Stochastic solvers under sampling orders decided by the simulator."""
import itertools
import warnings

import numpy as np
from scipy.special import logsumexp

from .. import calls
from ..runner import Result
from ..world import World

ORDERS = ["uniform", "cyclic", "reverse", "permuted", "blocks", "palindrome", "weighted"]


class Sched(np.random.RandomState):
    """A random generator whose choices follow a schedule and are recorded."""

    def __new__(cls, *a, **k):
        return super().__new__(cls, 0)

    def __init__(self, order, seed, noise=0):
        super().__init__(noise)
        self.order, self.r, self.queue, self.log = order, np.random.Generator(np.random.PCG64(seed)), {}, []

    def _next(self, n, lane=0):
        q = self.queue.setdefault((n, lane), [])
        if not q:
            p = list(range(n))
            if self.order in ("uniform", "weighted"):
                w = np.ones(n) if self.order == "uniform" else 1.0 / (1 + np.arange(n))
                p = [int(x) for x in self.r.choice(n, size=8 * n, p=w / w.sum())] if self.order == "uniform" else p + [int(x) for x in self.r.permutation(n)]
            elif self.order == "reverse":
                p = p[::-1]
            elif self.order == "permuted":
                p = [int(x) for x in self.r.permutation(n)]
            elif self.order == "blocks":
                p = [x for x in p for _ in range(3)]
            elif self.order == "palindrome":
                p = p + p[::-1]
            q.extend(p)
        return q.pop(0)

    def randint(self, low, high=None, size=None, dtype=int):
        lo, n = (0, low) if high is None else (low, high - low)
        if size is None:
            x = lo + self._next(int(n))
            self.log.append((int(n), x))
            return x
        v = np.array([lo + self._next(int(n)) for _ in range(int(np.prod(size)))]).reshape(size)
        self.log += [(int(n), int(x)) for x in v.reshape(-1)]
        return v

    def choice(self, a, size=None, replace=True, p=None):
        n = int(a) if np.ndim(a) == 0 else len(a)
        k = 1 if size is None else int(np.prod(size))
        ok = np.ones(n, bool) if p is None else np.asarray(p) > 0
        out = []
        guard = 0
        while len(out) < k:
            x = self._next(n, len(self.log) % 2)     # rows and columns have independent orders
            guard += 1
            if guard > 200 * (n + k):
                raise ValueError("Fewer non-zero entries in p than size")
            if ok[x] and (replace or x not in out):
                out.append(x)
        self.log.append((n, tuple(out)))
        v = np.array(out)
        v = np.asarray(a)[v] if np.ndim(a) else v
        return v[0] if size is None else v.reshape(size)

    def rand(self, *s):
        return self.r.random(s) if s else float(self.r.random())

    random_sample = random = lambda self, size=None: self.r.random(size)


def H(r, n):
    w = r.uniform(0.2, 1, n)
    return w / w.sum()


def grad_semi(b, M, reg, beta, i):
    z = (beta - M[i]) / reg + np.log(b)
    return b - np.exp(z - logsumexp(z))


def semi_value(a, b, M, reg, beta):
    return float(beta @ b - reg * (a @ logsumexp((beta[None] - M) / reg + np.log(b)[None], axis=1)))


def optimum(a, b, M, reg):
    f, g = np.zeros(len(a)), np.zeros(len(b))
    for _ in range(20000):
        f = -reg * logsumexp((g[None] - M) / reg + np.log(b)[None], axis=1)
        g2 = -reg * logsumexp((f[:, None] - M) / reg + np.log(a)[:, None], axis=0)
        if np.abs(g2 - g).max() < 1e-12:
            break
        g = g2
    return semi_value(a, b, M, reg, g2), g2


def model_sag(a, b, M, reg, lr, idx):
    n, m = M.shape
    beta, table = np.zeros(m), np.zeros((n, m))
    for i in idx:
        table[i] = a[i] * grad_semi(b, M, reg, beta, i)
        beta = beta + lr / n * table.sum(0)
    return beta


def model_asgd(a, b, M, reg, lr, idx):
    n, m = M.shape
    beta, its = np.zeros(m), []
    for k, i in enumerate(idx, 1):
        beta = beta + lr / np.sqrt(k) * n * a[i] * grad_semi(b, M, reg, beta, i)
        its.append(beta)
    return np.mean(its, axis=0) if its else beta


def model_sgd(a, b, M, reg, lr, batches):
    n, m = M.shape
    u, v = np.zeros(n), np.zeros(m)
    for k, (A, B) in enumerate(batches, 1):
        A, B = list(A), list(B)
        P = np.exp((u[A][:, None] + v[B][None] - M[np.ix_(A, B)]) / reg) * a[A][:, None] * b[B][None]
        du = a[A] * len(B) / m - P.sum(1)
        dv = b[B] * len(A) / n - P.sum(0)
        u, v = u.copy(), v.copy()
        u[A] += lr / np.sqrt(k) * du
        v[B] += lr / np.sqrt(k) * dv
    return u, v


MODES = ["sag", "asgd", "sgd", "semi", "dual", "grad", "loss", "pogrow", "sampled", "estimate", "bures"]


class C18(World):
    id = "C18"
    torch = True
    rule = ("a case is one stochastic solver on a seeded problem with a generator whose draws follow a seeded fair order (uniform, cyclic, reversed, permuted within passes, blocks, palindromes, uneven); "
            "the recorded draws are replayed through a reference model of the algorithm, and after a bounded number of passes the objective must have approached its optimum. Non-trivial: at least two samples")
    step_unit = "draws"
    state_measure = "distinct (solver, sizes, order, options) tuples"
    quick = (4600, 40)
    thorough = (400000, 840)
    timeout = 60.0

    def setup(self, tier):
        super().setup(tier)
        np.seterr(all="ignore")

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        c = {"op": MODES[i % len(MODES)], "value": int(r.integers(1 << 31)), "order": ORDERS[int(r.integers(len(ORDERS)))], "oseed": int(r.integers(1 << 31)),
             "n": int(r.integers(2, 7)), "m": int(r.integers(2, 7)), "reg": float(r.choice([0.3, 0.5, 1, 2])), "uniform": bool(r.random() < .3),
             "converge": bool(r.random() < .35), "k": int(r.choice([1, 2, 5, 17, 40])), "lr": float(r.choice([.05, .2, .5])), "defaultlr": bool(r.random() < .4), "bs": int(r.integers(1, 7)),
             "tiny": bool(r.random() < .15)}
        return c

    def problem(self, c):
        r = np.random.Generator(np.random.PCG64(c["value"]))
        n, m = c["n"], c["m"]
        a = np.full(n, 1 / n) if c["uniform"] else H(r, n)
        b = np.full(m, 1 / m) if r.random() < .3 else H(r, m)
        M = r.uniform(0, 1, (n, m))
        if c["tiny"] and c["op"] in ("sag", "asgd"):
            M = (M + 1) * c["reg"] * 1000        # costs far above the regularisation
        return r, a, b, M

    def run(self, c):
        res = Result()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            calls.set_rng(11)
            st = np.random.get_state()
            try:
                getattr(self, "do_" + c["op"])(c, res)
            except AssertionError as e:
                res.bad(f"C18:{e.args[0]}:{c['op']}", e.args[1])
            except Exception as e:
                res.bad(f"C18:raised:{c['op']}", f"{type(e).__name__}: {str(e)[:200]}")
            if c["op"] not in ("bures", "estimate") and not all(np.array_equal(x, y) for x, y in zip(st, np.random.get_state())):
                res.bad(f"C18:global:{c['op']}", "the process-wide random stream was used although a generator was given")
        res["nontrivial"] = True
        res.fault(f"order: {c['order']}")
        res.state(f"{c['op']}|{c['n']}|{c['m']}|{c['order']}|{c['reg']}|{c['uniform']}|{c['k']}|{c['converge']}|{c['bs'] % 4}")
        return res

    @staticmethod
    def close(x, y, what, tol=1e-8):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.shape != y.shape:
            raise AssertionError("shape", f"{what}: shape {x.shape} instead of {y.shape}")
        if not np.isfinite(x).all():
            raise AssertionError("nonfinite", f"{what} is not finite")
        e = np.abs(x - y).max()
        if e > tol * (1 + np.abs(y).max()):
            raise AssertionError("model", f"{what} differs from the reference model by {e:.3g}")

    def semi(self, c, res, f, model, default):
        r, a, b, M = self.problem(c)
        n = len(a)
        lr = None if c["defaultlr"] else c["lr"] * c["reg"]
        k = c["k"]
        s1, s2 = Sched(c["order"], c["oseed"], 1), Sched(c["order"], c["oseed"], 2)
        x = f(a, b, M, c["reg"], numItermax=k, lr=lr, random_state=s1)
        y = f(a, b, M, c["reg"], numItermax=k, lr=lr, random_state=s2)
        res["steps"] += 2 * k
        if not np.array_equal(x, y):
            raise AssertionError("source", "same draws, different result")
        idx = [i for _, i in s1.log]
        if len(idx) != k:
            res.count("draws not recognised")
            return
        if any(nn != n for nn, _ in s1.log):
            raise AssertionError("fair", f"draws from {s1.log[0][0]} of {n} samples")
        self.close(x, model(a, b, M, c["reg"], lr if lr is not None else c["reg"] / a.max(), idx), "potential", 1e-7)
        if c["converge"] and not c["tiny"]:
            passes = 400
            s = Sched(c["order"], c["oseed"])
            step = .3 if f.__name__.startswith("sag") else .5
            x = f(a, b, M, c["reg"], numItermax=passes * n, lr=step * c["reg"] / (a.max() if f.__name__.startswith("sag") else 1), random_state=s)
            res["steps"] += passes * n
            best, g = optimum(a, b, M, c["reg"])
            v0, v1 = semi_value(a, b, M, c["reg"], np.zeros(len(b))), semi_value(a, b, M, c["reg"], x)
            self.gap = (best - v1 - default * (best - v0)) / c["reg"]
            if self.gap > .01:
                raise AssertionError("progress", f"after {passes} passes the gap is {best - v1:.3g}, it started at {best - v0:.3g}")

    def do_sag(self, c, res):
        self.semi(c, res, self.ot.stochastic.sag_entropic_transport, model_sag, .05)

    def do_asgd(self, c, res):
        self.semi(c, res, self.ot.stochastic.averaged_sgd_entropic_transport, model_asgd, .3)

    def do_sgd(self, c, res):
        r, a, b, M = self.problem(c)
        bs = min(c["bs"], len(a), len(b))
        s = Sched(c["order"], c["oseed"])
        u, v = self.ot.stochastic.sgd_entropic_regularization(a, b, M, c["reg"], bs, c["k"], c["lr"], random_state=s)
        res["steps"] += c["k"]
        L = [x for _, x in s.log]
        if len(L) != 2 * c["k"]:
            res.count("draws not recognised")
            return
        mu, mv = model_sgd(a, b, M, c["reg"], c["lr"], list(zip(L[::2], L[1::2])))
        self.close(u, mu, "first potential")
        self.close(v, mv, "second potential")
        if c["converge"]:
            s = Sched("uniform" if c["order"] == "uniform" else "permuted", c["oseed"])
            u, v = self.ot.stochastic.sgd_entropic_regularization(a, b, M, c["reg"], bs, 3000, c["reg"], random_state=s)
            res["steps"] += 3000
            val = lambda u, v: u @ a + v @ b - c["reg"] * (np.exp((u[:, None] + v[None] - M) / c["reg"]) * np.outer(a, b)).sum()
            best, g = optimum(a, b, M, c["reg"])
            best -= c["reg"]
            g0 = best - val(0 * a, 0 * b)
            g1 = best - val(u, v)
            self.gap = (g1 - .5 * g0) / c["reg"]
            if self.gap > .03:
                raise AssertionError("progress", f"after 3000 batches of {bs} the dual gap is {g1:.3g}, it started at {g0:.3g}")

    def swap(self, s, f):
        """f with the process-wide generator replaced by the schedule"""
        old = np.random.mtrand._rand
        np.random.mtrand._rand = s
        try:
            return f()
        finally:
            np.random.mtrand._rand = old

    def do_semi(self, c, res):
        r, a, b, M = self.problem(c)
        method = "SAG" if c["bs"] % 2 else "asgd"
        lr = None if c["defaultlr"] else c["lr"] * c["reg"]
        s = Sched(c["order"], c["oseed"])
        P, log = self.swap(s, lambda: self.ot.stochastic.solve_semi_dual_entropic(a, b, M, c["reg"], method, numItermax=c["k"], lr=lr, log=True))
        res["steps"] += c["k"]
        idx = [i for _, i in s.log]
        if len(idx) == c["k"]:
            self.close(log["beta"], (model_sag if method == "SAG" else model_asgd)(a, b, M, c["reg"], lr if lr is not None else c["reg"] / a.max(), idx), "potential", 1e-7)
        al = -c["reg"] * logsumexp((log["beta"][None] - M) / c["reg"] + np.log(b)[None], axis=1)
        self.close(log["alpha"], al, "first potential")
        self.close(P, np.exp((al[:, None] + log["beta"][None] - M) / c["reg"]) * np.outer(a, b), "plan", 1e-7)
        self.close(P.sum(1), a, "first marginal", 1e-7)

    def do_dual(self, c, res):
        r, a, b, M = self.problem(c)
        bs = min(c["bs"], len(a), len(b))
        s = Sched(c["order"], c["oseed"])
        P, log = self.swap(s, lambda: self.ot.stochastic.solve_dual_entropic(a, b, M, c["reg"], bs, numItermax=c["k"], lr=c["lr"], log=True))
        res["steps"] += c["k"]
        L = [x for _, x in s.log]
        if len(L) == 2 * c["k"]:
            mu, mv = model_sgd(a, b, M, c["reg"], c["lr"], list(zip(L[::2], L[1::2])))
            self.close(log["alpha"], mu, "first potential")
            self.close(log["beta"], mv, "second potential")
        self.close(P, np.exp((log["alpha"][:, None] + log["beta"][None] - M) / c["reg"]) * np.outer(a, b), "plan", 1e-7)

    def do_grad(self, c, res):
        """the average over all batches is the gradient of the dual"""
        r, a, b, M = self.problem(c)
        n, m = M.shape
        u, v = r.normal(size=n) * .3, r.normal(size=m) * .3
        bs = min(c["bs"], n, m)
        A, B = list(itertools.combinations(range(n), bs)), list(itertools.combinations(range(m), bs))
        if len(A) * len(B) > 400:
            bs = 1
            A, B = [(i,) for i in range(n)], [(j,) for j in range(m)]
        gu, gv = np.zeros(n), np.zeros(m)
        for x in A:
            for y in B:
                p = r.permutation(bs)
                x2, y2 = np.array(x)[p], np.array(y)[p[::-1]]
                du, dv = self.ot.stochastic.batch_grad_dual(a, b, M, c["reg"], u, v, bs, x2, y2)
                if np.abs(np.delete(du, x2)).sum() + np.abs(np.delete(dv, y2)).sum() > 0:
                    raise AssertionError("model", "gradient outside the batch")
                gu, gv = gu + du, gv + dv
        res["steps"] += len(A) * len(B)
        P = np.exp((u[:, None] + v[None] - M) / c["reg"]) * np.outer(a, b)
        scale = (bs / n) * (bs / m)
        self.close(gu / (len(A) * len(B)) / scale, a - P.sum(1), "mean gradient of the first potential")
        self.close(gv / (len(A) * len(B)) / scale, b - P.sum(0), "mean gradient of the second potential")
        g = sum(a[i] * self.ot.stochastic.coordinate_grad_semi_dual(b, M, c["reg"], v, i) for i in range(n))
        al = -c["reg"] * logsumexp((v[None] - M) / c["reg"] + np.log(b)[None], axis=1)
        self.close(g, b - (np.exp((al[:, None] + v[None] - M) / c["reg"]) * np.outer(a, b)).sum(0), "mean coordinate gradient")
        self.close(self.ot.stochastic.c_transform_entropic(b, M, c["reg"], v), al, "c-transform")

    def do_loss(self, c, res):
        """losses on minibatches: the mean over equal minibatches is the loss, and the plan gives its gradient"""
        import torch
        r, a, b, M = self.problem(c)
        n, m = M.shape
        xs, xt = r.normal(size=(n, 2)), r.normal(size=(m, 2))
        kind = "entropic" if c["bs"] % 2 else "quadratic"
        lo, pl = getattr(self.ot.stochastic, "loss_dual_" + kind), getattr(self.ot.stochastic, "plan_dual_" + kind)
        T = lambda x: torch.from_numpy(np.array(x))
        u, v = T(r.normal(size=n) * .3).requires_grad_(), T(r.normal(size=m) * .3).requires_grad_()
        kw = {} if c["uniform"] else dict(ws=T(a), wt=T(b))
        A, B = (np.full(n, 1 / n), np.full(m, 1 / m)) if c["uniform"] else (a, b)
        L = lo(u, v, T(xs), T(xt), reg=c["reg"], **kw)
        L.backward()
        P = pl(u, v, T(xs), T(xt), reg=c["reg"], **kw).detach().numpy()
        self.close(u.grad, A - P.sum(1), "gradient of the loss")
        self.close(v.grad, B - P.sum(0), "gradient of the loss")
        res["steps"] += 1
        vals = []
        bs = min(c["bs"], n, m, 2)
        un, vn = u.detach().numpy(), v.detach().numpy()
        for x in itertools.combinations(range(n), bs):
            for y in itertools.combinations(range(m), bs):
                x, y = list(x), list(y)
                vals.append(float(lo(un[x], vn[y], xs[x], xt[y], reg=c["reg"])))
        res["steps"] += len(vals)
        full = float(lo(un, vn, xs, xt, reg=c["reg"]))
        self.close(np.mean(vals), full, "mean loss over all minibatches")

    def gwprob(self, c):
        r = np.random.Generator(np.random.PCG64(c["value"]))
        n, m = c["n"], c["m"]
        s = lambda n: (lambda X: np.abs(X[:, None] - X[None]).sum(-1))(r.normal(size=(n, 2)))
        p, q = (np.full(n, 1 / n), np.full(m, 1 / m)) if c["uniform"] else (H(r, n), H(r, m))
        return s(n), s(m), p, q

    def do_pogrow(self, c, res):
        C1, C2, p, q = self.gwprob(c)
        L = lambda x, y: np.abs(x - y) ** 2
        s = Sched(c["order"], c["oseed"])
        T = self.ot.gromov.pointwise_gromov_wasserstein(C1, C2, p, q, L, alpha=1 if c["bs"] % 2 else .7, max_iter=c["k"], random_state=s)
        res["steps"] += len(s.log)
        T = np.asarray(T.toarray() if hasattr(T, "toarray") else T)
        if (T < -1e-12).any():
            raise AssertionError("feasible", "negative entry")
        self.close(T.sum(1), p, "first marginal", 1e-6)
        self.close(T.sum(0), q, "second marginal", 1e-6)

    def do_sampled(self, c, res):
        C1, C2, p, q = self.gwprob(c)
        L = lambda x, y: np.abs(x - y) ** 2
        s = Sched(c["order"], c["oseed"])
        T = self.ot.gromov.sampled_gromov_wasserstein(C1, C2, p, q, L, nb_samples_grad=min(c["bs"], len(p)) if c["defaultlr"] else min(c["bs"], len(p) * len(q)), epsilon=0 if c["defaultlr"] else .8, max_iter=min(c["k"], 17), random_state=s)
        res["steps"] += len(s.log)
        if (T < -1e-12).any() or not np.isfinite(T).all():
            raise AssertionError("feasible", "negative or non-finite entry")
        # the inner Sinkhorn stops at its iteration limit: its second marginal need not have converged
        self.close(T.sum(1), p, "first marginal", 1e-5)
        self.close(T.sum(0), q, "second marginal", 1e-5 if c["defaultlr"] else 2e-2)

    def do_estimate(self, c, res):
        """estimator of the Gromov loss: right on average"""
        r = np.random.Generator(np.random.PCG64(c["value"]))
        C1, C2, p, q = self.gwprob(dict(c, uniform=True, n=max(c["n"], c["m"]), m=min(c["n"], c["m"])))
        n, m = len(p), len(q)
        W = r.uniform(.1, 1, (n, m))
        T = W / W.sum(1, keepdims=True) / n          # rows uniform
        q = T.sum(0)
        L = lambda x, y: np.abs(x - y) ** 2 if c["bs"] % 2 else np.abs(x - y)
        exact = np.einsum("ik,jl,ijkl->", T, T, L(C1[:, :, None, None], C2[None, None]))
        if n == m and c["bs"] % 3:
            C1, C2, T, p, q = C1, C2, T, p, q
        g = np.random.RandomState(c["oseed"] % (1 << 32))
        N = 150
        sw = n > m and c["k"] % 2 == 1
        X = [float(self.ot.gromov.GW_distance_estimation(*((C2, C1, q, p) if sw else (C1, C2, p, q)), L, T.T if sw else T, nb_samples_p=None if c["bs"] > 3 else max(1, n - 1), nb_samples_q=c["bs"] % 3 + 1, std=False, random_state=g)) for _ in range(N)]
        res["steps"] += N
        z = (np.mean(X) - exact) / (np.std(X) / np.sqrt(N) + 1e-9)
        if abs(z) > 7:
            raise AssertionError("unbiased", f"mean of {N} estimates {np.mean(X):.4g}, true value {exact:.4g} ({z:.1f} standard errors)")

    def do_bures(self, c, res):
        r = np.random.Generator(np.random.PCG64(c["value"]))
        n, d = c["n"], 2
        C = np.stack([(lambda A: A @ A.T + .3 * np.eye(d))(r.normal(size=(d, d))) for _ in range(n)])
        w = np.full(n, 1 / n) if c["uniform"] else H(r, n)
        g = self.ot.gaussian
        ref = g.bures_barycenter_fixpoint(C, w, num_iter=2000, eps=1e-12)
        s = Sched("permuted" if c["order"] != "uniform" else "uniform", c["oseed"])

        if not c["uniform"]:   # a draw with probabilities: real ones, from the case's own stream
            rs = np.random.RandomState(c["oseed"] % (1 << 32))
            ch = rs.choice
        else:
            ch = s.choice
        old = np.random.choice
        np.random.choice = ch
        try:
            X = g.bures_barycenter_gradient_descent(C, weights=w, num_iter=600, eps=0, batch_size=min(c["bs"], n - 1), averaged=False)
        finally:
            np.random.choice = old
        res["steps"] += 600
        val = lambda S: sum(x * float(g.bures_distance(S, Ci)) ** 2 for x, Ci in zip(w, C))
        self.gap = (val(X) - val(ref)) / (val(ref) + .5)
        if not np.isfinite(X).all() or self.gap > .05:
            raise AssertionError("progress", f"after 600 batches the objective is {val(X):.4g}, the optimum {val(ref):.4g}")

    def shrink(self, c):
        if c["converge"]:
            yield dict(c, converge=False)
        for k in ("n", "m", "k"):
            if c[k] > 2:
                yield dict(c, **{k: c[k] // 2 if k == "k" else c[k] - 1})
        if c["order"] != "cyclic":
            yield dict(c, order="cyclic")
        if not c["uniform"]:
            yield dict(c, uniform=True)


WORLD = C18()
