"""Iteration budgets are respected, convergence is reported truthfully, and no
input makes a solver run forever."""
import inspect
import warnings

import numpy as np

from .. import calls, canon, ops, sched
from ..gen import Call
from ..judge import bound, hist, num
from ..runner import Result
from ..world import World
from ._pool import HEAVY, names

TOLS = ("stopThr", "tol", "tol_rel", "tol_bcd", "tol_outer")
NITER = ("niter", "n_iter")
ERRS = ("err", "error", "errors")
HIST = ERRS + ("loss", "distances", "displacement_square_norms")
STARTED = ("loss",)        # these histories start with the value before the first iteration
INNER = ("numInnerItermax", "numItermax", "max_iter", "numItermax_dykstra", "numItermaxEmd", "iterations", "max_iter_inner", "max_inner_iter", "max_iter_ot", "nits_bcd", "nits_ot", "numIterMax", "ground_bary_numItermax", "niters", "num_iter", "maxiter_sink", "maxiter_MM")
LIMIT = 400_000        # source lines; ordinary cases take well under a tenth


class Endless(BaseException):
    pass


class Cap:
    def __init__(self, n):
        self.n, self.k = n, 0

    def __call__(self, code, line):
        self.k += 1
        if self.k > self.n:
            raise Endless(sched.where(code, line))


def conv(w):
    w = w.lower()
    return "did not converge" in w or "not converge" in w or "numitermax reached" in w


def numeric(w):
    w = w.lower()
    return "numerical error" in w or "machine precision" in w


def target(k):
    return (k.args[1], 2) if k.fn is ops._solve else (k.fn, 0)


def setarg(k, name, val):
    """set a parameter, wherever it was passed"""
    fn, off = target(k)
    sig = inspect.signature(fn).parameters
    if name not in sig:
        return False
    j = list(sig).index(name) + off
    if j < len(k.args):
        k.args[j] = val
    else:
        k.kwargs[name] = val
    return True


# functions that promise a convergence warning, and where it comes from
OFFERS = {"sinkhorn", "sinkhorn2", "sinkhorn_knopp", "sinkhorn_log", "greenkhorn", "sinkhorn_stabilized", "sinkhorn_epsilon_scaling", "barycenter",
          "barycenter_debiased", "convolutional_barycenter2d", "convolutional_barycenter2d_debiased", "unmix", "jcpot_barycenter", "empirical_sinkhorn",
          "empirical_sinkhorn2", "empirical_sinkhorn_nystroem", "empirical_sinkhorn_nystroem2", "sinkhorn_low_rank_kernel", "lowrank_sinkhorn", "lowrank_gromov_wasserstein_samples",
          "sinkhorn_stabilized_unbalanced", "barycenter_unbalanced_stabilized"}
STRICT = {}


def offers(k):
    n = target(k)[0].__name__
    m = k.kwargs.get("method")
    if n in ("sinkhorn_unbalanced", "sinkhorn_unbalanced2", "barycenter_unbalanced"):
        return m == "sinkhorn_stabilized" and np.ndim(k.args[1]) < 2
    if n == "empirical_sinkhorn_divergence":
        return False         # three solves in one
    return n in OFFERS


def several(k):
    """more than one inner solve, so that warnings cannot be attributed"""
    fn = target(k)[0]
    b = k.args[1] if len(k.args) > 1 else None
    return fn.__name__ in ("sinkhorn2",) and np.ndim(b) == 2


def split(v):
    if isinstance(v, (tuple, list)) and len(v) and isinstance(v[-1], dict):
        return tuple(v[:-1]), v[-1]
    if isinstance(v, dict) and isinstance(v.get("log"), dict):
        return tuple(v.get(x) for x in ("value", "plan")), v["log"]
    return (v,), {}


# name -> (class, parameter, small budget, large budget); the tolerances are out of reach
ESTIMATORS = {
    "Sinkhorn": ("SinkhornTransport", "max_iter", 3, 40), "Unbalanced": ("UnbalancedSinkhornTransport", "max_iter", 3, 40),
    "Lpl1": ("SinkhornLpl1Transport", "max_iter", 1, 4), "Lpl1 inner": ("SinkhornLpl1Transport", "max_inner_iter", 3, 40),
    "L1l2": ("SinkhornL1l2Transport", "max_iter", 1, 4), "L1l2 inner": ("SinkhornL1l2Transport", "max_inner_iter", 3, 40),
    "JCPOT": ("JCPOTTransport", "max_iter", 2, 20), "Mapping": ("MappingTransport", "max_iter", 1, 6),
}
FIXED = {
    "SinkhornTransport": dict(reg_e=.3, tol=0.0, log=True, out_of_sample_map=lambda g: g.pick(["ferradans", "continuous"]), method=lambda g: g.pick(["sinkhorn", "sinkhorn_log"])),
    "UnbalancedSinkhornTransport": dict(reg_e=.5, reg_m=1.0, tol=0.0, log=True),
    "SinkhornLpl1Transport": dict(reg_e=1.0, reg_cl=.1, max_iter=2, max_inner_iter=20, tol=0.0),
    "SinkhornL1l2Transport": dict(reg_e=1.0, reg_cl=.1, max_iter=2, max_inner_iter=20, tol=0.0, log=True),
    "JCPOTTransport": dict(reg_e=1.0, tol=0.0, log=True),
    "MappingTransport": dict(mu=1, eta=1e-2, tol=0.0, inner_tol=0.0, max_inner_iter=3, kernel=lambda g: g.pick(["linear", "gaussian"]), bias=lambda g: g.flip()),
}


class Out:
    pass


class C11(World):
    id = "C11"
    torch = True
    rule = ("a case is one iterative solver with a seeded budget, tolerance and warn option, run again with a larger budget, with exactly the number of iterations it reported and with one less; "
            "or any operation on adversarial data (zero, constant, huge, tiny, duplicated, infinite, NaN) under a step limit; non-trivial: the calls return")
    step_unit = "python line events inside ot"
    state_measure = "distinct (operation, options, budget, verdict) tuples"
    quick = (2400, 60)
    thorough = (200000, 840)
    timeout = 60.0

    def setup(self, tier):
        super().setup(tier)
        self.pool = [n for n in names() if ops.OPS[n].budget and "torchonly" not in ops.OPS[n].tags]
        self.all = [n for n in names() if n not in HEAVY]
        sched.ot_codes()

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        kind = "evil" if r.random() < 0.3 else "budget"
        if kind == "evil":
            name = self.all[i % len(self.all)]
        else:
            strong = [n for n in self.pool if "sinkhorn" in n or "bary" in n or n in ("unmix", "greenkhorn", "screenkhorn")]
            name = strong[int(r.integers(len(strong)))] if r.random() < 0.45 else self.pool[i % len(self.pool)]
            if name in HEAVY:
                name = "sinkhorn"
        if r.random() < 0.06:
            est = list(ESTIMATORS)[int(r.integers(len(ESTIMATORS)))]
            return {"op": "da." + est, "kind": "estimator", "est": est, "shape": int(r.integers(1 << 30)), "value": int(r.integers(1 << 30))}
        c = {"op": name, "kind": kind, "shape": int(r.integers(1 << 30)), "value": int(r.integers(1 << 30))}
        if kind == "evil":
            c.update(evil=["zero", "const", "huge", "tiny", "dup", "inf", "nan", "neg", "one", "eps"][int(r.integers(10))], pick=int(r.integers(1 << 20)),
                     lib="torch" if "torchonly" in ops.OPS[name].tags or r.random() < 0.1 else "numpy", tol=r.random() < 0.3)
        else:
            c.update(budget=int(r.integers(1, 12)) if r.random() < 0.4 else int(r.integers(1, 60)), more=int(r.integers(1, 50)),
                     tol=float(10.0 ** r.uniform(-12, -0.5)) if r.random() < 0.85 else None, warn=bool(r.random() < 0.7))
        return c

    # ------------------------------------------------------------- budgets
    def make(self, c, budget):
        o = ops.OPS[c["op"]]
        k = ops.build(self.ot, c["op"], c["shape"], c["value"])
        fn, off = target(k)
        sig = inspect.signature(fn).parameters
        if not setarg(k, o.budget, budget):
            return None
        if off == 0:
            setarg(k, "log", True)
        if c["tol"] is not None:
            for t in TOLS:
                if setarg(k, t, c["tol"]):
                    break
        if "warn" in sig:
            k.kwargs["warn"] = c["warn"]
        if "numInnerItermax" in sig and fn.__name__ == "free_support_sinkhorn_barycenter":
            k.kwargs["numInnerItermax"] = 30
        if o.seedkw and o.seedkw in sig:
            k.kwargs.setdefault(o.seedkw, 5)
        return k

    def go(self, c, budget):
        k = self.make(c, budget)
        if k is None:
            return None
        calls.set_rng(3)
        o = Out()
        o.budget, o.k = budget, k
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            o.v = k.run()
        ws = [str(w.message) for w in rec]
        o.conv = [w for w in ws if conv(w)]
        o.num = [w for w in ws if numeric(w)]
        o.res, o.log = split(o.v)
        o.it = next((o.log[x] for x in NITER if x in o.log), None)
        if o.it is not None:
            o.it = int(o.it)
        o.hist = {h: [float(num(e)) for e in o.log[h]] for h in HIST if isinstance(o.log.get(h), (list, np.ndarray)) and all(np.size(num(e)) == 1 for e in o.log[h])}
        o.canon = canon.canon(o.res)
        return o

    def run(self, c):
        return self.evil(c) if c["kind"] == "evil" else self.estimator(c) if c["kind"] == "estimator" else self.budgets(c)

    def estimator(self, c):
        """the budget given to an estimator is the one its solver gets"""
        from ..gen import Gen
        ot, res = self.ot, Result()
        cls, par, small, large = ESTIMATORS[c["est"]]
        g = Gen(ot, c["shape"], c["value"])
        n, m = g.n(6, 9), g.n(6, 9)
        if cls == "MappingTransport":
            m = n
        many = cls == "JCPOTTransport"
        Xs, ys, Xt = [g.pts(n), g.pts(m)] if many else g.pts(n), [g.labels(n), g.labels(m)] if many else g.labels(n), g.pts(m) + 1
        base = {k: (v(g) if callable(v) else v) for k, v in FIXED[cls].items()}
        got = {}
        for N in (small, large):
            e = getattr(ot.da, cls)(**{**base, par: N})
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                with sched.Monitor(Cap(LIMIT * 4)) as mon:
                    e.fit(Xs=Xs, ys=ys, Xt=Xt)
            L = e.log_ if isinstance(e.log_, dict) else {}
            got[N] = (mon.steps, next((int(L[k]) for k in NITER if k in L), None), [str(w.message) for w in rec])
            res["steps"] += mon.steps
        res["nontrivial"] = True
        res.state(f"{c['op']}|{small}|{large}")
        if got[small][0] >= got[large][0]:
            res.bad(f"C11:estimator-budget:{c['op']}", f"{cls}({par}={large}) does no more work than {cls}({par}={small}): {got[large][0]} and {got[small][0]} steps")
        elif got[small][1] is not None and c["est"] in ("Sinkhorn", "Unbalanced", "JCPOT") and got[small][1] > small:
            res.bad(f"C11:estimator-budget:{c['op']}", f"{cls}({par}={small}) reports {got[small][1]} iterations")
        return res

    def budgets(self, c):
        res = Result()
        op, N = c["op"], c["budget"]
        try:
            A = self.go(c, N)
        except Exception as e:
            res.count("raised")
            return res
        if A is None:
            return res
        res["nontrivial"] = True
        name = target(A.k)[0].__name__
        warnkw = A.k.kwargs.get("warn")
        off = offers(A.k)
        sev = several(A.k)

        def bad(kind, txt):
            res.bad(f"C11:{kind}:{op}", txt)
        # -- budget
        inner = name == "gcg" or op == "da.lpl1"          # the log is the inner solver's
        shared = "barycenters" in name                    # the budget is also the inner solvers'
        settling = ("debiased" in name or "convolutional" in name) and N <= 30   # they iterate at least 20 times
        eps_scal = name == "sinkhorn_epsilon_scaling" or A.k.kwargs.get("method") == "sinkhorn_epsilon_scaling"
        cap = max(N, 35) if eps_scal else N
        if A.it is not None and A.it + 1 > cap and not inner:
            bad("over-budget", f"budget {N}, log says {A.it + 1} iterations")
        for h, xs in A.hist.items():
            if len(xs) > cap + (h in STARTED) and not inner:
                bad("over-budget", f"budget {N}, {len(xs)} entries in log[{h!r}]")
        # -- warnings
        if warnkw is False and A.conv:
            bad("warned-though-off", f"warn=False, budget {N}: {A.conv[0][:80]}")
        if sev or name == "screenkhorn":
            off = False
        tol = c["tol"]
        err = next((A.hist[e] for e in ERRS if e in A.hist and A.hist[e]), None)
        eff = bound(A.k).get("stopThr", bound(A.k).get("tol")) if A.k.fn is not ops._solve else None
        judged = off and warnkw is not False and not A.num
        silent = name == "sinkhorn2" and warnkw is None
        if judged and not silent and err is not None and eff is not None and np.isfinite(err[-1]):
            reached = err[-1] <= eff
            edge = abs(err[-1] - eff) <= 1e-12 * max(1, eff)
            if not edge and A.conv and reached and not settling:
                bad("false-alarm", f"budget {N}, tolerance {eff:.3g}, last error {err[-1]:.3g}, yet: {A.conv[0][:80]}")
            if not edge and not A.conv and not reached:
                bad("false-silence", f"budget {N}, tolerance {eff:.3g}, last error {err[-1]:.3g}, no warning")
        # -- other budgets
        lb = name.startswith("lbfgs") or name in ("smooth_ot_dual", "smooth_ot_semi_dual") or "lbfgs" in str(A.k.kwargs.get("method")) or A.k.kwargs.get("unbalanced_solver") == "lbfgsb" or op in ("solve",)
        extra = []
        if not lb and not eps_scal and not shared and not inner:
            extra.append(("more", N + c["more"]))
        early = A.it is not None and not A.num and (A.it + 1 < N) and not inner and not shared
        if early and not eps_scal:
            extra.append(("exact", A.it + 1))
            if A.it > 0:
                extra.append(("less", A.it))
        for what, n in extra:
            try:
                B = self.go(c, n)
            except Exception:
                continue
            if B is None:
                continue
            res.fault(f"second run with {what} iterations")
            if what == "more":
                for h, xs in A.hist.items():
                    ys = B.hist.get(h, [])
                    m = len(xs)
                    if A.num:
                        continue
                    if name == "sinkhorn_stabilized_unbalanced" or B.num:
                        m = min(len(xs), len(ys))
                    if len(ys) < m or not np.allclose(xs[:m], ys[:m], rtol=1e-9, atol=1e-12, equal_nan=True):
                        bad("history", f"log[{h!r}] of budget {N} is not the beginning of that of budget {n}: {xs[-3:]} / {ys[max(0, m - 3):m]}")
                        break
                same = canon.diff(A.canon, B.canon, 0, 0) is None
                stopped = early or (off and warnkw is not False and not silent and not A.conv and not A.num)
                if stopped and not same:
                    bad("unfinished", f"budget {N} reported convergence (log {A.it}), but a budget of {n} continues")
            elif what == "exact":
                d = canon.diff(A.canon, B.canon, 0, 0)
                if d:
                    bad("niter", f"log says {A.it + 1} iterations, but a budget of {n} gives another result: {d}")
                elif judged and not silent and B.conv and not A.conv:
                    bad("niter", f"log says converged after {A.it + 1} iterations, but a budget of {n} warns")
            elif what == "less":
                if judged and not silent and not A.conv and not B.conv and not B.num:
                    bad("false-silence", f"stopped after {A.it + 1} iterations, but with a budget of {n} it is silent too")
        self.recompute(c, A, bad, res)
        res["steps"] = N
        res.fault("budget")
        res.state(f"{op}|{c['shape'] % 97}|{N}|{bool(A.conv)}|{early}")
        return res

    def recompute(self, c, A, bad, res):
        """the recorded error is the error of the iterate at that check"""
        name = target(A.k)[0].__name__
        P = bound(A.k)
        meth = (P.get("method") or "sinkhorn").lower() if name in ("sinkhorn",) else name
        meth = {"sinkhorn": "sinkhorn", "sinkhorn_knopp": "sinkhorn", "sinkhorn_log": "sinkhorn_log", "sinkhorn_stabilized": "sinkhorn_stabilized"}.get(meth)
        if A.num:
            return
        if meth and np.ndim(num(A.res[0])) == 2 and A.hist.get("err"):
            period = 20 if meth == "sinkhorn_stabilized" else 10
            j = len(A.hist["err"]) - 1
            n = period * j + 1
            B = self.go(c, n)
            T = num(B.res[0])
            b = hist(P["b"], T.shape[1])
            e = float(np.linalg.norm(T.sum(0) - b))
            res.count("errors_recomputed")
            if abs(e - A.hist["err"][j]) > 1e-9 + 1e-6 * e:
                bad("error", f"error {A.hist['err'][j]:.9g} logged at check {j}, the plan of that iteration has {e:.9g}")
        if name in OFFERS and not A.conv and A.k.kwargs.get("warn") is True and meth is None and name in ("greenkhorn",):
            T = num(A.res[0])
            # greenkhorn stops when the largest violation before its last update is small
            e = max(np.abs(T.sum(1) - hist(P["a"], T.shape[0])).max(), np.abs(T.sum(0) - hist(P["b"], T.shape[1])).max())
            if e > 20 * P["stopThr"] + 1e-9:
                bad("false-silence", f"no warning, but a marginal is off by {e:.3g} (tolerance {P['stopThr']:.3g})")
        if name == "sinkhorn_low_rank_kernel" and not A.conv and A.k.kwargs.get("warn") is True:
            u, v = num(A.v[0]), num(A.v[1])
            T = u[:, None] * (num(P["K1"]) @ num(P["K2"]).T) * v[None, :]
            e = float(np.linalg.norm(T.sum(0) - hist(P["b"], len(v))))
            if e > P["stopThr"] * (1 + 1e-6) + 1e-12:
                bad("false-silence", f"no warning, but the column marginal is off by {e:.3g} (tolerance {P['stopThr']:.3g})")
        if name.startswith(("entropic_gromov_wasserstein", "entropic_fused_gromov", "BAPG", "entropic_semirelaxed")) and A.hist.get("err") and not name.endswith("2"):
            j = len(A.hist["err"]) - 1
            n = 10 * j + 1           # the error is looked at before the first and every tenth iteration
            B = self.go(c, n)
            if n == 1:
                return
            B0 = self.go(c, n - 1)
            e = float(np.linalg.norm(num(B.res[0]) - num(B0.res[0])))
            res.count("errors_recomputed")
            if abs(e - A.hist["err"][j]) > 1e-9 + 1e-5 * e:
                bad("error", f"error {A.hist['err'][j]:.9g} logged at check {j}, the plans of iterations {n - 1} and {n} differ by {e:.9g}")

    # ------------------------------------------------------------- no endless loops
    def spoilt(self, c, outer, inner):
        k = ops.build(self.ot, c["op"], c["shape"], c["value"])
        arrs = [p for p, x in calls.arrays_of(k) if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.size > 1 and not p.endswith(".base")]
        if arrs:
            sel = arrs[c["pick"] % len(arrs)]
            self.spoil(next(x for p, x in calls.arrays_of(k) if p == sel), c["evil"], c["pick"])
        if c["tol"]:
            for t in TOLS:
                if setarg(k, t, 0.0):
                    break
        o = ops.OPS[c["op"]]
        if o.budget:
            setarg(k, o.budget, outer)
        for n in INNER:
            if inner and n != o.budget:
                setarg(k, n, inner)
        return calls.to_torch(k) if c["lib"] == "torch" else k

    def evil(self, c):
        res = Result()
        steps, m = 0, None
        for outer, inner, limit in ((10 + c["pick"] % 30, None, LIMIT), (1, 5, 4 * LIMIT)):   # slow is not endless
            k = self.spoilt(c, outer, inner)
            calls.set_rng(4)
            try:
                with sched.Monitor(Cap(limit)) as m:
                    k.run()
                res.count("returned")
                break
            except Endless as e:
                if inner:
                    res.bad(f"C11:endless:{c['op']}", f"{c['evil']} data, budget 1: still running after {limit} lines, at {e}")
            except Exception as e:
                res.count("raised")
                break
        res["steps"] = m.steps
        res.fault("adversarial data: " + c["evil"])
        res["nontrivial"] = True
        res.state(f"{c['op']}|{c['shape'] % 97}|{c['evil']}|{c['lib']}")
        return res

    @staticmethod
    def spoil(x, how, pick):
        r = np.random.Generator(np.random.PCG64(pick))
        f = x.reshape(-1) if x.flags.c_contiguous else None
        if how == "zero":
            x[...] = 0
        elif how == "const":
            x[...] = x.flat[0]
        elif how == "huge":
            x *= 1e8
        elif how == "tiny":
            x *= 1e-12
        elif how == "dup" and x.ndim >= 1:
            x[...] = x[:1]
        elif how == "neg":
            x *= -1
        elif f is not None:
            j = int(r.integers(f.size))
            f[j] = {"inf": np.inf, "nan": np.nan, "one": 1e12, "eps": 1e-300}.get(how, 0.0)

    def shrink(self, c):
        if c["kind"] == "budget":
            for b in {1, 2, 5, 10, 11, c["budget"] // 2, c["budget"] - 1}:
                if 0 < b < c["budget"]:
                    yield dict(c, budget=b)
            if c["more"] > 1:
                yield dict(c, more=1)
                yield dict(c, more=c["more"] // 2)


WORLD = C11()
