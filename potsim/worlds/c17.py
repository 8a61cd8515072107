"""Optional packages that are missing, damaged, outdated or failing."""
import importlib
import os
import sys
import warnings

import numpy as np

from .. import calls, canon, env, gen, ops
from ..gen import Call
from ..runner import Result, in_fork
from ..world import World
from ._pool import names

# package -> (what an error about it may mention, submodule that may be broken, attribute that an old version lacks)
PKG = {
    "torch": (["torch"], None, None),
    "jax": (["jax"], None, None),
    "tensorflow": (["tensorflow"], None, None),
    "cupy": (["cupy"], None, None),
    "networkx": (["networkx"], "networkx.algorithms.community", ("networkx.algorithms.community", "louvain_communities")),
    "sklearn": (["scikit-learn", "sklearn"], "sklearn.cluster", ("sklearn.cluster", "SpectralClustering")),
    "cvxopt": (["cvxopt"], "cvxopt.solvers", ("cvxopt", "spmatrix")),
    "cvxpy": (["cvxpy"], None, None),
    "geomloss": (["geomloss"], None, ("geomloss", "SamplesLoss")),
    "pymanopt": (["pymanopt"], "pymanopt.manifolds", None),
    "autograd": (["autograd"], "autograd.numpy", None),
    "bottleneck": (["bottleneck"], None, None),
    "matplotlib": (["matplotlib"], "matplotlib.pylab", None),
    "torch_geometric": (["torch_geometric"], "torch_geometric.utils", ("torch_geometric.utils", "subgraph")),
}
# functions of a package that can be made to fail when they are called
LATE = {
    "networkx": [("networkx", "from_numpy_array"), ("networkx.algorithms.community", "asyn_fluidc"), ("networkx.algorithms.community", "louvain_communities"), ("networkx", "pagerank")],
    "sklearn": [("sklearn.cluster.KMeans", "fit"), ("sklearn.cluster.SpectralClustering", "fit"), ("sklearn.neighbors", "kneighbors_graph")],
    "cvxopt": [("cvxopt.solvers", "lp")],
    "cvxpy": [("cvxpy.Problem", "solve")],
    "geomloss": [("geomloss.SamplesLoss", "forward")],
}
# registry operations that are allowed to depend on packages, per option drawn
MAYBE = {
    "gw.quantized_fused_gromov_wasserstein": ("networkx", "sklearn"), "gw.quantized_fused_gromov_wasserstein_samples": ("sklearn",),
    "gw.get_graph_partition": ("networkx", "sklearn"), "gw.get_graph_representants": ("networkx",), "gw.get_partition_and_representants_samples": ("sklearn",),
    "gw.semirelaxed_init_plan": ("networkx", "sklearn"), "gw.semirelaxed_fgw_barycenters": ("sklearn",), "gw.semirelaxed_gromov_barycenters": (),
    "lowrank.sinkhorn": ("sklearn",), "mapping.brenier": ("cvxpy",),
    "da.EMDLaplaceTransport": ("sklearn",), "da.emd_laplace": ("sklearn",),
}


def _kw(g, **k):
    return dict(k, random_state=g.seed(), log=False)


def _quant(ot, g, part, rep, F):
    n, m = g.n(6, 8), g.n(6, 8)
    kw = dict(F1=g.pts(n), F2=g.pts(m), alpha=0.5) if F else {}
    return Call(ot.gromov.quantized_fused_gromov_wasserstein, g.metric(n), g.metric(m), 2, 3, g.hist(n), g.hist(m), part_method=part, rep_method=rep, **_kw(g, **kw))


def _lap(ot, g):
    n, m = g.n(6, 8), g.n(6, 8)
    return Call(ot.da.emd_laplace, g.hist(n), g.hist(m), g.pts(n), g.pts(m), g.cost(n, m), sim="knn", sim_param=2, numItermax=3, numInnerItermax=20)


# name -> (packages it cannot do without, builder)
DEMAND = {
    "quantized fluid": (("networkx",), lambda ot, g: _quant(ot, g, "fluid", "random", False)),
    "quantized louvain": (("networkx",), lambda ot, g: _quant(ot, g, "louvain", "random", g.flip())),
    "quantized fluid fused": (("networkx",), lambda ot, g: _quant(ot, g, "fluid_fused", "random", True)),
    "quantized louvain fused": (("networkx",), lambda ot, g: _quant(ot, g, "louvain_fused", g.pick(["random", "pagerank_fused"]), True)),
    "quantized pagerank": (("networkx",), lambda ot, g: _quant(ot, g, "random", "pagerank", g.flip())),
    "quantized spectral": (("sklearn",), lambda ot, g: _quant(ot, g, "spectral", "random", g.flip())),
    "quantized spectral fused": (("sklearn",), lambda ot, g: _quant(ot, g, "spectral_fused", "random", True)),
    "quantized samples kmeans": (("sklearn",), lambda ot, g: Call(ot.gromov.quantized_fused_gromov_wasserstein_samples, g.pts(7), g.pts(6), 2, 3, method="kmeans", **_kw(g))),
    "quantized samples kmeans fused": (("sklearn",), lambda ot, g: Call(ot.gromov.quantized_fused_gromov_wasserstein_samples, g.pts(7), g.pts(6), 2, 3, F1=g.pts(7), F2=g.pts(6),
                                                                       alpha=.5, method="kmeans_fused", **_kw(g))),
    "partition fluid": (("networkx",), lambda ot, g: Call(ot.gromov.get_graph_partition, g.metric(8), 3, part_method="fluid", random_state=g.seed())),
    "partition louvain": (("networkx",), lambda ot, g: Call(ot.gromov.get_graph_partition, g.metric(8), 3, part_method="louvain", random_state=g.seed())),
    "partition spectral": (("sklearn",), lambda ot, g: Call(ot.gromov.get_graph_partition, g.metric(8), 3, part_method="spectral", random_state=g.seed())),
    "representants pagerank": (("networkx",), lambda ot, g: Call(ot.gromov.get_graph_representants, g.metric(8), np.arange(8) % 3, rep_method="pagerank", random_state=g.seed())),
    "partition samples kmeans": (("sklearn",), lambda ot, g: Call(ot.gromov.get_partition_and_representants_samples, g.pts(8), 3, method="kmeans", random_state=g.seed())),
    "srgw init fluid": (("networkx",), lambda ot, g: Call(ot.gromov.semirelaxed_init_plan, g.metric(7), g.metric(3), g.hist(7), method=g.pick(["fluid", "fluid_soft"]), random_state=g.seed())),
    "srgw init kmeans": (("sklearn",), lambda ot, g: Call(ot.gromov.semirelaxed_init_plan, g.metric(7), g.metric(3), g.hist(7), method=g.pick(["kmeans", "kmeans_soft", "spectral", "spectral_soft"]), random_state=g.seed())),
    "srfgw fluid": (("networkx",), lambda ot, g: Call(ot.gromov.semirelaxed_fused_gromov_wasserstein, g.cost(7, 3), g.metric(7), g.metric(3), g.hist(7), G0="fluid", max_iter=20, random_state=g.seed())),
    "srfgw barycenter": (("sklearn",), lambda ot, g: Call(ot.gromov.semirelaxed_fgw_barycenters, 3, [g.pts(5), g.pts(6)], [g.metric(5), g.metric(6)], G0="kmeans", max_iter=2, tol=1e-3, random_state=g.seed())),
    "lowrank kmeans": (("sklearn",), lambda ot, g: Call(ot.lowrank.lowrank_sinkhorn, g.pts(8), g.pts(7), rank=2, init="kmeans", numItermax=20, seed_init=g.seed(), warn=False)),
    "solve_sample lowrank": ((), lambda ot, g: Call(ops._solve, ot, ot.solve_sample, g.pts(8), g.pts(7), method="lowrank", rank=2, max_iter=20)),
    "laplace knn": (("sklearn",), _lap),
    "LP barycenter glpk": (("cvxopt",), lambda ot, g: Call(ot.lp.barycenter, g.hists(4, 2), g.cost(4, 4), g.hist(2), solver="glpk")),
    "LP barycenter cvxopt": ((), lambda ot, g: Call(ot.lp.barycenter, g.hists(4, 2), g.cost(4, 4), g.hist(2), solver=g.pick(["highs-ipm", "highs-ds", "highs"]))),
    "brenier potential": (("cvxpy",), lambda ot, g: Call(ot.mapping.nearest_brenier_potential_fit, g.pts(3), g.pts(3), its=1, init_method="barycentric")),
    "brenier bounds": (("cvxpy",), lambda ot, g: Call(ot.mapping.nearest_brenier_potential_predict_bounds, g.pts(3), np.zeros(3), np.zeros((3, 2)), g.pts(2))),
    "brenier estimator": (("cvxpy",), lambda ot, g: Call(_brenier, ot, g.pts(3), g.pts(3))),
    "geomloss": (("geomloss", "torch"), lambda ot, g: Call(ot.bregman.empirical_sinkhorn2_geomloss, g.pts(5), g.pts(6), 1.0, backend="tensorized")),
    "solve_sample geomloss": (("geomloss", "torch"), lambda ot, g: Call(ops._solve, ot, ot.solve_sample, g.pts(5), g.pts(6), reg=1.0, method="geomloss_tensorized")),
    "screenkhorn": ((), lambda ot, g: Call(ot.bregman.screenkhorn, g.hist(6), g.hist(7), g.cost(6, 7), .5, ns_budget=5, nt_budget=6)),
    "import ot.dr": (("autograd", "pymanopt", "sklearn"), lambda ot, g: Call(_imp, "ot.dr")),
    "import ot.plot": (("matplotlib",), lambda ot, g: Call(_imp, "ot.plot")),
    "import ot.gnn": (("torch",), lambda ot, g: Call(_imp, "ot.gnn")),
    "backend list": ((), lambda ot, g: Call(_backends, ot)),
}
IMPORT_ONLY = {"import ot.dr", "import ot.plot", "import ot.gnn"}


def _imp(name):
    return sorted(k for k in vars(importlib.import_module(name)) if not k.startswith("_"))[:0]


def _brenier(ot, X, V):
    m = ot.da.NearestBrenierPotential(its=1)
    m.fit(Xs=X, Xt=V)
    return m.transform(X)


def _backends(ot):
    x = np.arange(6.0).reshape(2, 3)
    b = ot.backend.get_backend(x, x[0])
    out = [b.__name__, np.asarray(ot.utils.list_to_array([1.0, 2.0])), b.to_numpy(b.sum(x, axis=0)), np.asarray(ot.dist(x, x))]
    try:
        b = ot.backend.get_backend("a string")
        out.append(str(b))
    except Exception as e:
        out.append(type(e).__name__)
    return out


class _Fail:
    """Import hook of one fault."""

    def __init__(self, sub):
        self.sub = sub

    def find_spec(self, name, path=None, target=None):
        hit = name == self.sub or name.startswith(self.sub + ".")
        if not hit:
            return None
        raise ImportError(f"{name}.so.1: cannot open shared object file: No such file or directory", name=name)


def _resolve(path):
    parts = path.split(".")
    for i in range(len(parts), 0, -1):
        m = sys.modules.get(".".join(parts[:i]))
        if m is not None:
            for p in parts[i:]:
                m = getattr(m, p)
            return m
    raise KeyError(path)


class Injected(RuntimeError):
    pass


def break_package(pkg, mode):
    """Apply one fault to the interpreter, before ot is imported."""
    words, sub, attr = PKG[pkg]
    os.environ.pop("POT_BACKEND_DISABLE_" + {"torch": "PYTORCH"}.get(pkg, pkg.upper()), None)
    if mode in ("absent", "broken"):
        target = pkg
    elif mode == "submodule":
        target = sub
        par, _, leaf = sub.rpartition(".")
        m = sys.modules.get(par)
        if m is not None and hasattr(m, leaf):
            delattr(m, leaf)
    elif mode == "old":
        m = _resolve(attr[0])
        if hasattr(m, attr[1]):
            delattr(m, attr[1])
        return
    elif mode == "late":
        def boom(*a, **k):
            raise Injected(f"injected failure inside {pkg}")
        for path, leaf in LATE[pkg]:
            setattr(_resolve(path), leaf, boom)
        return
    if mode == "absent":
        env.hide(pkg)
        return
    for k in [k for k in sys.modules if k == target or k.startswith(target + ".")]:
        del sys.modules[k]
    sys.meta_path.insert(0, _Fail(target))


def import_ot():
    """Import ot in this process; the compiled modules are current."""
    warnings.simplefilter("ignore")
    if str(env.REPO) != "/repo":
        sys.path.insert(0, str(env.REPO))
    import ot
    import ot.batch, ot.coot, ot.da, ot.factored, ot.gmm, ot.gaussian, ot.gromov, ot.lowrank, ot.mapping  # noqa
    import ot.optim, ot.regpath, ot.sgot, ot.sliced, ot.smooth, ot.stochastic, ot.unbalanced, ot.utils, ot.weak  # noqa
    return ot


def perform(spec, faults):
    """Runs in a fork: break packages, import ot, run the operations."""
    for pkg, mode in faults:
        break_package(pkg, mode)
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        try:
            ot = import_ot()
        except BaseException as e:
            return ("import", type(e).__name__, str(e)[:300])
    out = []
    for kind, name, shape, value, lib in spec:
        calls.set_rng(5)
        np.random.seed(5)

        def go():
            if kind == "pool":
                k = ops.build(ot, name, shape, value)
                if lib == "torch":
                    k = calls.to_torch(k)
            else:
                k = DEMAND[name][1](ot, gen.Gen(ot, shape, value))
            return k.run()
        o = canon.observe(go)
        out.append((o.kind, o.value, o.exc, [w[1] for w in o.warns]))
    import ot.backend as B
    return ("ran", out, sorted(b.__name__ for b in B.get_backend_list()))


class C17(World):
    id = "C17"
    torch = True
    rule = ("a case breaks one to five of the optional packages in a fresh interpreter image (absent, raising on import, one submodule missing, one name missing as in an old release, or functions that "
            "fail when called), imports ot and runs four to eight operations; every operation that does not need a broken package must give the result of the undamaged image, and one that needs it must raise or warn "
            "naming the package, or let its failure through. Non-trivial: at least one package broken and at least one operation compared")
    step_unit = "operations executed under damaged packages"
    state_measure = "distinct (package, damage, operation) triples"
    stubs = ["import system of the optional packages"]
    assumptions = ["jax, tensorflow and cupy are never present: only their absence and damage is simulated",
                   "a package that raises something other than ImportError while being imported is outside the property"]
    quick = (700, 32)
    thorough = (60000, 840)

    def setup(self, tier):
        # everything but ot itself is loaded here, so that a fork only imports ot
        warnings.simplefilter("ignore")
        env.hide("jax", "tensorflow", "cupy")
        import numpy, scipy.optimize, scipy.linalg, scipy.sparse, scipy.stats, scipy.special, scipy.spatial.distance  # noqa
        import torch as th
        th.set_num_threads(1)
        try:
            th.set_num_interop_threads(1)
        except RuntimeError:
            pass
        import torch.autograd, torch.nn.functional, torch.optim  # noqa
        for m in ("networkx", "networkx.algorithms.community", "sklearn.cluster", "sklearn.decomposition", "sklearn.neighbors", "cvxopt", "cvxopt.solvers", "cvxpy", "geomloss",
                  "autograd.numpy", "pymanopt", "pymanopt.manifolds", "pymanopt.optimizers", "matplotlib.pylab", "torch_geometric.utils", "torch_geometric.nn", "packaging.version"):
            try:
                importlib.import_module(m)
            except ImportError:
                pass
        os.environ.pop("POT_BACKEND_DISABLE_PYTORCH", None)
        if not env.ext_is_current():
            from .. import build
            env.overlay("ot.partial.partial_cython", build.partial_ext())
            env.overlay("ot.lp.emd_wrap", build.plain_ext())
        assert not any(m == "ot" or m.startswith("ot.") for m in sys.modules)
        self.pool = [n for n in names() if not n.startswith("dr.") and n != "mapping.brenier"]
        self.demand = list(DEMAND)
        self.have = [p for p in PKG if p in sys.modules]

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        faults = []
        for p in r.permutation(list(PKG))[:int(r.choice([1, 1, 2, 3, 5]))]:
            p = str(p)
            modes = ["absent", "absent", "broken"]
            if p in self.have:
                if PKG[p][1]:
                    modes += ["submodule"]
                if PKG[p][2]:
                    modes += ["old"]
                if p in LATE:
                    modes += ["late", "late"]
            faults.append([p, modes[int(r.integers(len(modes)))]])
        gone = {p for p, m in faults}
        spec = []
        near = [d for d in self.demand if set(DEMAND[d][0]) & gone]
        for _ in range(int(r.integers(4, 9))):
            u = r.random()
            s, v = int(r.integers(1 << 30)), int(r.integers(1 << 30))
            if near and u < .5:
                spec.append(["demand", near[int(r.integers(len(near)))], s, v, "numpy"])
            elif u < .6:
                spec.append(["demand", self.demand[int(r.integers(len(self.demand)))], s, v, "numpy"])
            else:
                n = self.pool[int(r.integers(len(self.pool)))]
                t = "torchonly" in ops.OPS[n].tags or (r.random() < .2)
                if t and "torch" in gone:
                    continue
                spec.append(["pool", n, s, v, "torch" if t else "numpy"])
        return {"op": "+".join(sorted(f"{p}:{m}" for p, m in faults)), "faults": faults, "spec": spec or [["demand", "backend list", 1, 1, "numpy"]]}

    def run(self, c):
        res = Result()
        mode = {p: m for p, m in c["faults"]}
        k0, ref = in_fork(lambda: perform(c["spec"], []), 55)
        k1, got = in_fork(lambda: perform(c["spec"], c["faults"]), 55)
        if k0 != "ok" or ref[0] != "ran":
            res["error"] = f"reference run: {k0} {ref}"
            return res
        for p, m in c["faults"]:
            res.fault(f"{p} {m}")
        if k1 != "ok":
            res.bad("C17:died:" + "+".join(sorted(mode)), f"with {c['op']}: {k1} {str(got)[-300:]}")
            return res
        if got[0] == "import":
            res.bad("C17:import:" + "+".join(sorted(mode)), f"with {c['op']}, importing ot fails: {got[1]}: {got[2]}")
            return res
        want = [b for b in ref[2] if not ("torch" in mode and b == "torch")]
        if got[2] != want:
            res.bad("C17:backends:" + "+".join(sorted(mode)), f"with {c['op']} the backends are {got[2]}, expected {want}")
        for (kind, name, *_), (rk, rv, re_, rw), (gk, gv, ge, gw) in zip(c["spec"], ref[1], got[1]):
            res["steps"] += 1
            needs = DEMAND[name][0] if kind == "demand" else MAYBE.get(name, ())
            hit = [p for p in needs if p in mode]
            for p in hit or list(mode):
                res.state(f"{p}|{mode[p]}|{name}")
            res["nontrivial"] = True
            words = [w for p in (needs if hit else ()) for w in PKG[p][0]]
            same = rk == gk and (canon.diff(gv, rv, 1e-9, 1e-12) is None if rk == "ok" else re_[0] == ge[0])
            says = gk == "exc" and ge[0] not in ("NameError", "UnboundLocalError", "AttributeError", "TypeError", "KeyError") and any(w in ge[1].lower() for w in words)
            warned = any(w in x.lower() for x in gw for w in words) and not any(w in x.lower() for x in rw for w in words)
            passed = gk == "exc" and ge[0] == "Injected"
            what = f"{name} with {c['op']}: " + (f"raises {ge[0]}: {ge[1][:160]}" if gk == "exc" else "gives a result") + (f", warns {gw[:2]}" if gw else "")
            if not hit:
                if not same:
                    d = canon.diff(gv, rv, 1e-9, 1e-12) if rk == gk == "ok" else f"with everything present it {'works' if rk == 'ok' else 'raises ' + re_[0]}"
                    res.bad(f"C17:differs:{name}", f"{what}, although it needs none of them: {d}")
                continue
            if kind == "pool":
                # depends on the options drawn: either untouched, or it says why not
                if not (same or says or warned or passed):
                    res.bad(f"C17:silent:{name}", f"{what}, which is neither the result with every package present nor an error about {hit}")
                continue
            if name in IMPORT_ONLY:
                if gk == "exc" and not says:
                    res.bad(f"C17:unclear:{name}", what)
                continue
            late = [p for p in hit if mode[p] == "late"]
            gone = [p for p in hit if mode[p] not in ("late", "old", "submodule")]
            if gone:
                if not (says or (warned and gk == "ok")):
                    res.bad(f"C17:{'unclear' if gk == 'exc' else 'substitute'}:{name}", f"{what}; it needs {gone} and does not say so")
            elif late:
                if not passed and not says and rk == "ok":
                    res.bad(f"C17:unused:{name}", f"{what}; {late} is installed and fails when it is called, which nobody notices")
            elif not (same or says or warned or passed):
                res.bad(f"C17:silent:{name}", f"{what}, which is neither the result with every package present nor an error about {hit}")
        return res

    def shrink(self, c):
        for i in range(len(c["spec"])):
            if len(c["spec"]) > 1:
                yield {**c, "spec": c["spec"][:i] + c["spec"][i + 1:]}
        for i in range(len(c["faults"])):
            if len(c["faults"]) > 1:
                f = c["faults"][:i] + c["faults"][i + 1:]
                yield {**c, "faults": f, "op": "+".join(sorted(f"{p}:{m}" for p, m in f))}


WORLD = C17()
