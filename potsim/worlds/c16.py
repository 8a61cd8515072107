"""Logs, progress output, warnings, clocks and output streams never change a result."""
import contextlib
import inspect
import io
import os
import sys
import tempfile
import time
import warnings

import numpy as np

from .. import calls, canon, ops
from ..runner import Result
from ..world import World
from ._pool import draw, names, prepare

# packages below ot write by themselves
NOISY = {"dr.wda", "dr.ewca", "mapping.brenier"}
CLOCKS = ["time", "perf_counter", "monotonic", "process_time", "time_ns", "perf_counter_ns", "monotonic_ns", "process_time_ns"]


def target(call):
    """(signature owner, setter) of the function whose diagnostic flags are set."""
    f = call.fn
    if f is ops._solve:
        return call.args[1], lambda k, v: call.kwargs.__setitem__(k, v), lambda k: call.kwargs.pop(k, None)
    if f is ops._dr_out:
        return call.args[0], lambda k, v: call.kwargs.__setitem__(k, v), lambda k: call.kwargs.pop(k, None)
    if f is ops.run_da:
        cls = getattr(call.args[0].da, call.args[1])
        call.args[2] = dict(call.args[2])
        return cls.__init__, lambda k, v: call.args[2].__setitem__(k, v), lambda k: call.args[2].pop(k, None)
    return f, lambda k, v: call.kwargs.__setitem__(k, v), lambda k: call.kwargs.pop(k, None)


def apply(call, flags):
    """Set the diagnostic options; returns the flags that took effect."""
    f, put, drop = target(call)
    try:
        P = inspect.signature(f).parameters
    except (TypeError, ValueError):
        P = {}
    pos = list(P)
    done = {}
    for k, v in flags.items():
        if k not in P or (f is call.fn and k in pos[:len(call.args)]):
            continue
        if k == "log" and f is not call.fn and call.fn is not ops.run_da:
            continue                    # the wrapper reads a fixed number of results
        if v is None:
            drop(k)
            done[k] = P[k].default
        else:
            put(k, v)
            done[k] = v
    return done


def strip(v, logs):
    """the result without its logs"""
    if isinstance(v, (tuple, list)):
        if len(v) and isinstance(v[-1], dict):
            logs.append({k: x for k, x in v[-1].items() if "time" not in str(k).lower()})
            return strip(v[0], []) if len(v) == 2 else tuple(v[:-1])
        if v and all(isinstance(x, (tuple, list)) and len(x) == 2 and isinstance(x[1], dict) for x in v):
            return [strip(x, logs) for x in v]
    return v


class Stream(io.TextIOBase):
    """An output stream that misbehaves without raising."""

    def __init__(self, kind, clock):
        self.kind, self.clock, self.n = kind, clock, 0

    def writable(self):
        return True

    def write(self, s):
        self.n += len(s)
        if self.kind == "slow":
            self.clock.advance(3600.0)
        return 0 if self.kind in ("full", "dropping") else len(s)

    def flush(self):
        pass


class Clock:
    def __init__(self, kind, seed):
        self.kind, self.t, self.r = kind, 1.0e9, np.random.Generator(np.random.PCG64(seed))
        self.reads = 0

    def advance(self, s):
        self.t += s

    def read(self):
        self.reads += 1
        if self.kind == "backwards":
            self.t -= float(self.r.uniform(0, 1000))
        elif self.kind == "jumping":
            self.t += float(self.r.uniform(-1e6, 1e6))
        elif self.kind == "zero":
            self.t = 0.0
        return self.t

    @contextlib.contextmanager
    def installed(self):
        old = {k: getattr(time, k) for k in CLOCKS}
        for k in CLOCKS:
            setattr(time, k, (lambda: int(self.read() * 1e9)) if k.endswith("_ns") else self.read)
        try:
            yield
        finally:
            for k, v in old.items():
                setattr(time, k, v)


@contextlib.contextmanager
def fds(box):
    """what reaches file descriptors 1 and 2 (compiled code included)"""
    sys.stdout.flush(), sys.stderr.flush()
    with tempfile.TemporaryFile() as f:
        keep = os.dup(1), os.dup(2)
        os.dup2(f.fileno(), 1), os.dup2(f.fileno(), 2)
        try:
            yield
        finally:
            sys.stdout.flush(), sys.stderr.flush()
            os.dup2(keep[0], 1), os.dup2(keep[1], 2)
            os.close(keep[0]), os.close(keep[1])
            f.seek(0)
            box.append(f.read().decode("utf8", "replace"))


FILTERS = ["always", "ignore", "once", "default"]
STREAMS = ["buffer", "dropping", "full", "slow", "none"]
KINDS = ["still", "backwards", "jumping", "zero"]


class C16(World):
    id = "C16"
    torch = True
    rule = ("a case is one public call executed with two or three seeded combinations of its diagnostic options (verbose, log, warn), warning filters, print options, output streams that drop, refuse or delay "
            "what is written, and clocks that stand still, jump or run backwards; results and logs must be the same, and without verbose nothing may reach standard output or standard error. "
            "Non-trivial: at least one diagnostic option took effect and the call succeeds")
    step_unit = "calls"
    state_measure = "distinct (operation, library, diagnostic options, stream, clock, filter) tuples"
    stubs = ["clocks of the time module", "standard output"]
    simtime = "clock reads are simulated; see extra.simulated_seconds"
    quick = (2200, 35)
    thorough = (200000, 840)

    def setup(self, tier):
        super().setup(tier)
        self.pool = [n for n in names() if n not in NOISY]

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        if i % 16 == 5:
            return {"op": "modes:" + str(r.choice(["solve", "solve_sample", "solve_batch", "solve_sample_batch"])), "value": int(r.integers(1 << 31)), "n": int(r.integers(2, 6)), "m": int(r.integers(2, 6)),
                    "reg": float(r.choice([.1, .3, 1.])), "reg_type": str(r.choice(["entropy", "KL"])), "budget": int(r.choice([1, 2, 3, 7, 30, 3000])), "order": [int(x) for x in r.permutation(4)],
                    "weights": bool(r.random() < .7), "lib": "torch", "variants": [], "long": False}
        c = draw(r, self.pool, i, tier, layouts=["C"], ptorch=.2, pgrad=.05)
        c["long"] = bool(r.random() < .3)
        V = []
        for _ in range(int(r.integers(2, 4))):
            t = lambda p: True if r.random() < p else (None if r.random() < .5 else False)
            V.append({"flags": {"verbose": t(.7), "log": t(.5), "warn": t(.4)}, "stream": STREAMS[int(r.integers(len(STREAMS)))], "clock": KINDS[int(r.integers(len(KINDS)))],
                      "filter": FILTERS[int(r.integers(len(FILTERS)))], "print": bool(r.random() < .3), "cseed": int(r.integers(1 << 30))})
        c["variants"] = V
        return c

    def build(self, c):
        k = prepare(self.ot, {x: c[x] for x in ("op", "shape", "value", "lib", "layout")})
        b = k.meta.get("budget")
        if c["long"] and b and isinstance(k.kwargs.get(b), int):
            k.kwargs[b] = min(k.kwargs[b] * (2 if "barycenters" in c["op"] else 6), 700)
        return k

    def execute(self, c, v, res):
        k = self.build(c)
        done = apply(k, v["flags"])
        clock = Clock(v["clock"], v["cseed"])
        quiet = not done.get("verbose", False)
        out = io.StringIO() if v["stream"] == "buffer" else None if v["stream"] == "none" else Stream(v["stream"], clock)
        err = io.StringIO()
        box = []
        old = np.get_printoptions()
        calls.set_rng(77)
        with warnings.catch_warnings():
            warnings.simplefilter(v["filter"])
            shown = []
            warnings.showwarning = lambda m, *a, **kk: shown.append(str(m))
            if v["print"]:
                np.set_printoptions(precision=2, threshold=3, suppress=True)
            so, se = sys.stdout, sys.stderr
            try:
                with fds(box), clock.installed():
                    sys.stdout, sys.stderr = (io.StringIO() if quiet else out), err
                    if quiet:
                        out = sys.stdout
                    try:
                        val, exc = k.run(), None
                    except Exception as e:
                        val, exc = None, e
                    finally:
                        sys.stdout, sys.stderr = so, se
            finally:
                np.set_printoptions(**old)
        res.count("simulated_seconds", int(min(abs(clock.t - 1e9), 1e15)))
        res["steps"] += 1
        lg = []
        if exc is None and k.fn is not ops.run_da and k.fn is not ops._solve:
            val = strip(val, lg)
        lg = canon.canon(lg) if lg else None
        said = ""
        if quiet:
            said = out.getvalue() + err.getvalue() + box[0]
        else:
            said = err.getvalue()
            if v["stream"] in ("buffer",):
                res.count("progress lines written", out.getvalue().count("\n"))
        return canon.Outcome("ok", canon.canon(val)) if exc is None else canon.Outcome("exc", exc=(type(exc).__name__, str(exc)[:200])), lg, done, said, shown

    def modes(self, c, res):
        """gradient modes only decide what is differentiated"""
        import torch
        r = np.random.Generator(np.random.PCG64(c["value"]))
        batch = "batch" in c["op"]
        T = lambda x: torch.from_numpy(np.array(x))
        lead = (2,) if batch else ()
        n, m = c["n"], c["m"]
        W = lambda k: T(r.dirichlet(np.full(k, 3.0), lead) if lead else r.dirichlet(np.full(k, 3.0)))
        data = (T(r.uniform(0, 1, (*lead, n, m))),) if "sample" not in c["op"] else (T(r.uniform(0, 1, (*lead, n, 2))), T(r.uniform(0, 1, (*lead, m, 2))))
        ws = (W(n), W(m)) if c["weights"] else ()
        f = getattr(self.ot, c["op"].split(":")[1])
        k = 3000 if batch else c["budget"]

        def go(mode, track):
            d = [x.clone().requires_grad_(track) for x in data]
            w = [x.clone().requires_grad_(track) for x in ws]
            a = dict(zip(("a", "b"), w))
            kw = dict(max_iter=k, tol=1e-12, grad=mode, reg_type=c["reg_type"], **a)
            s = f(*d, **kw, reg=c["reg"]) if "reg" in inspect.signature(f).parameters else f(*d, c["reg"], **kw)
            u, v = s.potentials
            out = {x: y.detach().numpy() for x, y in (("plan", s.plan), ("value", s.value), ("value_linear", s.value_linear), ("u", u), ("v", v))}
            res["steps"] += 1
            g = None
            if track and mode != "detach":
                s.value.sum().backward()
                g = [x.grad for x in d] + ([None if x.grad is None else x.grad - x.grad.mean(-1, keepdim=True) for x in w] if not batch else [])
            elif track and s.value.requires_grad and not batch:
                res.bad(f"C16:detach:{c['op']}", "grad='detach' gives a value that tracks gradients")
            return out, g

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ref, _ = go("autodiff", False)
            grads = {}
            for j in c["order"]:
                mode = ("autodiff", "envelope", "last_step", "detach")[j]
                got, g = go(mode, True)
                grads[mode] = g
                for x in ref:
                    e = np.abs(got[x] - ref[x]).max() / (1 + np.abs(ref[x]).max())
                    if not e < 1e-7:
                        res.bad(f"C16:mode:{c['op']}", f"{x} with grad={mode!r} and {k} iterations differs by {e:.2g} from the result without gradients")
                        break
                res.fault(f"grad={mode}")
        conv = np.abs(ref["plan"].sum(-2) - (ws[1].numpy() if ws else 1 / m)).max() < 1e-9 and np.abs(ref["plan"].sum(-1) - (ws[0].numpy() if ws else 1 / n)).max() < 1e-9
        if conv:
            for x, y in zip(grads["autodiff"], grads["envelope"]):
                if x is not None and y is not None and float((x - y).abs().max()) > 1e-4 * (1 + float(x.abs().max())):
                    res.bad(f"C16:gradient:{c['op']}", f"at convergence the envelope gradient differs by {float((x - y).abs().max()):.2g} from the one through all the iterations")
        res["nontrivial"] = True
        res.state(f"{c['op']}|{n}|{m}|{c['reg']}|{c['reg_type']}|{c['budget']}|{c['order']}|{conv}")
        return res

    def run(self, c):
        res = Result()
        if c["op"].startswith("modes:"):
            return self.modes(c, res)
        base = {"flags": {"verbose": None, "log": c.get("baselog"), "warn": None}, "stream": "buffer", "clock": "still", "filter": "ignore", "print": False, "cseed": 1}
        ref, _, done0, said, _ = self.execute(c, {**base, "flags": {"verbose": False, "log": False, "warn": False}}, res)
        logs = []
        seen = [({"verbose": False, "log": False, "warn": False}, said)]
        for v in c["variants"]:
            got, lg, done, said, shown = self.execute(c, v, res)
            if not done.get("verbose"):
                seen.append((done, said))
            elif said.strip():
                res.bad(f"C16:stderr:{c['op']}", f"progress output is requested and something is written to standard error: {said.strip()[:120]!r}")
            tag = " ".join(f"{a}={b}" for a, b in done.items())
            if got.kind != ref.kind or got.kind == "exc":
                if got.kind != ref.kind or got.exc[0] != ref.exc[0]:
                    res.bad(f"C16:outcome:{c['op']}", f"with {tag}, {v['stream']} output, {v['clock']} clock: {got.describe()}; without diagnostics: {ref.describe()}")
                continue
            d = canon.diff(got.value, ref.value, 1e-9, 1e-12)
            if d:
                res.bad(f"C16:result:{c['op']}", f"with {tag}, {v['stream']} output, {v['clock']} clock, warnings filter {v['filter']}: {d}")
            if lg is not None:
                same = [x for x in logs if x[0] == bool(done.get("log"))]
                for _, t0, l0 in same[:1]:
                    d = canon.diff(lg, l0, 1e-9, 1e-12)
                    if d:
                        res.bad(f"C16:log:{c['op']}", f"the log with {tag} differs from the one with {t0}: {d}")
                logs.append((bool(done.get("log")), tag, lg))
            if done:
                res["nontrivial"] = True
            res.fault(f"stream {v['stream']}")
            res.fault(f"clock {v['clock']}")
            res.state(f"{c['op']}|{c['lib']}|{tag}|{v['stream']}|{v['clock']}|{v['filter']}")
        for done, said in seen:
            if said.strip():
                res.bad(f"C16:noise:{c['op']}", f"nothing was asked for ({done}) and this is written: {said.strip()[:160]!r}")
                break
        return res

    def shrink(self, c):
        if c["op"].startswith("modes:"):
            for x in ("n", "m"):
                if c[x] > 2:
                    yield {**c, x: c[x] - 1}
            if c["weights"]:
                yield {**c, "weights": False}
            return
        for i in range(len(c["variants"])):
            if len(c["variants"]) > 1:
                yield {**c, "variants": c["variants"][:i] + c["variants"][i + 1:]}
        for i, v in enumerate(c["variants"]):
            for k, x in (("stream", "buffer"), ("clock", "still"), ("filter", "ignore"), ("print", False)):
                if v[k] != x:
                    yield {**c, "variants": c["variants"][:i] + [{**v, k: x}] + c["variants"][i + 1:]}
            for f, x in v["flags"].items():
                if x:
                    yield {**c, "variants": c["variants"][:i] + [{**v, "flags": {**v["flags"], f: False}}] + c["variants"][i + 1:]}
        if c["lib"] != "numpy":
            yield {**c, "lib": "numpy"}
        if c["long"]:
            yield {**c, "long": False}


WORLD = C16()
