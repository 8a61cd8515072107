"""A call cut short leaves nothing behind and reports what happened."""
import contextlib
import inspect
import io
import sys
import warnings

import numpy as np

from .. import calls, canon, ops, sched
from ..runner import Result, in_fork
from ..world import World
from ._pool import draw, names, prepare

KEEP_INPUTS_EXEMPT = ("gmm.barycenter",)     # known finding K1


class SimFailure(Exception):
    """raised by a simulated user function"""


class BrokenOut(io.TextIOBase):
    """Standard output that fails at the n-th write."""

    def __init__(self, n, exc):
        self.n, self.k, self.exc = n, 0, exc

    def writable(self):
        return True

    def write(self, s):
        self.k += 1
        if self.k >= self.n:
            raise self.exc
        return len(s)

    def flush(self):
        pass


class Windows:
    """Steps of the undisturbed run before which something process-wide, or an
    argument, is not as at the start: the places where an interruption hurts."""

    def __init__(self, call):
        self.snap = calls.Snapshot(call)
        self.k, self.at, self.n = 0, {}, 0

    def look(self):
        nx = sys.modules["ot.backend"].NumpyBackend
        return (np.geterr(), np.geterrcall(), len(warnings.filters), warnings.filters[:1], id(warnings.showwarning), id(sys.stdout), id(sys.stderr),
                np.random.get_state(legacy=False)["state"]["pos"], self.snap.quick(), len(vars(nx)), torch_mode())

    def start(self):
        self.first = None

    def __call__(self, code, line):
        self.k += 1
        if self.k > 4000 and self.k % 7:
            return
        s = self.look()
        if self.first is None:
            self.first = s
        elif s != self.first:
            kind = tuple(i for i, (x, y) in enumerate(zip(s, self.first)) if x != y)
            w = self.at.setdefault((kind, sched.where(code, line), line), [])
            if len(w) < 3:
                w.append(self.k)

    def chosen(self):
        """rare kinds of change first come with equal weight"""
        kinds = {}
        for (k, _, _), v in self.at.items():
            kinds.setdefault(k, []).extend(v)
        m = max(map(len, kinds.values()), default=0)
        return [x for v in kinds.values() for x in (v * m)[:m]]


def torch_mode():
    t = sys.modules.get("torch")
    return t and (t.is_grad_enabled(), t.is_anomaly_enabled())


class FailingCallable:
    """The user's function, failing at its n-th evaluation."""

    def __init__(self, f, n, exc, box):
        self.f, self.n, self.exc, self.box = f, n, exc, box
        self.__wrapped__ = f

    def __call__(self, *a, **k):
        self.box[0] += 1
        if self.box[0] == self.n:
            raise self.exc
        return self.f(*a, **k)


def user_functions(call):
    """positions of callables among the arguments (not the library's own)"""
    out = []
    for j, a in enumerate(call.args):
        if inspect.isfunction(a) and not (a.__module__ or "").startswith("ot"):
            out.append(("a", j))
    for k, a in call.kwargs.items():
        if inspect.isfunction(a) and not (a.__module__ or "").startswith("ot"):
            out.append(("k", k))
    return out


def accepts_verbose(call):
    f = call.fn
    try:
        return "verbose" in inspect.signature(f).parameters
    except (TypeError, ValueError):
        return False


def with_verbose(call):
    """the call with progress output switched on, or None"""
    if accepts_verbose(call):
        call.kwargs["verbose"] = True
        return call
    if call.fn is ops._solve and "verbose" in inspect.signature(call.args[1]).parameters:
        call.kwargs["verbose"] = True
        return call
    if call.fn is ops.run_da:
        cls = getattr(call.args[0].da, call.args[1])
        if "verbose" in inspect.signature(cls.__init__).parameters:
            call.args[2] = dict(call.args[2], verbose=True)
            return call
    return None


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError, "ZeroDivisionError": ZeroDivisionError,
       "SystemExit": SystemExit, "OSError": OSError}


class C07(World):
    id = "C07"
    torch = True
    rule = ("a case is one public call disturbed 1-3 times in a row: an exception raised before a chosen executed line (KeyboardInterrupt, SystemExit, MemoryError, ordinary errors), a failing "
            "user function at its n-th evaluation, warnings turned into errors, or standard output failing at its n-th write; after each disturbance the exception received, process-wide "
            "settings, random streams and arguments are examined, and finally the call is repeated and compared with an undisturbed call in a fresh process; non-trivial: at least one "
            "disturbance took effect and the undisturbed call succeeds")
    state_measure = "distinct (operation, fault kind, line of interruption) tuples"
    quick = (1050, 60)
    thorough = (80000, 800)

    def setup(self, tier):
        super().setup(tier)
        self.pool = names()
        self.cb = names(need=("callback",))
        sched.ot_codes()

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        pool = self.cb if i % 9 == 8 else self.pool
        c = draw(r, pool, i // 9 if pool is self.cb else i, tier, layouts=["C"])
        faults = []
        for _ in range(int(r.integers(1, 4))):
            u = r.random()
            if pool is self.cb and u < 0.7:
                faults.append({"k": "callback", "frac": float(r.random()), "exc": ["SimFailure", "KeyboardInterrupt"][int(r.integers(2))]})
            elif u < 0.68:
                faults.append({"k": "line", "frac": float(r.random()), "window": bool(r.random() < 0.6), "exc": sorted(EXC)[int(r.integers(len(EXC)))] if r.random() < .5 else ["KeyboardInterrupt", "MemoryError"][int(r.integers(2))]})
            elif u < 0.84:
                faults.append({"k": "warnings"})
            else:
                faults.append({"k": "stdout", "n": 1 + int(r.integers(3)) * int(r.integers(1, 4))})
        c["faults"] = faults
        return c

    def run(self, case):
        ot = self.ot
        res = Result()
        op = case["op"]

        def fresh():
            k = prepare(ot, case)
            uf = user_functions(k)
            box = [0]
            for kind, j in uf:
                if kind == "a":
                    k.args[j] = FailingCallable(k.args[j], -1, None, box)
                else:
                    k.kwargs[j] = FailingCallable(k.kwargs[j], -1, None, box)
            calls.set_rng(1234)
            w = Windows(k)
            with sched.Monitor(w) as m:
                w.start()
                o = canon.observe(k.run)
            return o, m.steps, box[0], w.chosen()
        st, v = in_fork(fresh, 60)
        if st != "ok":
            res["error"] = f"fresh run: {st} {v}"
            return res
        ref, steps, ncb, windows = v
        took = 0
        call = prepare(ot, case)
        for f in case["faults"]:
            snap = calls.Snapshot(call)
            exc = None
            mon = None
            stdout = io.StringIO()
            k = call
            cm = contextlib.ExitStack()
            box = [0]
            if f["k"] == "line":
                n = 1 + int(f["frac"] * max(0, steps - 1))
                if f.get("window") and windows:
                    n = windows[int(f["frac"] * len(windows))]
                    res.count("interruptions_inside_a_window_of_changed_state")
                mon = sched.CrashAt(n, EXC[f["exc"]])
            elif f["k"] == "callback":
                uf = user_functions(call)
                if not uf or not ncb:
                    continue
                exc = {"SimFailure": SimFailure, "KeyboardInterrupt": KeyboardInterrupt}[f["exc"]]("simulated failure")
                k = calls.convert(call, lambda a: a)
                n = 1 + int(f["frac"] * (ncb - 1))
                for kind, j in uf:
                    if kind == "a":
                        k.args[j] = FailingCallable(k.args[j], n, exc, box)
                    else:
                        k.kwargs[j] = FailingCallable(k.kwargs[j], n, exc, box)
            elif f["k"] == "stdout":
                exc = OSError(28, "simulated: no space left on device")
                k = with_verbose(calls.convert(call, lambda a: a))
                if k is None:
                    continue
                stdout = BrokenOut(f["n"], exc)
            calls.set_rng(1234)
            with warnings.catch_warnings(), contextlib.redirect_stdout(stdout):
                warnings.simplefilter("error" if f["k"] == "warnings" else "ignore")
                warnings.filterwarnings("ignore", category=DeprecationWarning, module="torch")
                before = calls.global_state()
                rng0 = calls.rng_state()
                got, err = None, None
                try:
                    if mon:
                        with sched.Monitor(mon):
                            try:
                                got = k.run()
                            except BaseException as e:
                                err = e
                    else:
                        got = k.run()
                except BaseException as e:
                    err = e
                after = calls.global_state()
                rng1 = calls.rng_state()
            fired = mon.fired if mon else (box[0] > 0 and f["k"] == "callback" and err is not None) or (f["k"] == "stdout" and stdout.k >= f["n"]) or (f["k"] == "warnings" and isinstance(err, Warning))
            res["steps"] += 1
            if not fired:
                continue
            took += 1
            at = f" at {mon.fired[0]}:{mon.fired[1]}" if mon else ""
            kind = {"line": f.get("exc"), "callback": "failing user function", "stdout": "failing standard output", "warnings": "warning as error"}[f["k"]]
            res.fault(kind)
            res.state(f"{op}|{kind}|{mon.fired if mon else f.get('n', '')}")
            # 1. the failure is reported
            want = EXC[f["exc"]] if mon else type(exc) if exc is not None else None
            if want is not None:
                reported = err is not None and (err is exc if exc is not None else (type(err) is want and str(err) == "simulated interruption"))
                if not reported:
                    if err is None and not issubclass(want, (KeyboardInterrupt, SystemExit)):
                        d = canon.diff(ref.value, canon.canon(got)) if ref.kind == "ok" else "a value although the undisturbed call fails"
                        if d:
                            res.bad(f"C07:failure-swallowed:{op}", f"{kind}{at} is swallowed and the call returns a different result: {d}")
                    elif err is None:
                        res.bad(f"C07:interrupt-swallowed:{op}", f"{kind}{at} does not reach the caller: the call returns")
                    elif issubclass(want, (KeyboardInterrupt, SystemExit)) or not handled(err, ref):
                        res.bad(f"C07:exception-replaced:{op}", f"{kind}{at} reaches the caller as {type(err).__name__}: {str(err)[:100]}")
            # 2. nothing is left behind
            for what in calls.state_diff(before, after):
                res.bad(f"C07:setting-left:{op}:{what}", f"after {kind}{at}, {what} is not as before the call: {short(before[what])} -> {short(after[what])}")
            if "globalrng" not in ops.OPS[op].tags and not k.meta.get("unseeded") and not op.startswith(("stochastic.semi", "stochastic.dual", "mapping.brenier")):
                for what in rng0:
                    if rng0[what] != rng1[what]:
                        res.bad(f"C07:random-stream-left:{op}:{what}", f"after {kind}{at}, the global {what} random stream is not as before the call")
            ch = snap.changed()
            if ch and op not in KEEP_INPUTS_EXEMPT:
                res.bad(f"C07:argument-left:{op}:{calls.top_arg(ch)}", f"after {kind}{at}, argument {ch} is changed")
            if err is not None:
                err.__traceback__ = None
        if took:
            if op in KEEP_INPUTS_EXEMPT:
                call = prepare(ot, case)
            for w, k in (("", call), (" with new arguments", prepare(ot, case))):
                calls.set_rng(1234)
                o = canon.observe(k.run)
                d = canon.outcome_diff(ref, o, warns=True)
                if d:
                    res.bad(f"C07:repeat-differs:{op}", f"after {[x['k'] for x in case['faults']]} the repeated call{w} differs from an undisturbed one: {d}")
                    break
        res["nontrivial"] = took > 0 and ref.kind == "ok"
        res.count("faults_taking_effect", took)
        return res

    def shrink(self, case):
        f = case["faults"]
        if len(f) > 1:
            for j in range(len(f)):
                yield dict(case, faults=f[:j] + f[j + 1:])
        for j, x in enumerate(f):
            if x["k"] == "line" and x["exc"] != "KeyboardInterrupt":
                yield dict(case, faults=f[:j] + [dict(x, exc="KeyboardInterrupt")] + f[j + 1:])


def handled(err, ref):
    """the same error as the undisturbed call"""
    return ref.kind == "exc" and ref.exc[0] == type(err).__name__


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "..."


WORLD = C07()
