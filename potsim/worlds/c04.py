"""Concurrent callers: every call returns what it returns alone."""
import contextlib
import io
import warnings

import numpy as np

from .. import calls, canon, ops, sched
from ..runner import Result, in_fork
from ..world import World
from ._pool import HEAVY, lighten, names, prepare

OWN_INPUTS = ("gmm.barycenter",)    # known finding K1: it writes to its arguments
UNSEEDED = ("stochastic.semi_dual", "stochastic.dual", "mapping.brenier")


def quiet(thunk):
    """Value or exception; process-wide settings are not touched here, because
    other simulated threads run at the same time."""
    try:
        return canon.Outcome("ok", canon.canon(thunk()))
    except Exception as e:
        o = canon.Outcome("exc", exc=(type(e).__name__, str(e)[:300]))
        e.__traceback__ = None
        return o


class C04(World):
    id = "C04"
    torch = True
    rule = ("a case is 2-4 caller threads with 1-3 calls each (same operation on the same or other values, on shared argument objects, or different operations; numpy or torch) "
            "and a schedule: round robin every k events or preemptions at chosen events, an event being a source line or a bytecode instruction of the library; every result is compared with "
            "the same call executed alone in a fresh process; non-trivial: at least one preemption happened inside a call and at least one call succeeded alone")
    step_unit = "preemption points passed (python line or instruction events inside ot)"
    state_measure = "distinct (operations, locations of the preemptions) tuples"
    quick = (800, 60)
    thorough = (60000, 800)

    def setup(self, tier):
        super().setup(tier)
        self.pool = [n for n in names(without=("globalrng",)) if n not in UNSEEDED]
        sched.ot_codes()

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        name = lighten(self.pool, self.pool[i % len(self.pool)], r, tier)
        nt = int(r.integers(2, 5)) if r.random() < 0.3 else 2
        lib = "torch" if "torchonly" in ops.OPS[name].tags or r.random() < 0.25 else "numpy"
        base = {"op": name, "shape": int(r.integers(1 << 30)), "value": int(r.integers(1 << 30)), "lib": lib}
        mode = ["shared", "values", "options", "other", "seeded"][int(r.integers(5))]
        threads = []
        for t in range(nt):
            seq = []
            for _ in range(1 if r.random() < 0.7 else int(r.integers(2, 4))):
                c = dict(base)
                if t or seq:
                    if mode == "values":
                        c["value"] = int(r.integers(1 << 30))
                    elif mode == "options":
                        c.update(shape=int(r.integers(1 << 30)), value=int(r.integers(1 << 30)))
                    elif mode in ("other", "seeded"):
                        pool = self.pool if mode == "other" else [n for n in self.pool if ops.OPS[n].seedkw]
                        o = pool[int(r.integers(len(pool)))]
                        if o in HEAVY:
                            o = "sinkhorn"
                        c.update(op=o, shape=int(r.integers(1 << 30)), value=int(r.integers(1 << 30)),
                                 lib="torch" if "torchonly" in ops.OPS[o].tags else lib)
                seq.append(c)
            threads.append(seq)
        plan = {}
        u = r.random()
        if u < 0.45:
            plan["rr"] = int([1, 1, 2, 3, 5, 8, 13, 29][int(r.integers(8))])
        else:
            plan["frac"] = sorted([float(x), int(y)] for x, y in zip(r.random(int(r.integers(1, 7))), r.integers(0, nt, 6)))
        return {"op": name, "mode": mode, "threads": threads, "plan": plan, "instr": bool(r.random() < 0.2)}

    def run(self, case):
        ot = self.ot
        res = Result()
        threads = case["threads"]
        uniq = {}
        for seq in threads:
            for c in seq:
                uniq.setdefault(repr(sorted(c.items())), c)

        def alone(c):
            def f():
                k = prepare(ot, c)
                if k.meta.get("unseeded"):
                    return None
                calls.set_rng(77)
                with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                    warnings.simplefilter("ignore")
                    with sched.Monitor(None, instructions=case["instr"]) as m:
                        o = quiet(k.run)
                return o, m.steps
            return in_fork(f, 60)
        refs, nsteps = {}, {}
        for key, c in uniq.items():
            st, v = alone(c)
            if st != "ok":
                res["error"] = f"{st} {v}"
                return res
            if v is None:
                res.count("skipped_no_seed_argument")
                return res
            refs[key], nsteps[key] = v
        # the same arguments object is used by all threads that have the same case
        live = {k: prepare(ot, c) for k, c in uniq.items()}
        steps_est = sum(nsteps[repr(sorted(c.items()))] for s in threads for c in s)
        plan = {"rr": case["plan"]["rr"]} if "rr" in case["plan"] else {"at": [[1 + int(f * max(1, steps_est - 2)), t] for f, t in case["plan"]["frac"]]}

        def body(seq):
            ks = [prepare(ot, c) if c["op"] in OWN_INPUTS else live[repr(sorted(c.items()))] for c in seq]

            def f():
                return [quiet(k.run) for k in ks]
            return f
        calls.set_rng(77)
        sched.sim_locks(ot)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            S = sched.Sched([body(s) for s in threads], plan, instructions=case["instr"])
            got = S.run()
        res["steps"] = S.step
        res.fault("preemption", S.switches)
        res["trace"] = S.trace[:200]
        okay = 0
        for t, seq in enumerate(threads):
            if got[t] is None:
                res.bad(f"C04:thread-lost:{case['op']}", f"thread {t} never finished")
                continue
            for c, o in zip(seq, got[t]):
                ref = refs[repr(sorted(c.items()))]
                okay += ref.kind == "ok"
                d = canon.outcome_diff(ref, o)
                if d:
                    res.bad(f"C04:concurrent:{c['op']}", f"thread {t}, {c['lib']}: the result differs from the call executed alone: {d}")
        res.state(",".join(c["op"] for s in threads for c in s) + "|" + str(hash_trace(S.trace)))
        res["nontrivial"] = S.switches > 0 and okay > 0
        return res

    def shrink(self, case):
        th = case["threads"]
        if len(th) > 2:
            for j in range(len(th)):
                yield dict(case, threads=th[:j] + th[j + 1:])
        for j, s in enumerate(th):
            if len(s) > 1:
                for q in range(len(s)):
                    yield dict(case, threads=th[:j] + [s[:q] + s[q + 1:]] + th[j + 1:])
        if "frac" in case["plan"]:
            fr = case["plan"]["frac"]
            for j in range(len(fr)):
                yield dict(case, plan={"frac": fr[:j] + fr[j + 1:]})
        if case["instr"]:
            yield dict(case, instr=False)


def hash_trace(tr):
    import hashlib
    return hashlib.sha256("\n".join(x.split(": ", 1)[1] for x in tr).encode()).hexdigest()[:16]


WORLD = C04()
