"""The caller's arrays keep their bytes: at every line, at return, after a crash."""
import numpy as np

from .. import calls, canon, ops, sched
from ..runner import Result
from ..world import World
from ._pool import draw, names, prepare

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class C06(World):
    id = "C06"
    torch = True
    rule = ("a case is one public call on generated data in one memory layout (C, Fortran, strided view inside a larger array, read-only, equal arrays being one object) or as torch tensors "
            "with or without gradient tracking; the bytes, shape and strides of every array reachable from the arguments (and of the arrays they are views of) are compared before "
            "every executed line of the library, at return, and after an interruption injected at a random line; non-trivial: the call executed at least one line and at least one array was watched")
    state_measure = "distinct (operation, layout, array library, interruption kind, line of interruption) tuples"
    quick = (2300, 200)
    thorough = (80000, 800)

    def setup(self, tier):
        super().setup(tier)
        self.pool = names()
        sched.ot_codes()

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        c = draw(r, self.pool, i, tier)
        if r.random() < 0.4:
            c["crash"] = {"frac": float(r.random()), "exc": ["KeyboardInterrupt", "MemoryError"][int(r.integers(2))]}
        return c

    def run(self, case):
        ot = self.ot
        res = Result()
        c = prepare(ot, case)
        crash = case.get("crash")
        n = None
        if crash:
            d = prepare(ot, case)
            calls.set_rng(3)
            with sched.Monitor(None) as m:
                canon.observe(d.run)
            n = 1 + int(crash["frac"] * max(0, m.steps - 1))
        snap = calls.Snapshot(c)
        found = []
        k = [0]
        boom = sched.CrashAt(n, EXC[crash["exc"]]) if crash else None

        def look(code, line):
            k[0] += 1
            if not found:
                p = snap.quick()
                if p:
                    found.append((p, sched.where(code, line), line))
            if boom is not None:
                boom(code, line)
        calls.set_rng(3)
        with sched.Monitor(look):
            out = canon.observe(c.run, catch=BaseException)
        res["steps"] = k[0]
        after = snap.changed()
        name = f"{case['op']}"
        tag = f"{case['lib']}, {case['layout']}"
        if after:
            at = f"; first seen before {found[0][1]}:{found[0][2]}" if found else ""
            res.bad(f"C06:modified:{name}:{calls.top_arg(after)}", f"argument {after} is changed after the call ({out.describe()}; {tag}){at}")
        elif found:
            res.bad(f"C06:temporarily-modified:{name}:{calls.top_arg(found[0][0])}",
                    f"argument {found[0][0]} is changed while the call runs, seen before {found[0][1]}:{found[0][2]} ({tag})")
        if case["layout"] == "readonly" and out.kind == "exc" and "read-only" in out.exc[1]:
            res.bad(f"C06:write-to-readonly:{name}", f"the call fails on read-only arrays: {out.describe()}")
        if boom is not None and boom.fired:
            res.fault(crash["exc"])
            res.state(f"{name}|{tag}|{crash['exc']}|{boom.fired[1]}")
        else:
            res.state(f"{name}|{tag}")
        res.count("outcome_" + out.kind)
        res["nontrivial"] = k[0] > 0 and len(snap.items) > 0
        return res

    def shrink(self, case):
        if case.get("crash"):
            c = dict(case)
            c.pop("crash")
            yield c
            yield dict(case, crash=dict(case["crash"], exc="KeyboardInterrupt"))
        if case["layout"] != "C":
            yield dict(case, layout="C")
        if case["lib"] == "torchgrad":
            yield dict(case, lib="torch")


WORLD = C06()
