"""Resuming from a saved state is not stopping at all."""
import io
import pickle
import warnings

import numpy as np

from .. import calls, canon, resumable, sched
from ..runner import Result
from ..world import World


# restarted inside their own tolerance these do something else than continue
NO_RESTART = ("solve quadratic", "gw_barycenters")


class Store:
    """The caller's checkpoint storage: only what was written here outlives a
    crash.  A state is kept as the caller would keep it, pickled or as the very
    object the solver returned."""

    def __init__(self, pickled):
        self.pickled, self.blob, self.n = pickled, None, 0

    def write(self, st, n):
        self.blob = pickle.dumps(st, protocol=5) if self.pickled else st
        self.n = n

    def read(self):
        if self.blob is None:
            return None
        return pickle.loads(self.blob) if self.pickled else self.blob


def to_torch(st):
    import torch
    return calls.map_arrays(st, lambda a: torch.from_numpy(np.array(a, order="C")))


class C09(World):
    id = "C09"
    torch = True
    rule = ("a case is one resumable solver whose iterations are cut into segments; each segment starts only from the checkpoint the previous one left, some attempts are killed at a seeded "
            "source line or repeated from an older checkpoint, and the end is compared with the uninterrupted run; or a convex solver started from an arbitrary or another problem's state; or any "
            "solver restarted at its own solution. Non-trivial: at least two segments completed")
    step_unit = "python line events inside ot"
    state_measure = "distinct (solver, options, segment lengths, crash places, storage) tuples"
    quick = (1750, 60)
    thorough = (200000, 840)
    timeout = 60.0

    def setup(self, tier):
        super().setup(tier)
        self.names = sorted(resumable.RES)
        sched.ot_codes()

    def gen(self, seed, i, tier):
        r = self.rng(seed)
        name = self.names[i % len(self.names)]
        kinds = resumable.KINDS[name]
        kind = kinds[int(r.integers(len(kinds)))]
        if kind == "chain" and r.random() < .08 and name not in NO_RESTART:
            kind = "restart"
        c = {"op": name, "kind": kind, "shape": int(r.integers(1 << 30)), "value": int(r.integers(1 << 30)), "pickled": bool(r.random() < .6)}
        if kind == "chain":
            k = int(r.integers(2, 5))
            c["cut"] = [float(x) for x in r.random(k)]
            c["crash"] = [int(r.integers(1, 4000)) if r.random() < .5 else 0 for _ in range(k)]
            c["exc"] = ["KeyboardInterrupt", "MemoryError", "SystemExit"][int(r.integers(3))]
            c["twice"] = [bool(r.random() < .3) for _ in range(k)]
            c["stale"] = bool(r.random() < .3)
            c["lib"] = "torch" if r.random() < .12 else "numpy"
        elif kind == "foreign":
            c["other"] = int(r.integers(1 << 30))
            c["from"] = ["random", "problem"][int(r.integers(2))]
        return c

    # -----------------------------------------------------------------
    def run(self, c):
        res = Result()
        s = Problem(self.ot, c)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return getattr(self, c["kind"])(c, s, res)

    def chain(self, c, s, res):
        op = c["op"]
        lens = [1 + int(x * s.budget / len(c["cut"])) for x in c["cut"]]
        if c.get("lens"):
            lens = c["lens"]
        if s.g.each:                  # the inner solver shares the budget: segments long enough for it
            lens = [s.g.each] * min(len(lens), 3)
        N = sum(lens)
        calls.set_rng(1)
        with sched.Monitor(None) as m:
            try:
                full = s.go(None, N)
            except Exception as e:
                res.count("raised")
                full = e
        res["steps"] = m.steps
        if isinstance(full, Exception):
            # if the whole run cannot be done, pieces of it may not work either; nothing to compare
            return res
        want = canon.canon(s.out(full))
        store = Store(c["pickled"] or bool(s.mutates))    # K1: one solver overwrites its start
        older = None
        done = 0
        exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit}[c["exc"]]
        places = []
        for j, n in enumerate(lens):
            tries = []
            if j < len(c["crash"]) and c["crash"][j]:
                tries.append(c["crash"][j])
            if c["stale"] and older is not None and j == len(lens) - 1:
                # repeat the previous segment from the older checkpoint first
                try:
                    again = s.go(older.read(), lens[j - 1])
                except Exception as e:
                    res.bad(f"C09:refused:{op}", f"an older checkpoint (after {older.n} of {N} iterations) is refused the second time: {type(e).__name__}: {e}")
                    return res
                res.fault("resume from an older checkpoint")
                d = canon.diff(prev, canon.canon(s.out(again)), 0, 0)
                if d:
                    res.bad(f"C09:stale:{op}", f"resuming again from the checkpoint after {older.n} of {N} iterations does not repeat the segment: {d}")
                    return res
                st = s.state(again)
                store.write(st, done)
            for t in tries:
                crash = sched.CrashAt(t, exc)
                try:
                    with sched.Monitor(crash):
                        s.go(store.read(), n)
                except BaseException as e:
                    if crash.fired is None and not isinstance(e, Exception):
                        raise
                if crash.fired:
                    res.fault("killed during a segment")
                    places.append(crash.fired[0])
            try:
                r = s.go(store.read(), n)
            except Exception as e:
                res.bad(f"C09:refused:{op}", f"the checkpoint after {done} of {N} iterations is refused: {type(e).__name__}: {str(e)[:150]}")
                return res
            if j < len(c["twice"]) and c["twice"][j]:
                r2 = s.go(store.read(), n)
                res.fault("segment run twice")
                d = canon.diff(canon.canon(s.out(r)), canon.canon(s.out(r2)), 0, 0)
                if d:
                    res.bad(f"C09:twice:{op}", f"two runs of {n} iterations from the checkpoint after {done} differ ({'pickled' if c['pickled'] else 'same object'}): {d}")
                    return res
            done += n
            prev = canon.canon(s.out(r))
            st = s.state(r)
            if j < len(lens) - 1:
                if st is None:
                    res.count("no state")
                    return res
                if not finite(st):
                    res.count("state not finite")
                    return res
                older = Store(store.pickled)
                older.blob, older.n = store.blob, store.n
                if older.blob is None:
                    older = None
                store.write(st, done)
                res.fault("resumed from a checkpoint")
        got = canon.canon(s.out(r))
        d = canon.diff(want, got, s.tol, s.tol * (1e-2 if s.tol < 1e-6 else 1))
        if d:
            res.bad(f"C09:resume:{op}", f"{'+'.join(map(str, lens))} iterations through checkpoints and {N} at once differ: {d}")
        res["nontrivial"] = len(lens) > 1
        res.state(f"{op}|{c['shape'] % 97}|{lens}|{places}|{c['pickled']}|{c.get('lib')}")
        return res

    def foreign(self, c, s, res):
        op = c["op"]
        if s.convex is None:
            res.count("not convex")
            return res
        calls.set_rng(1)
        with sched.Monitor(None) as m:
            try:
                A = s.go(None, s.long, s.atol)
            except Exception:
                res.count("raised")
                return res
        if c["from"] == "problem":
            o = Problem(self.ot, dict(c, value=c["other"]))
            try:
                st = o.state(o.go(None, 20, s.atol))
            except Exception:
                res.count("raised")
                return res
        else:
            st = s.seg.foreign(resumable.Gen(self.ot, c["shape"], c["other"]))
        try:
            B = s.go(st, s.long, s.atol)
        except Exception as e:
            res.bad(f"C09:refused:{op}", f"a state of the right shape ({c['from']}) is refused: {type(e).__name__}: {str(e)[:150]}")
            return res
        res["steps"] = m.steps
        res.fault("started from " + ("an arbitrary state" if c["from"] == "random" else "another problem's state"))
        if not s.converged(A, B):
            res.count("not converged")
            return res
        res["nontrivial"] = True
        d = canon.diff(canon.canon(s.out(A)), canon.canon(s.out(B)), s.convex, s.convex)
        if d:
            res.bad(f"C09:foreign:{op}", f"the problem has one solution, but starting from {'an arbitrary state' if c['from'] == 'random' else 'the state of another problem'} ends elsewhere: {d}")
        res.state(f"{op}|{c['shape'] % 97}|{c['from']}")
        return res

    def restart(self, c, s, res):
        """one more iteration from a fixed point does not move it"""
        op = c["op"]
        calls.set_rng(1)
        n = min(s.long, 300)
        with sched.Monitor(None) as m:
            try:
                A = s.go(None, n, s.atol if s.again > 1 else None)
            except Exception:
                res.count("raised")
                return res
        res["steps"] = m.steps
        st = s.state(A)
        if st is None or not finite(st):
            res.count("no state")
            return res
        try:
            B = s.go(st, s.again, s.atol if s.again > 1 else None)
        except Exception as e:
            res.bad(f"C09:refused:{op}", f"the final state is refused: {type(e).__name__}: {str(e)[:150]}")
            return res
        C = s.go(None, n + s.again, s.atol if s.again > 1 else None)
        res["nontrivial"] = True
        res.fault("restarted at the end")
        # as far from the end as one more iteration of the long run goes
        a, b, x = (flat(s.out(v)) for v in (A, B, C))
        step = np.linalg.norm(x - a)
        if np.linalg.norm(b - a) > 3 * step + 1e-6 * (1 + np.linalg.norm(a)):
            res.bad(f"C09:restart:{op}", f"restarted at its own result after {n} iterations it moves by {np.linalg.norm(b - a):.3g}, an iteration of the long run moves it by {step:.3g}")
        res.state(f"{op}|{c['shape'] % 97}|restart")
        return res

    def shrink(self, c):
        if c["kind"] == "chain":
            if len(c["cut"]) > 2:
                for j in range(len(c["cut"])):
                    yield dict(c, cut=c["cut"][:j] + c["cut"][j + 1:], crash=c["crash"][:j] + c["crash"][j + 1:], twice=c["twice"][:j] + c["twice"][j + 1:], lens=None)
            for j, x in enumerate(c["crash"]):
                if x:
                    yield dict(c, crash=c["crash"][:j] + [0] + c["crash"][j + 1:])
            if any(c["twice"]):
                yield dict(c, twice=[False] * len(c["twice"]))
            if c["stale"]:
                yield dict(c, stale=False)
            if not c["pickled"]:
                yield dict(c, pickled=True)
            for j, x in enumerate(c["cut"]):
                if x > 0.01:
                    yield dict(c, cut=c["cut"][:j] + [x / 4] + c["cut"][j + 1:], lens=None)


def finite(st):
    ok = True

    def f(a):
        nonlocal ok
        ok = ok and bool(np.all(np.isfinite(np.asarray(a, float))))
        return a
    calls.map_arrays(st, f)
    return ok


def flat(x):
    if isinstance(x, (tuple, list)):
        return np.concatenate([flat(y) for y in x])
    return np.asarray(x.detach() if hasattr(x, "detach") else x, float).ravel()


class Problem:
    def __init__(self, ot, c):
        self.seg = resumable.build(ot, c["op"], c["shape"], c["value"])
        self.torch = c.get("lib") == "torch"
        g = self.seg
        self.out, self.tol, self.convex, self.budget = g.out, g.tol, g.convex, g.budget
        self.long, self.atol, self.mutates = getattr(g, "long", 60), getattr(g, "atol", None), getattr(g, "mutates", ())
        self.g = g
        self.again = getattr(g, "again", 1)

    def state(self, r):
        if self.torch:
            st = self.g.state(canon_np(r)) if self.g.state else {self.g.pos: canon_np(r)[0]}
        else:
            st = self.g.state(r) if self.g.state else {self.g.pos: r[0]}
        return st

    def go(self, st, n, tols=None):
        pos = getattr(self.g, "pos", None)
        k = self.g.start(None if pos is not None else st, n, tols)
        if pos is not None and st is not None:
            k.args[pos] = st[pos]
        if self.mutates and st is None:
            for x in self.mutates:           # K1: this solver overwrites its start
                k.kwargs[x] = k.kwargs[x].copy()
        if self.torch:
            k = calls.to_torch(k)
        return k.run()

    def converged(self, *rs):
        f = getattr(self.g, "settled", None)
        return f is None or all(f(canon_np(r)) for r in rs)


def canon_np(r):
    """torch tensors in a result as numpy arrays"""
    if type(r).__module__ == "torch":
        return r.detach().numpy()
    if type(r).__name__ == "OTResult":
        return NpResult(r)
    if isinstance(r, tuple):
        return tuple(canon_np(x) for x in r)
    if isinstance(r, list):
        return [canon_np(x) for x in r]
    if isinstance(r, dict):
        return {k: canon_np(v) for k, v in r.items()}
    return r


class NpResult:
    def __init__(self, r):
        self.r = r

    def __getattr__(self, n):
        return canon_np(getattr(self.r, n))


WORLD = C09()
