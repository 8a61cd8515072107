"""Points of execution and the cooperative thread scheduler.

`Monitor` delivers an event before every source line executed in ot (PEP 669
line events on exactly ot's code objects).  An event is a possible crash point,
an observation point and a possible preemption point.  `Sched` runs caller
threads as real threads of which exactly one holds the baton; every hand-over
happens at an event and is decided by the schedule in the case."""
import _thread
import ast
import gc
import sys
import threading
import time
import types

from .env import REPO

MON = sys.monitoring
TOOL = 3
PREFIX = str(REPO / "ot") + "/"
_codes = None


def _walk(code, out, seen):
    if code in seen:
        return
    seen.add(code)
    out.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, out, seen)


def ot_codes():
    """Every code object of ot that exists in this process."""
    global _codes
    if _codes is None:
        out, seen = [], set()
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(PREFIX):
                _walk(o.__code__, out, seen)
        _codes = out
    return _codes


class Monitor:
    """with Monitor(callback): callback(code, line) at every line of ot."""
    active = None

    def __init__(self, callback, instructions=False):
        self.cb = callback
        self.steps = 0
        self.events = MON.events.INSTRUCTION if instructions else MON.events.LINE

    def _on(self, code, line):
        self.steps += 1
        cb = self.cb
        if cb is not None:
            cb(code, line)

    def __enter__(self):
        if MON.get_tool(TOOL) is None:
            MON.use_tool_id(TOOL, "potsim")
        MON.register_callback(TOOL, self.events, self._on)
        for c in ot_codes():
            MON.set_local_events(TOOL, c, self.events)
        return self

    def __exit__(self, *a):
        self.cb = None
        for c in ot_codes():
            MON.set_local_events(TOOL, c, 0)
        MON.register_callback(TOOL, self.events, None)
        return False


def where(code, line):
    return code.co_filename[len(PREFIX):] + ":" + code.co_qualname


_with = {}


def with_lines(path):
    """Lines of `with` headers.  Python announces such a line again just before it
    calls __exit__; a real interrupt is never delivered there (signals are looked
    at on calls and jumps only), so a simulated one is moved to the next event."""
    s = _with.get(path)
    if s is None:
        s = set()
        for n in ast.walk(ast.parse(open(path).read())):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                s.update(range(n.lineno, n.body[0].lineno))
        _with[path] = s
    return s


class CrashAt:
    """Raise `exc` at the n-th event (1-based); stays quiet afterwards."""

    def __init__(self, n, exc):
        self.n, self.exc, self.k, self.fired = n, exc, 0, None

    def __call__(self, code, line):
        self.k += 1
        if self.k >= self.n and self.fired is None and line not in with_lines(code.co_filename):
            self.fired = (where(code, line), line)
            raise self.exc("simulated interruption")


# ------------------------------------------------------------------ scheduler
class SimLock:
    """Stands in for a lock found in an ot module: waiting yields the baton."""

    def __init__(self, reentrant):
        self.re, self.owner, self.depth = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking:
                return False
            s = Sched.current
            if s is None or me not in s.byident:
                time.sleep(0.0005)
                continue
            s.yield_blocked()
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def sim_locks(ot):
    """Replace lock objects held by ot modules and classes."""
    L, R = type(_thread.allocate_lock()), type(threading.RLock())
    n = 0
    for name, m in list(sys.modules.items()):
        if m is None or not (name == "ot" or name.startswith("ot.")):
            continue
        for k, v in list(vars(m).items()):
            if isinstance(v, (L, R)):
                setattr(m, k, _shared(v, isinstance(v, R)))
                n += 1
            elif isinstance(v, type) and v.__module__ == name:
                for kk, vv in list(vars(v).items()):
                    if isinstance(vv, (L, R)):
                        setattr(v, kk, _shared(vv, isinstance(vv, R)))
                        n += 1
    return n


_lockmap = {}


def _shared(v, re):
    if id(v) not in _lockmap:
        _lockmap[id(v)] = (SimLock(re), v)
    return _lockmap[id(v)][0]


class Sched:
    current = None

    def __init__(self, thunks, plan, stall_s=5.0, instructions=False):
        self.instructions = instructions
        """plan: {"rr": k} switch every k events, or {"at": [[step, thread], ...]}"""
        self.n = len(thunks)
        self.thunks = thunks
        self.locks = [_thread.allocate_lock() for _ in thunks]
        for l in self.locks:
            l.acquire()
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.byident = {}
        self.holder = None
        self.step = 0
        self.switches = 0
        self.trace = []
        self.plan = plan
        self.rr = plan.get("rr")
        self.at = sorted([int(a), int(b)] for a, b in plan.get("at", []))
        self.pos = 0
        self.finished = threading.Event()
        self.stall_s = stall_s

    # -- called in the running thread
    def event(self, code, line):
        i = self.byident.get(threading.get_ident())
        if i is None:
            return
        if self.holder != i:
            self.locks[i].acquire()  # woken without the baton after a real block
        self.step += 1
        t = None
        if self.rr:
            if self.step % self.rr == 0:
                t = self._next(i)
        else:
            while self.pos < len(self.at) and self.at[self.pos][0] <= self.step:
                t = self.at[self.pos][1] % self.n
                self.pos += 1
        if t is not None and t != i and not self.done[t]:
            self.trace.append(f"step {self.step}: thread {i} preempted before {where(code, line)}:{line}; thread {t} runs")
            self._switch(i, t)

    def _next(self, i):
        for d in range(1, self.n + 1):
            t = (i + d) % self.n
            if not self.done[t]:
                return t
        return None

    def _switch(self, i, t):
        self.switches += 1
        self.holder = t
        self.locks[t].release()
        self.locks[i].acquire()

    def yield_blocked(self):
        i = self.byident[threading.get_ident()]
        t = self._next(i)
        if t is None or t == i:
            time.sleep(0.001)
            return
        self._switch(i, t)

    def _body(self, i):
        self.byident[threading.get_ident()] = i
        self.locks[i].acquire()
        try:
            self.results[i] = self.thunks[i]()
        finally:
            self.done[i] = True
            t = self._next(i)
            if t is None or self.done[t]:
                self.holder = None
                self.finished.set()
            else:
                self.holder = t
                self.locks[t].release()

    def run(self):
        Sched.current = self
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        while len(self.byident) < self.n:
            time.sleep(0.0002)
        with Monitor(self.event, instructions=self.instructions):
            self.holder = 0
            self.locks[0].release()
            last, since = -1, time.monotonic()
            while not self.finished.wait(0.25):
                if self.step != last:
                    last, since = self.step, time.monotonic()
                elif time.monotonic() - since > self.stall_s and self.holder is not None:
                    # the holder waits on something the simulator does not know
                    t = self._next(self.holder)
                    if t is not None and t != self.holder:
                        self.holder = t
                        self.locks[t].release()
                    since = time.monotonic()
        for t in ths:
            t.join(5)
        Sched.current = None
        return self.results
