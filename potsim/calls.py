"""Helpers on calls: copies, snapshots, conversion, snapshots of global state."""
import os
import random
import sys
import warnings

import numpy as np

from .gen import Call


def map_arrays(x, f, depth=0):
    if isinstance(x, np.ndarray):
        return f(x)
    if type(x) is list:
        return [map_arrays(y, f, depth + 1) for y in x]
    if type(x) is tuple:
        return tuple(map_arrays(y, f, depth + 1) for y in x)
    if type(x) is dict:
        return {k: map_arrays(v, f, depth + 1) for k, v in x.items()}
    return x


def convert(call, f):
    c = Call(call.fn, *[map_arrays(a, f) for a in call.args], **{k: map_arrays(v, f) for k, v in call.kwargs.items()})
    c.meta = call.meta
    return c


def to_torch(call, grad=False):
    import torch

    def f(a):
        if a.dtype.kind in "fc":
            t = torch.from_numpy(np.array(a, order="C"))
            if grad and a.dtype.kind == "f":
                t.requires_grad_(True)
            return t
        return torch.from_numpy(np.array(a, order="C")) if a.dtype.kind in "iub" else a
    return convert(call, f)


def arrays_of(call):
    """(path, object) of every array a caller handed in, at any nesting."""
    out = []

    def rec(x, p, d=0):
        if isinstance(x, np.ndarray):
            out.append((p, x))
            b = x.base
            if isinstance(b, np.ndarray):
                out.append((p + ".base", b))
        elif type(x).__module__.startswith("torch") and hasattr(x, "detach"):
            out.append((p, x))
        elif isinstance(x, (list, tuple)) and d < 5:
            for i, y in enumerate(x):
                rec(y, f"{p}[{i}]", d + 1)
        elif isinstance(x, dict) and d < 5:
            for k, y in x.items():
                rec(y, f"{p}[{k!r}]", d + 1)
        elif "scipy.sparse" in (type(x).__module__ or ""):
            for a in ("data", "indices", "indptr", "row", "col"):
                if isinstance(getattr(x, a, None), np.ndarray):
                    out.append((f"{p}.{a}", getattr(x, a)))
    for i, a in enumerate(call.args):
        rec(a, f"arg{i}")
    for k, a in call.kwargs.items():
        rec(a, k)
    return out


def raw(x):
    if isinstance(x, np.ndarray):
        return (x.shape, x.strides, str(x.dtype), x.tobytes())
    y = x.detach()
    return (tuple(y.shape), tuple(y.stride()), str(y.dtype), y.numpy().tobytes(), x.requires_grad, None if x.grad is None else x.grad.numpy().tobytes())


class Snapshot:
    def __init__(self, call):
        self.items = [(p, x, raw(x)) for p, x in arrays_of(call)]
        self.structs = [(p, x, self.shape_of(x)) for p, x in self._containers(call)]

    @staticmethod
    def _containers(call):
        out = []

        def rec(x, p, d=0):
            if isinstance(x, (list, dict)) and d < 5:
                out.append((p, x))
                for i, y in (enumerate(x) if isinstance(x, list) else x.items()):
                    rec(y, f"{p}[{i!r}]", d + 1)
        for i, a in enumerate(call.args):
            rec(a, f"arg{i}")
        for k, a in call.kwargs.items():
            rec(a, k)
        return out

    @staticmethod
    def shape_of(x):
        it = enumerate(x) if isinstance(x, list) else x.items()
        return [(str(k), id(v) if not isinstance(v, (int, float, str)) else repr(v)) for k, v in it]

    def changed(self):
        for p, x, r in self.items:
            if raw(x) != r:
                return p
        for p, x, r in self.structs:
            if self.shape_of(x) != r:
                return p + " (container)"
        return None

    def quick(self):
        """like changed(), cheaper: only bytes of numpy arrays"""
        for p, x, r in self.items:
            if isinstance(x, np.ndarray):
                if x.tobytes() != r[3]:
                    return p
            elif x.detach().numpy().tobytes() != r[3]:
                return p
        return None


def top_arg(p):
    return p.split("[")[0].split(".")[0]


# ----------------------------------------------------------- process-wide state
def rng_state():
    s = np.random.get_state()
    out = {"numpy": (s[0], s[1].tobytes(), s[2], s[3], s[4]), "python": random.getstate()}
    if "torch" in sys.modules:
        import torch
        out["torch"] = torch.get_rng_state().numpy().tobytes()
    return out


def set_rng(seed):
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    be = sys.modules.get("ot.backend")
    if be is not None:
        be.get_backend(np.zeros(1)).seed(seed)
    if "torch" in sys.modules:
        import torch
        torch.manual_seed(seed)
        if be is not None and not os.environ.get("POT_BACKEND_DISABLE_PYTORCH"):
            be.get_backend(torch.zeros(1)).seed(seed)


def global_state():
    import locale, os, signal
    out = {
        "numpy error handling": dict(np.geterr()), "numpy error callback": np.geterrcall(),
        "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "warning filters": [tuple(map(str, f)) for f in warnings.filters], "warnings.showwarning": warnings.showwarning,
        "stdout": id(sys.stdout), "stderr": id(sys.stderr), "recursion limit": sys.getrecursionlimit(),
        "cwd": os.getcwd(), "environment": dict(os.environ), "sys.path": list(sys.path),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)],
        "locale": locale.setlocale(locale.LC_ALL), "gc": __import__("gc").isenabled(), "excepthook": id(sys.excepthook),
        "switch interval": sys.getswitchinterval(), "trace": sys.gettrace(), "profile": sys.getprofile(),
    }
    if "torch" in sys.modules:
        import torch
        out.update({"torch grad mode": torch.is_grad_enabled(), "torch default dtype": str(torch.get_default_dtype()),
                    "torch threads": torch.get_num_threads(), "torch deterministic": torch.are_deterministic_algorithms_enabled(),
                    "torch anomaly": torch.is_anomaly_enabled()})
    return out


def state_diff(a, b):
    return [k for k in a if a[k] != b.get(k)]
