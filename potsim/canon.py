"""Canonical, picklable form of results and tolerant structural comparison."""
import numpy as np


def canon(x, depth=0):
    if depth > 12:
        return ("deep",)
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return ("c", type(x).__name__, x)
    if isinstance(x, (float, complex)):
        return ("a", "py", np.asarray(x))
    if isinstance(x, np.generic):
        return ("a", "np", np.asarray(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("l", [canon(y, depth + 1) for y in x.ravel()])
        return ("a", "np", x.copy())
    tn = type(x).__name__
    mod = type(x).__module__ or ""
    if mod.startswith("torch") and hasattr(x, "detach"):
        x = x.detach()
        if str(x.layout) != "torch.strided":
            return ("a", "torch-sparse", x.to_dense().cpu().numpy().copy())
        return ("a", "torch", x.cpu().numpy().copy())
    if mod.startswith("jax") and hasattr(x, "__array__"):
        return ("a", "jax", np.array(x))
    if "scipy.sparse" in mod and hasattr(x, "toarray"):
        return ("a", "sparse", np.asarray(x.toarray()))
    if isinstance(x, dict):
        return ("d", tn, [(str(k), canon(x[k], depth + 1)) for k in sorted(x, key=str)])
    if isinstance(x, (list, tuple)):
        return ("l", [canon(y, depth + 1) for y in x])
    if isinstance(x, (set, frozenset)):
        return ("l", [canon(y, depth + 1) for y in sorted(x, key=repr)])
    if tn == "LazyTensor":
        return ("lazy", canon(x[:], depth + 1))
    if tn == "OTResult":
        from .ops import read_result
        return ("otr", canon(read_result(x), depth + 1))
    if mod.startswith("cvxopt"):
        return ("a", "cvxopt", np.array(x))
    if callable(x):
        return ("fn",)
    return ("o", mod + "." + tn)


RTOL, ATOL = 1e-7, 1e-9


def diff(x, y, rtol=RTOL, atol=ATOL, path="$"):
    """None when equal, otherwise a short description of the first difference."""
    if x[0] != y[0]:
        return f"{path}: {brief(x)} vs {brief(y)}"
    t = x[0]
    if t == "c":
        return None if x == y else f"{path}: {x[2]!r} vs {y[2]!r}"
    if t == "a":
        a, b = x[2], y[2]
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} vs {b.shape}"
        if a.dtype != b.dtype:
            return f"{path}: dtype {a.dtype} vs {b.dtype}"
        if x[1] != y[1] and {x[1], y[1]} != {"np", "py"}:
            return f"{path}: container {x[1]} vs {y[1]}"
        if a.dtype.kind not in "fc":
            return None if np.array_equal(a, b) else f"{path}: values differ"
        if a.dtype in (np.float32, np.complex64):
            rtol, atol = max(rtol, 2e-4), max(atol, 1e-5)
        if np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
            return None
        with np.errstate(all="ignore"):
            d = np.abs(a - b)
        dm = float(np.nanmax(d)) if np.any(np.isfinite(d)) else float("nan")
        return f"{path}: values differ, max abs difference {dm:.3g}"
    if t == "d":
        kx, ky = [k for k, _ in x[2]], [k for k, _ in y[2]]
        if kx != ky:
            return f"{path}: keys {kx} vs {ky}"
        for (k, u), (_, v) in zip(x[2], y[2]):
            d = diff(u, v, rtol, atol, f"{path}.{k}")
            if d:
                return d
        return None
    if t == "l":
        if len(x[1]) != len(y[1]):
            return f"{path}: length {len(x[1])} vs {len(y[1])}"
        for i, (u, v) in enumerate(zip(x[1], y[1])):
            d = diff(u, v, rtol, atol, f"{path}[{i}]")
            if d:
                return d
        return None
    if t in ("lazy", "otr"):
        return diff(x[1], y[1], rtol, atol, path)
    return None if x == y else f"{path}: {x} vs {y}"


def brief(c):
    if c[0] == "a":
        return f"array{c[2].shape}"
    if c[0] == "c":
        return repr(c[2])[:60]
    return str(c[0])


def bit_equal(x, y):
    return diff(x, y, 0.0, 0.0) is None


# ------------------------------------------------------------------ outcomes
class Outcome:
    """What a caller observes: value or exception, warnings, standard output."""
    __slots__ = ("kind", "value", "exc", "warns", "out")

    def __init__(self, kind, value=None, exc=None, warns=(), out=""):
        self.kind, self.value, self.exc, self.warns, self.out = kind, value, exc, list(warns), out

    def __getstate__(self):
        return (self.kind, self.value, self.exc, self.warns, self.out)

    def __setstate__(self, s):
        self.kind, self.value, self.exc, self.warns, self.out = s

    def describe(self):
        return self.kind if self.kind == "ok" else f"raised {self.exc[0]}: {self.exc[1][:80]}"


def outcome_diff(a, b, rtol=RTOL, atol=ATOL, warns=False):
    if a.kind != b.kind:
        return f"{a.describe()} vs {b.describe()}"
    if a.kind == "exc":
        return None if a.exc[0] == b.exc[0] else f"{a.describe()} vs {b.describe()}"
    d = diff(a.value, b.value, rtol, atol)
    if d:
        return d
    if warns and sorted(set(w[0] for w in a.warns)) != sorted(set(w[0] for w in b.warns)):
        return f"warnings {a.warns} vs {b.warns}"
    return None


# issued once per process by libraries below ot
THIRD_PARTY = ("The use of `x.T`", "Sparse ", "The PyTorch API of", "Casting complex", "lbfgs", "Converting a tensor", "Detected call of", "torch.")


def observe(thunk, catch=Exception):
    import contextlib, io, warnings
    buf = io.StringIO()
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        with contextlib.redirect_stdout(buf):
            try:
                v = thunk()
                o = Outcome("ok", canon(v))
            except catch as e:  # noqa
                o = Outcome("exc", exc=(type(e).__name__, str(e)[:300]))
                e.__traceback__ = None
    o.warns = [(w.category.__name__, str(w.message)[:160]) for w in rec if not str(w.message).startswith(THIRD_PARTY)]
    o.out = buf.getvalue()
    return o
