"""Which operations a world draws from, and how a call is prepared."""
import numpy as np

from .. import calls, ops

HEAVY = {"mapping.brenier", "dr.wda", "dr.ewca"}


def names(need=(), without=(), torch=None):
    out = []
    for n, o in ops.OPS.items():
        if any(t not in o.tags for t in need) or any(t in o.tags for t in without):
            continue
        if torch is False and "torchonly" in o.tags:
            continue
        out.append(n)
    return sorted(out)


def lighten(pool, name, r, tier, p=0.7):
    """fewer of the slow operations"""
    while name in HEAVY and tier == "quick" and r.random() < p:
        name = pool[int(r.integers(len(pool)))]
    return name


LAYOUTS = ["C", "F", "view", "readonly", "shared"]


def relayout(call, layout):
    """The same numbers in another memory layout."""
    seen = {}

    def f(a):
        if a.dtype.kind not in "fciub" or a.ndim == 0:
            return a
        if layout == "F":
            return np.asfortranarray(a)
        if layout == "view":
            big = np.full(tuple(2 * s + 1 for s in a.shape), 12345 if a.dtype.kind in "fci" else 0, dtype=a.dtype)
            v = big[tuple(slice(1, 2 * s + 1, 2) for s in a.shape)]
            v[...] = a
            return v
        if layout == "readonly":
            b = a.copy()
            b.flags.writeable = False
            return b
        if layout == "shared":   # equal arrays become one object
            k = (a.shape, a.dtype.str, a.tobytes())
            return seen.setdefault(k, a)
        return a
    return calls.convert(call, f)


def prepare(ot, c, calls_=calls):
    """case -> Call; c has op, shape, value, lib, layout"""
    k = ops.build(ot, c["op"], c["shape"], c["value"])
    if c.get("layout", "C") != "C":
        k = relayout(k, c["layout"])
    if c.get("lib") == "torch":
        k = calls.to_torch(k)
    elif c.get("lib") == "torchgrad":
        k = calls.to_torch(k, grad=True)
    return k


def draw(r, pool, i, tier, layouts=LAYOUTS, ptorch=0.25, pgrad=0.1):
    name = lighten(pool, pool[i % len(pool)], r, tier)
    tonly = "torchonly" in ops.OPS[name].tags
    u = r.random()
    lib = "torchgrad" if u < pgrad else "torch" if (u < pgrad + ptorch or tonly) else "numpy"
    c = {"op": name, "shape": int(r.integers(1 << 30)), "value": int(r.integers(1 << 30)), "lib": lib}
    if lib == "numpy":
        c["layout"] = layouts[int(r.integers(len(layouts)))]
    else:
        c["layout"] = "C"
    return c
