"""Input generators.  A call is a pure function of two integers: `shape` decides
sizes, flags and methods; `value` decides the numbers.  Two calls with the same
`shape` and different `value` therefore have identical array shapes and options."""
import numpy as np


class Skip(Exception):
    """The generator cannot produce this combination."""


class Call:
    __slots__ = ("fn", "args", "kwargs", "meta")

    def __init__(self, fn, *args, **kwargs):
        self.fn = fn
        self.args = list(args)
        self.kwargs = kwargs
        self.meta = {}

    def run(self):
        return self.fn(*self.args, **self.kwargs)


class Gen:
    def __init__(self, ot, shape, value, small=True):
        self.ot = ot
        self.s = np.random.Generator(np.random.PCG64([7, int(shape)]))
        self.v = np.random.Generator(np.random.PCG64([11, int(value)]))
        self.small = small

    # -- shape-level choices
    def n(self, lo=3, hi=7):
        return int(self.s.integers(lo, hi + 1))

    def pick(self, seq):
        return seq[int(self.s.integers(0, len(seq)))]

    def flip(self, p=0.5):
        return bool(self.s.random() < p)

    def opt(self, **kw):
        """keep each keyword with probability 1/2"""
        return {k: v for k, v in kw.items() if self.s.random() < 0.5}

    # -- value-level data
    def seed(self):
        s = int(self.v.integers(1, 10000))
        return 0 if s % 5 == 0 else 2 ** 32 - 1 - s if s % 23 == 1 else s

    def u(self, lo, hi):
        return float(self.v.uniform(lo, hi))

    def hist(self, n, zeros=False):
        w = self.v.uniform(0.2, 1.2, n)
        if zeros and n > 2:
            w[self.v.permutation(n)[: max(1, n // 3)]] = 0.0
        return w / w.sum()

    def pts(self, n, d=2, scale=1.0):
        return self.v.normal(size=(n, d)) * scale

    def cost(self, n, m):
        return self.v.uniform(0.05, 1.5, (n, m))

    def metric(self, n, d=2):
        x = self.v.normal(size=(n, d))
        return np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))

    def sym(self, n):
        a = self.v.uniform(0.1, 1, (n, n))
        a = a + a.T
        np.fill_diagonal(a, 0)
        return a

    def graph(self, n, p=0.5):
        a = (self.v.random((n, n)) < p).astype(float)
        a = np.triu(a, 1)
        for i in range(n - 1):
            a[i, i + 1] = 1.0
        return a + a.T

    def cov(self, d, k=None):
        shp = (d, d) if k is None else (k, d, d)
        a = self.v.normal(size=shp)
        return a @ np.swapaxes(a, -1, -2) + 0.5 * np.eye(d)

    def labels(self, n, k=2):
        y = np.arange(n) % k
        return self.v.permutation(y)

    def hists(self, n, k):
        w = self.v.uniform(0.2, 1.2, (n, k))
        return w / w.sum(0, keepdims=True)
