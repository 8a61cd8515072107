ID="c04-scratch"; PROPERTY="C04"
NEEDS="two threads solving numpy Gromov problems of the same size at the same time"
BREAKS="tensor_product keeps its intermediate product in a buffer shared by all threads, so concurrent solvers overwrite each other's gradients"
EDITS=[("ot/gromov/_utils.py","""    A = -nx.dot(nx.dot(hC1, T), hC2.T)
    tens = constC + A
""","""    if isinstance(T, np.ndarray) and hC1.dtype == T.dtype:
        # the solvers call this at every iteration: reuse the intermediate product
        key = (hC1.shape[0], T.shape[1], T.dtype.str)
        if key not in _PRODUCTS:
            _PRODUCTS[key] = np.empty(key[:2], dtype=T.dtype)
        hCT = np.dot(hC1, T, out=_PRODUCTS[key])
    else:
        hCT = nx.dot(hC1, T)
    A = -nx.dot(hCT, hC2.T)
    tens = constC + A
"""),("ot/gromov/_utils.py","""def _transform_matrix(C1""","""# intermediate products of `tensor_product`
_PRODUCTS = {}


def _transform_matrix(C1""")]
DEMO='''
import sys, threading
import numpy as np
import ot
sys.setswitchinterval(1e-6)
n = 60
def data(s):
    r = np.random.RandomState(s)
    C1, C2 = ot.dist(r.randn(n, 2)), ot.dist(r.randn(n, 3))
    return C1 / C1.max(), C2 / C2.max(), np.ones(n) / n, np.ones(n) / n
D = [data(s) for s in range(4)]
want = [ot.gromov.gwloss(*ot.gromov.init_matrix(*d), d[2][:, None] * d[3]) for d in D]
bad = []
def work(k):
    d = D[k]
    c = ot.gromov.init_matrix(*d)
    T = d[2][:, None] * d[3]
    for _ in range(2000):
        if abs(ot.gromov.gwloss(*c, T) - want[k]) > 1e-12:
            bad.append(k)
t = [threading.Thread(target=work, args=(k,)) for k in range(4)]
[x.start() for x in t]
[x.join() for x in t]
print(len(bad), "concurrent results were wrong")
sys.exit(int(len(bad) > 0))
'''
