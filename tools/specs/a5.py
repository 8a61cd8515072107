ID="c05-id-cache"; PROPERTY="C05"
NEEDS="a second Gromov call on structure matrices that were changed in place (or on new arrays at the same addresses)"
BREAKS="_transform_matrix remembers its last result by object identity, so a later call can use matrices of an earlier one"
EDITS=[("ot/gromov/_utils.py","""    if loss_fun == "square_loss":

        def f1(a):
            return a**2
""","""    key = (id(C1), id(C2), tuple(C1.shape), tuple(C2.shape), loss_fun)
    if _transform_matrix.last is not None and _transform_matrix.last[0] == key:
        return _transform_matrix.last[1]

    if loss_fun == "square_loss":

        def f1(a):
            return a**2
"""),("ot/gromov/_utils.py","""    return fC1, fC2, hC1, hC2


def init_matrix(""","""    _transform_matrix.last = (key, (fC1, fC2, hC1, hC2))
    return fC1, fC2, hC1, hC2


_transform_matrix.last = None


def init_matrix(""")]
DEMO='''
import sys
import numpy as np
import ot
r = np.random.RandomState(0)
C1, C2 = ot.dist(r.randn(6, 2)), ot.dist(r.randn(6, 2))
p = np.ones(6) / 6
ot.gromov_wasserstein2(C1, C2, p, p)
D1 = ot.dist(r.randn(6, 2))
want = ot.gromov_wasserstein2(D1.copy(), C2.copy(), p, p)
ot.gromov_wasserstein2(C1, C2, p, p)
C1[:] = D1
got = ot.gromov_wasserstein2(C1, C2, p, p)
print(want, got)
sys.exit(int(abs(want - got) > 1e-9))
'''
