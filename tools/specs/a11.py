ID="c11-one-more"; PROPERTY="C11"
NEEDS="a free-support barycenter that does not converge within its budget"
BREAKS="the free-support barycenter performs one iteration more than numItermax"
EDITS=[("ot/lp/_barycenter_solvers.py","""    while displacement_square_norm > stopThr and iter_count < numItermax:""","""    while displacement_square_norm > stopThr and iter_count <= numItermax:""")]
DEMO='''
import sys
import numpy as np
import ot
r = np.random.RandomState(0)
X = [r.randn(6, 2), r.randn(7, 2)]
w = [np.ones(6) / 6, np.ones(7) / 7]
calls = []
real = ot.lp._barycenter_solvers.emd
def counting(*a, **k):
    calls.append(1)
    return real(*a, **k)
ot.lp._barycenter_solvers.emd = counting
ot.lp.free_support_barycenter(X, w, r.randn(5, 2), numItermax=2, stopThr=-1)
print(len(calls), "transport problems in 2 iterations of 2 measures")
sys.exit(int(len(calls) > 4))
'''
