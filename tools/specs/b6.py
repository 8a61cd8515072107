ID="c06-labels-inplace"; PROPERTY="C06"
NEEDS="labels that do not start at the value asked for, in a NumPy array or a torch tensor"
BREAKS="label_normalization shifts the caller's labels in place"
EDITS=[("ot/utils.py","""    diff = nx.min(y) - start
    return y if diff == 0 else (y - diff)
""","""    diff = nx.min(y) - start
    if diff != 0:
        y -= diff
    return y
""")]
DEMO='''
import sys
import numpy as np
import ot
r = np.random.RandomState(0)
Xs = [r.randn(4, 2), r.randn(4, 2)]
ys = [np.array([1., 2., 1., 2.]), np.array([2., 1., 1., 2.])]
t = ot.da.SinkhornTransport().fit(Xs=Xs[0], Xt=Xs[1])
before = ys[0].copy()
t.transform_labels(ys[0])
print(ys[0], before)
sys.exit(int(not np.array_equal(ys[0], before)))
'''
