ID="c08-coin"; PROPERTY="C08"
NEEDS="a structure matrix that is not symmetric"
BREAKS="one random choice of sampled Gromov-Wasserstein uses the process-wide stream instead of the given seed"
EDITS=[("ot/gromov/_estimators.py","if (not C_are_symmetric) and generator.rand(1) > 0.5:","if (not C_are_symmetric) and np.random.rand() > 0.5:")]
DEMO='''
import sys
import numpy as np
import ot
r = np.random.RandomState(0)
C1, C2 = r.rand(6, 6), r.rand(5, 5)
p, q = ot.unif(6), ot.unif(5)
out = []
for s in range(6):
    np.random.seed(s)
    out.append(np.asarray(ot.gromov.sampled_gromov_wasserstein(C1, C2, p, q, lambda x, y: (x - y) ** 2, nb_samples_grad=3, epsilon=1.0, max_iter=5, random_state=3)))
e = max(np.abs(o - out[0]).max() for o in out)
print(e)
sys.exit(int(e > 0))
'''
