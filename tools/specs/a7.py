ID="c07-seterr"; PROPERTY="C07"
NEEDS="an interrupt between two particular lines of the circular bisection solver"
BREAKS="floating-point error handling of the whole process stays switched off after an interrupted circular transport"
EDITS=[("ot/lp/solver_circle.py","""            with warnings.catch_warnings():
                warnings.simplefilter("ignore", category=RuntimeWarning)
                mask_end = mask * (nx.abs(dCptm - dCmtp) > 0.001)
                tc[mask_end > 0] = (
                    (Ctp - Ctm + tm * dCptm - tp * dCmtp) / (dCptm - dCmtp)
                )[mask_end > 0]
""","""            old = np.seterr(divide="ignore", invalid="ignore")
            mask_end = mask * (nx.abs(dCptm - dCmtp) > 0.001)
            tc[mask_end > 0] = (
                (Ctp - Ctm + tm * dCptm - tp * dCmtp) / (dCptm - dCmtp)
            )[mask_end > 0]
            np.seterr(**old)
""")]
DEMO='''
import sys
import numpy as np
import ot
from ot.backend import NumpyBackend
r = np.random.RandomState(0)
real = NumpyBackend.abs
before = np.geterr()
bad = 0
for k in range(1, 200):          # interrupt inside the k-th call of the array library's abs
    count = [0]
    def interrupted(self, a, count=count, k=k):
        count[0] += 1
        if count[0] == k:
            raise KeyboardInterrupt
        return real(self, a)
    NumpyBackend.abs = interrupted
    try:
        ot.binary_search_circle(r.rand(7, 1), r.rand(5, 1), p=2)
    except KeyboardInterrupt:
        pass
    NumpyBackend.abs = real
    bad += np.geterr() != before
    np.seterr(**before)
print(bad, "interrupts left the error handling changed")
sys.exit(int(bad > 0))
'''
