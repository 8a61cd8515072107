ID="c12-half-back"; PROPERTY="C12"
NEEDS="a kernel row or column that underflows after some finite iterations (small regularization with large cost entries)"
BREAKS="after numerical errors sinkhorn_knopp goes back to the previous u but keeps the v that is not finite"
EDITS=[("ot/bregman/_sinkhorn.py","""            # we have reached the machine precision
            # come back to previous solution and quit loop
            warnings.warn("Warning: numerical errors at iteration %d" % ii)
            u = uprev
            v = vprev
            break
        if ii % 10 == 0:
            # we can speed up the process by checking for the error only all
            # the 10th iterations
            if n_hists:
                tmp2 = nx.einsum("ik,ij,jk->jk", u, K, v)""","""            # we have reached the machine precision
            # come back to previous solution and quit loop
            warnings.warn("Warning: numerical errors at iteration %d" % ii)
            u = uprev
            if not nx.any(KtransposeU == 0):
                v = vprev
            break
        if ii % 10 == 0:
            # we can speed up the process by checking for the error only all
            # the 10th iterations
            if n_hists:
                tmp2 = nx.einsum("ik,ij,jk->jk", u, K, v)""")]
DEMO='''
import sys, warnings
import numpy as np
import ot
warnings.simplefilter("ignore")
np.seterr(all="ignore")
M = np.array([[0.0, 0.5, 900.0], [0.5, 0.0, 900.0]])
a, b = np.array([0.5, 0.5]), np.array([0.3, 0.3, 0.4])
P = ot.sinkhorn(a, b, M, 1.0)
print(P)
sys.exit(int(not np.isfinite(P).all()))
'''
