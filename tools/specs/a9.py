ID="c09-residual"; PROPERTY="C09"
NEEDS="continuing sinkhorn_stabilized from its own log['warmstart'] with few iterations per leg"
BREAKS="the potentials handed out for a warm start miss the scalings since the last absorption"
EDITS=[("ot/bregman/_sinkhorn.py","""        log["alpha"] = alpha + reg * nx.log(u)
        log["beta"] = beta + reg * nx.log(v)
        log["warmstart"] = (log["alpha"], log["beta"])
        if n_hists:""","""        log["alpha"] = alpha + reg * nx.log(u)
        log["beta"] = beta + reg * nx.log(v)
        log["warmstart"] = (alpha, beta)
        if n_hists:""")]
DEMO='''
import sys, warnings
import numpy as np
import ot
warnings.simplefilter("ignore")
r = np.random.RandomState(0)
M = r.rand(6, 7)
a, b = r.dirichlet(np.ones(6)), r.dirichlet(np.ones(7))
w, e = None, []
for leg in range(40):
    P, l = ot.bregman.sinkhorn_stabilized(a, b, M, 0.05, numItermax=3, warmstart=w, log=True)
    w = l["warmstart"]
    e.append(np.abs(P.sum(0) - b).max())
print(e[0], e[-1])
sys.exit(int(e[-1] > 0.5 * e[0]))
'''
