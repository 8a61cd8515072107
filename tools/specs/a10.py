ID="c10-stale-loss"; PROPERTY="C10"
NEEDS="entropic Gromov-Wasserstein stopped by its iteration budget at a step where the error is not checked"
BREAKS="the reported gw_dist is that of the plan at the last check instead of the returned plan"
EDITS=[("ot/gromov/_bregman.py","""    if log:
        log["err"] = []

""","") ] if False else [("ot/gromov/_bregman.py","""    if abs(nx.sum(T) - 1) > 1e-5:
        warnings.warn(
            "Solver failed to produce a transport plan. You might "
            "want to increase the regularization parameter `epsilon`."
        )
    if log:
        log["gw_dist"] = gwloss(constC, hC1, hC2, T, nx)
        return T, log""","""    if abs(nx.sum(T) - 1) > 1e-5:
        warnings.warn(
            "Solver failed to produce a transport plan. You might "
            "want to increase the regularization parameter `epsilon`."
        )
    if log:
        # for symmetric matrices half the inner product with the gradient
        # of the last iteration is the loss
        scale = 0.5 if symmetric and solver == "PGD" else None
        log["gw_dist"] = (
            scale * nx.sum(tens * T)
            if scale is not None and cpt > 0
            else gwloss(constC, hC1, hC2, T, nx)
        )
        return T, log""")]
DEMO='''
import sys
import numpy as np
import ot
r = np.random.RandomState(0)
C1, C2 = ot.dist(r.randn(6, 2)), ot.dist(r.randn(7, 2))
C1, C2 = C1 / C1.max(), C2 / C2.max()
p, q = np.ones(6) / 6, np.ones(7) / 7
bad = 0
for n in range(1, 12):
    T, l = ot.gromov.entropic_gromov_wasserstein(C1, C2, p, q, epsilon=1e-2, max_iter=n, log=True)
    want = ot.gromov.gwloss(*ot.gromov.init_matrix(C1, C2, p, q), T)
    bad += abs(l["gw_dist"] - want) > 1e-9
print(bad, "reported losses are not those of the plan")
sys.exit(int(bad > 0))
'''
