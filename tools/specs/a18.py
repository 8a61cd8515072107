ID="c18-batch-scale"; PROPERTY="C18"
NEEDS="source and target of different sizes"
BREAKS="the stochastic gradients of the dual are scaled with the wrong size, so they are biased"
EDITS=[("ot/stochastic.py","""    grad_beta[batch_beta] = b[batch_beta] * len(batch_alpha) / np.shape(M)[0] + G.sum(0)
    grad_alpha[batch_alpha] = a[batch_alpha] * len(batch_beta) / np.shape(M)[1] + G.sum(
        1
    )
""","""    n_batch = len(batch_alpha)
    grad_beta[batch_beta] = b[batch_beta] * n_batch / np.shape(M)[1] + G.sum(0)
    grad_alpha[batch_alpha] = a[batch_alpha] * n_batch / np.shape(M)[0] + G.sum(1)
""")]
DEMO='''
import sys
import numpy as np
import ot
r = np.random.RandomState(0)
n, m, reg = 6, 3, 0.5
a, b, M = r.dirichlet(np.ones(n)), r.dirichlet(np.ones(m)), r.rand(n, m)
u, v = r.randn(n) * .1, r.randn(m) * .1
g = np.zeros(n)
for i in range(n):
    for j in range(m):
        g += ot.stochastic.batch_grad_dual(a, b, M, reg, u, v, 1, np.array([i]), np.array([j]))[0]
P = np.exp((u[:, None] + v[None] - M) / reg) * np.outer(a, b)
e = np.abs(g - (a - P.sum(1))).max()
print(e)
sys.exit(int(e > 1e-9))
'''
