ID="c13-mean-error"; PROPERTY="C13"
NEEDS="a batch of problems of which one converges much more slowly than the others"
BREAKS="the batched log solver stops when the average error is small, so the slow problem depends on its neighbours"
EDITS=[("ot/batch/_utils.py","""            marginal = nx.sum(T, axis=2)
            err = nx.max(norm_batch(marginal - a))
            if err < tol:
                break

    if grad == "last_step":
        summand_u""","""            marginal = nx.sum(T, axis=2)
            err = nx.sum(norm_batch(marginal - a)) / B
            if err < tol:
                break

    if grad == "last_step":
        summand_u""")]
DEMO='''
import sys
import numpy as np
import ot
r = np.random.RandomState(0)
slow = r.rand(5, 5)
easy = np.zeros((5, 5))
a = r.dirichlet(np.ones(5))
b = r.dirichlet(np.ones(5))
A, B = np.stack([a] * 8), np.stack([b] * 8)
alone = ot.solve_batch(slow[None], 0.02, A[:1], B[:1], max_iter=5000, tol=1e-3).plan[0]
mates = ot.solve_batch(np.stack([slow] + [easy] * 7), 0.02, A, B, max_iter=5000, tol=1e-3).plan[0]
e1, e2 = np.linalg.norm(alone.sum(1) - a), np.linalg.norm(mates.sum(1) - a)
print(e1, e2)
sys.exit(int(e2 >= 1e-3))
'''
