ID="c14-last-chunk"; PROPERTY="C14"
NEEDS="isLazy=True with a batch size smaller than the number of source samples"
BREAKS="lazy Sinkhorn stops when the marginal error of its last chunk alone is small"
EDITS=[("ot/bregman/_empirical.py","""                m1_cols = []
                for i in range_s:
                    M = dist(X_s_np[i : i + bs, :], X_t_np, metric=metric)
                    M = nx.from_numpy(M, type_as=a)
                    m1_cols.append(
                        nx.sum(
                            nx.exp(f[i : i + bs, None] + g[None, :] - M / reg), axis=1
                        )
                    )
                m1 = nx.concatenate(m1_cols, axis=0)
                err = nx.sum(nx.abs(m1 - a))
""","""                for i in range_s:
                    M = dist(X_s_np[i : i + bs, :], X_t_np, metric=metric)
                    M = nx.from_numpy(M, type_as=a)
                    m1 = nx.sum(
                        nx.exp(f[i : i + bs, None] + g[None, :] - M / reg), axis=1
                    )
                    err = nx.sum(nx.abs(m1 - a[i : i + bs]))
""")]
DEMO='''
import sys
import numpy as np
import ot
r = np.random.RandomState(1)
xs, xt = r.randn(21, 2), r.randn(15, 2)
xs[-1] = xt.mean(0)
bad = 0
for bs in (4, 5, 10, 21):
    f, g = ot.bregman.empirical_sinkhorn(xs, xt, 0.3, isLazy=True, batchSize=bs, stopThr=1e-3)
    P = np.exp(f[:, None] + g[None] - ot.dist(xs, xt) / 0.3)
    e = np.abs(P.sum(1) - 1 / 21).sum()
    print(bs, e)
    bad += e > 1e-3
sys.exit(int(bad > 0))
'''
