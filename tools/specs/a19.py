ID="c19-dual-marginal"; PROPERTY="C19"
NEEDS="unbalanced Sinkhorn stopped by its iteration limit before convergence"
BREAKS="the total cost uses the marginal that the scalings have at convergence instead of the marginal of the plan"
EDITS=[("ot/unbalanced/_sinkhorn.py","""        if log:
            linear_cost = nx.sum(plan * M)
            dict_log["cost"] = linear_cost

            total_cost = linear_cost + reg * nx.kl_div(plan, c)
            if reg_m1 != float("inf"):
                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
            if reg_m2 != float("inf"):
                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
            dict_log["total_cost"] = total_cost

            return plan, dict_log
        else:
            return plan


def sinkhorn_stabilized_unbalanced(""","""        if log:
            linear_cost = nx.sum(plan * M)
            dict_log["cost"] = linear_cost

            total_cost = linear_cost + reg * nx.kl_div(plan, c)
            # the marginals follow from the scalings
            if reg_m1 != float("inf"):
                m1 = a * u ** (-reg / reg_m1)
                total_cost = total_cost + reg_m1 * nx.kl_div(m1, a)
            if reg_m2 != float("inf"):
                m2 = b * v ** (-reg / reg_m2)
                total_cost = total_cost + reg_m2 * nx.kl_div(m2, b)
            dict_log["total_cost"] = total_cost

            return plan, dict_log
        else:
            return plan


def sinkhorn_stabilized_unbalanced(""")]
DEMO='''
import sys, warnings
import numpy as np
import ot
warnings.simplefilter("ignore")
r = np.random.RandomState(0)
M = r.rand(5, 6)
a, b = r.dirichlet(np.ones(5)), r.dirichlet(np.ones(6))
kl = lambda p, q: np.sum(p * np.log(p / q) - p + q)
bad = 0
for n in (1, 2, 3, 1000):
    s = ot.solve(M, a, b, reg=0.1, reg_type="KL", unbalanced=0.7, unbalanced_type="KL", max_iter=n)
    P = s.plan
    v = ot.unbalanced.sinkhorn_unbalanced(a, b, M, 0.1, 0.7, numItermax=n, log=True)[1]
    want = np.sum(P * M) + 0.1 * kl(P, np.outer(a, b)) + 0.7 * kl(P.sum(1), a) + 0.7 * kl(P.sum(0), b)
    diff = min(abs(s.value - want), abs(s.value - np.sum(P * M) - 0.1 * np.sum(P * np.log(P / np.outer(a, b))) - 0.7 * np.sum(P.sum(1) * np.log(P.sum(1) / a)) - 0.7 * np.sum(P.sum(0) * np.log(P.sum(0) / b))))
    print(n, s.value, want, diff)
    bad += diff > 1e-6
sys.exit(int(bad > 0))
'''
