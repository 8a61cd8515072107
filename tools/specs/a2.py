ID="c02-warm-limit"; PROPERTY="C02"
NEEDS="a warm start from poor potentials together with an iteration limit too small to reach the optimum"
BREAKS="a warm-started solve cut by its iteration limit reports success (no warning, optimal code) for a non-optimal plan as soon as the plan is feasible"
EDITS=[("ot/lp/network_simplex_simple.h","""                if(max_iter > 0 && ++iter_number>=max_iter&&max_iter>0){
                    // max iterations hit
					retVal = MAX_ITER_REACHED;
                    break;
                }
""","""                if(max_iter > 0 && ++iter_number>=max_iter&&max_iter>0){
                    // max iterations hit: a warm-started tree may already carry
                    // a plan without artificial flow
                    retVal = OPTIMAL;
                    for (ArcsType e = _search_arc_num; e != _all_arc_num; ++e) {
                        if (!_warmstart_tree_built || fabs(arcFlow(e)) > _EPSILON) {
                            retVal = MAX_ITER_REACHED;
                            break;
                        }
                    }
                    break;
                }
""")]
DEMO='''
import sys, warnings
import numpy as np
import ot
warnings.simplefilter("ignore")
bad = 0
for s in range(200):
    r = np.random.RandomState(s)
    n = 12
    a, b = r.dirichlet(np.ones(n)), r.dirichlet(np.ones(n))
    M = r.rand(n, n)
    c = ot.emd2(a, b, M)
    G, l = ot.emd(a, b, M, numItermax=1 + s % 20, log=True, potentials_init=(r.randn(n), r.randn(n)))
    bad += l["warning"] is None and l["cost"] > c + 1e-6
print(bad, "truncated solves claimed to be optimal")
sys.exit(int(bad > 0))
'''
