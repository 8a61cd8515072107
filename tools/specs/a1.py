ID="c01-partial-block"; PROPERTY="C01"
NEEDS="the multi-threaded solver (numThreads != 1); at the last pricing pass the only improving arcs lie in the incomplete last block of the circular scan"
BREAKS="the parallel pricing loop stops before the last, incomplete block, so the solver can declare a non-optimal plan optimal"
EDITS=[("ot/lp/network_simplex_simple_omp.h","""				for (ArcsType i = 0; i < _search_arc_num; i += _block_size) {

					ArcsType e;
					int j;
#pragma""","""				for (ArcsType i = 0; i + bs <= _search_arc_num; i += _block_size) {

					ArcsType e;
					int j;
#pragma""")]
DEMO='''
import sys
import numpy as np
import ot
bad = 0
for s in range(1500):
    r = np.random.RandomState(s)
    n, m = r.randint(3, 9), r.randint(3, 9)
    a, b = r.dirichlet(np.ones(n)), r.dirichlet(np.ones(m))
    M = r.rand(n, m)
    c = ot.emd2(a, b, M)
    for t in (2, 3, 4):
        if abs(ot.emd2(a, b, M, numThreads=t) - c) > 1e-7:
            bad += 1
print(bad, "solves were not optimal")
sys.exit(int(bad > 0))
'''
THREADS=4
