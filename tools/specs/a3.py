ID="c03-swallowed"; PROPERTY="C03"
NEEDS="an allocation failing while the sparse solver runs (initialisation of the spanning tree, pricing)"
BREAKS="the sparse wrapper turns std::bad_alloc into 'infeasible' instead of letting it reach the caller as MemoryError"
EDITS=[("ot/lp/EMD_wrapper.cpp","""        net.setWarmstartPotentials(&alpha_filtered[0], &beta_filtered[0], n, m);
    }
    
    int ret = net.run();
""","""        net.setWarmstartPotentials(&alpha_filtered[0], &beta_filtered[0], n, m);
    }
    
    int ret;
    try {
        ret = net.run();
    } catch (const std::exception&) {
        // never unwind through the C callers
        return INFEASIBLE;
    }
""")]
DEMO='''
import ctypes, os, subprocess, sys, tempfile
SHIM = r"""
#include <cstdlib>
#include <new>
static long left = -1;
extern "C" void arm(long n) { left = n; }
extern "C" long hits() { return left; }
void* operator new(std::size_t n) {
    if (left >= 0 && left-- == 0) { left = -2; throw std::bad_alloc(); }
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
"""
if len(sys.argv) < 2:
    with tempfile.TemporaryDirectory() as d:
        open(d + "/s.cpp", "w").write(SHIM)
        subprocess.run(["g++", "-O1", "-shared", "-fPIC", "-o", d + "/s.so", d + "/s.cpp"], check=True)
        sys.exit(int(subprocess.run([sys.executable, __file__, d + "/s.so"], env=dict(os.environ, LD_PRELOAD=d + "/s.so")).returncode))
import warnings
import numpy as np
from scipy.sparse import csr_array
import ot
warnings.simplefilter("ignore")
lib = ctypes.CDLL(sys.argv[1])
lib.arm.argtypes = [ctypes.c_long]
lib.hits.restype = ctypes.c_long
r = np.random.RandomState(0)
M = csr_array(r.rand(8, 8) + .1)
a = np.ones(8) / 8
want = ot.emd2(a, a, M)
bad = 0
for n in range(400):
    lib.arm(n)
    try:
        got = ot.emd2(a, a, M)
    except MemoryError:
        got = None
    failed = lib.hits() == -2
    lib.arm(-1)
    if failed and got is not None:
        bad += 1
    if not failed:
        break
print(n, "allocations,", bad, "failures were swallowed")
sys.exit(int(bad > 0))
'''
