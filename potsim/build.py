"""Builds of the native code, always outside /repo, keyed by a digest of the
sources (so a cached product is never used for other sources)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from pathlib import Path

from .env import PY, REPO, VERIF, scratch

NATIVE = VERIF / "native"


def _run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(map(str, cmd)), (r.stdout + r.stderr)[-4000:]))
    return r


def incs():
    import numpy
    return ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(map(str, paths)):
        h.update(os.path.basename(p).encode() + b"\0")
        h.update(Path(p).read_bytes())
    return h.hexdigest()[:16]


class locked:
    def __init__(self, name):
        self.path = scratch() / (name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cython(pyx, out):
    _run([PY, "-m", "cython", "-3", "--cplus", str(pyx), "-o", str(out)], cwd=str(Path(pyx).parent))


def lp_sources():
    lp = REPO / "ot" / "lp"
    return sorted(lp.glob("*.h")) + [lp / "EMD_wrapper.cpp", lp / "emd_wrap.pyx"]


def wrap_cpp(work):
    """C++ generated from emd_wrap.pyx, in its own cache: it changes rarely."""
    lp = REPO / "ot" / "lp"
    d = scratch() / ("cy-" + digest([lp / "emd_wrap.pyx"], sys.version))
    out = d / "emd_wrap.cpp"
    if not out.exists():
        tmp = Path(str(d) + ".tmp%d" % os.getpid())
        shutil.rmtree(tmp, ignore_errors=True)
        tmp.mkdir(parents=True)
        shutil.copy(lp / "emd_wrap.pyx", tmp / "emd_wrap.pyx")
        cython(tmp / "emd_wrap.pyx", tmp / "emd_wrap.cpp")
        try:
            tmp.rename(d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def plain_ext():
    """The extension as shipped (no instrumentation), built in scratch."""
    with locked("plain"):
        lp = REPO / "ot" / "lp"
        so = scratch() / ("plain-" + digest(lp_sources(), sys.version)) / "emd_wrap.so"
        if not so.exists():
            so.parent.mkdir(parents=True, exist_ok=True)
            cpp = wrap_cpp(so.parent)
            objs = []
            procs = []
            for src in (cpp, lp / "EMD_wrapper.cpp"):
                o = so.parent / (Path(src).stem + ".o")
                objs.append(str(o))
                procs.append(subprocess.Popen(["g++", "-O2", "-fPIC", "-fopenmp", "-w", *incs(), "-I" + str(lp), "-c", str(src), "-o", str(o)],
                                              stderr=subprocess.PIPE, text=True))
            for p in procs:
                _, err = p.communicate()
                if p.returncode:
                    raise RuntimeError("build failed:\n" + err[-4000:])
            _run(["g++", "-shared", "-fopenmp", "-o", str(so) + ".tmp", *objs])
            os.rename(str(so) + ".tmp", so)
        return so


def partial_ext():
    with locked("partial"):
        pyx = REPO / "ot" / "partial" / "partial_cython.pyx"
        so = scratch() / ("partial-" + digest([pyx], sys.version)) / "partial_cython.so"
        if not so.exists():
            so.parent.mkdir(parents=True, exist_ok=True)
            shutil.copy(pyx, so.parent / pyx.name)
            cython(so.parent / pyx.name, so.parent / "partial_cython.cpp")
            _run(["g++", "-O2", "-fPIC", "-w", *incs(), "-shared", str(so.parent / "partial_cython.cpp"), "-o", str(so) + ".tmp"])
            os.rename(str(so) + ".tmp", so)
        return so


def sim_ext():
    """The extension with simulated worker threads and failing allocations."""
    with locked("sim"):
        lp = REPO / "ot" / "lp"
        rt = NATIVE / "simrt.cpp"
        so = scratch() / ("sim-" + digest(lp_sources() + [rt], sys.version)) / "emd_wrap.so"
        if not so.exists():
            so.parent.mkdir(parents=True, exist_ok=True)
            cpp = wrap_cpp(so.parent)
            jobs = [(cpp, ["-O1"]), (lp / "EMD_wrapper.cpp", ["-O1", "-fopenmp", "-fsanitize=thread"]), (rt, ["-O2"])]
            objs, procs = [], []
            for src, flags in jobs:
                o = so.parent / (Path(src).stem + ".o")
                objs.append(str(o))
                procs.append(subprocess.Popen(["g++", *flags, "-fPIC", "-w", *incs(), "-I" + str(lp), "-c", str(src), "-o", str(o)],
                                              stderr=subprocess.PIPE, text=True))
            for p in procs:
                _, err = p.communicate()
                if p.returncode:
                    raise RuntimeError("build failed:\n" + err[-4000:])
            _run(["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,--wrap=PyEval_SaveThread", "-Wl,--wrap=PyEval_RestoreThread",
                  "-o", str(so) + ".tmp", *objs])
            os.rename(str(so) + ".tmp", so)
        return so
