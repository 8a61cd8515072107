"""Process environment: everything that could differ between two runs is fixed
here, before numpy or ot are imported."""
import ctypes
import importlib.util
import os
import subprocess
import sys
import warnings
from pathlib import Path

REPO = Path(os.environ.get("POTSIM_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
FIXED = {
    "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1", "CUDA_VISIBLE_DEVICES": "", "MPLBACKEND": "Agg", "PYKEOPS_VERBOSE": "0",
    "TF_CPP_MIN_LOG_LEVEL": "3", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_CORETYPE": "HASWELL",
    "PYTHONWARNINGS": "ignore", "LC_ALL": "C", "MALLOC_ARENA_MAX": "1",
    "POT_BACKEND_DISABLE_CUPY": "1", "POT_BACKEND_DISABLE_TENSORFLOW": "1", "POT_BACKEND_DISABLE_JAX": "1",
}


def reexec(extra=None):
    """Re-execute under the fixed environment, without address randomisation."""
    want = dict(FIXED)
    want.update(extra or {})
    if os.environ.get("POTSIM_ENV") == "1":
        return
    env = dict(os.environ)
    env.update(want)
    env["POTSIM_ENV"] = "1"
    try:
        ctypes.CDLL(None, use_errno=True).personality(0x0040000)
    except Exception:
        pass
    os.execve(PY, [PY] + sys.argv, env)


def ext_is_current():
    """Is the in-place extension built from the sources now in the tree?"""
    try:
        out = subprocess.run([PY, str(VERIF / "potsim" / "stamp.py"), str(REPO)], capture_output=True, text=True, timeout=60)
        return out.returncode == 0 and out.stdout.strip() == "current"
    except Exception:
        return False


def scratch():
    d = Path(os.environ.get("POTSIM_SCRATCH", VERIF / ".build"))
    d.mkdir(parents=True, exist_ok=True)
    return d


class _Overlay:
    """Load one extension module from another file than the one in the tree."""

    def __init__(self, name, path):
        self.name, self.path = name, str(path)

    def find_spec(self, name, path=None, target=None):
        if name == self.name:
            return importlib.util.spec_from_file_location(name, self.path)
        return None


def overlay(name, path):
    sys.meta_path.insert(0, _Overlay(name, path))


class _Without:
    """A finder that does not see some packages."""

    def __init__(self, finder, names):
        self.finder, self.names = finder, set(names)

    def find_spec(self, name, path=None, target=None):
        if any(name == n or name.startswith(n + ".") for n in self.names):
            return None
        return self.finder.find_spec(name, path, target)

    def __getattr__(self, k):
        return getattr(self.__dict__["finder"], k)


def hide(*names):
    """The packages are not installed."""
    for n in names:
        for m in [m for m in sys.modules if m == n or m.startswith(n + ".")]:
            del sys.modules[m]
    sys.meta_path[:] = [_Without(f, names) for f in sys.meta_path]


def load(torch=False, gnn=False, emd_so=None, hidden=()):
    """Import ot once, in the zygote."""
    warnings.simplefilter("ignore")
    if str(REPO) != "/repo":
        sys.path.insert(0, str(REPO))
    hide("tensorflow", "jax", "cupy", *(() if torch else ("torch",)), *hidden)
    if not torch:
        os.environ["POT_BACKEND_DISABLE_PYTORCH"] = "1"
    else:
        import torch as th
        th.set_num_threads(1)
        try:
            th.set_num_interop_threads(1)
        except RuntimeError:
            pass
        os.environ.pop("POT_BACKEND_DISABLE_PYTORCH", None)
    if not ext_is_current():
        from . import build
        if emd_so is None:
            emd_so = build.plain_ext()
        overlay("ot.partial.partial_cython", build.partial_ext())
    if emd_so is not None:
        overlay("ot.lp.emd_wrap", emd_so)
    import ot
    import ot.batch, ot.coot, ot.da, ot.dr, ot.factored, ot.gmm, ot.gaussian, ot.gromov, ot.lowrank, ot.mapping  # noqa
    import ot.optim, ot.regpath, ot.sgot, ot.sliced, ot.smooth, ot.stochastic, ot.unbalanced, ot.utils, ot.weak  # noqa
    if gnn:
        import ot.gnn  # noqa
    assert os.path.realpath(ot.__file__).startswith(os.path.realpath(str(REPO))), ot.__file__
    return ot
