ID="c17-broken-install"; PROPERTY="C17"
NEEDS="a scikit-learn that is installed but cannot be imported (a missing shared library)"
BREAKS="importing ot fails instead of going on without scikit-learn"
EDITS=[("ot/lowrank.py","""    import sklearn.cluster

    sklearn_import = True
except ImportError:
    sklearn_import = False
""","""    import sklearn.cluster

    sklearn_import = True
except ModuleNotFoundError:
    sklearn_import = False
""")]
DEMO='''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, "sklearn"))
    with open(os.path.join(d, "sklearn", "__init__.py"), "w") as f:
        f.write("raise ImportError('libgomp.so.1: cannot open shared object file')")
    env = dict(os.environ, PYTHONPATH=d + os.pathsep + os.environ["PYTHONPATH"])
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import ot, numpy as np; print(ot.emd2([.5, .5], [.5, .5], np.array([[0., 1.], [1., 0.]])))"], env=env, capture_output=True, text=True)
    print(p.stdout[-200:], p.stderr[-300:])
    sys.exit(int(p.returncode != 0))
'''
