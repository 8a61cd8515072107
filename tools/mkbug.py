"""mkbug.py SPEC.py...: each spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} against /repo's HEAD."""
import json, os, runpy, subprocess, sys, tempfile, shutil
from pathlib import Path
V = Path(__file__).resolve().parent.parent
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    w = tempfile.mkdtemp(prefix="mkbug")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"], check=True)
        for f, a, b in s["EDITS"]:
            p = Path(w, "r", f)
            t = p.read_text()
            n = t.count(a)
            if n != 1:
                print(spec, f, "matches", n, repr(a[:60]))
                sys.exit(1)
            p.write_text(t.replace(a, b))
        d = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    o = V / "seeded" / s["ID"]
    o.mkdir(parents=True, exist_ok=True)
    (o / "patch.diff").write_text(d)
    (o / "demo.py").write_text(s["DEMO"].lstrip("\n"))
    (o / "demo.sh").write_text('#!/bin/bash\n# exit 0: the property holds; nonzero: it is broken\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 OMP_NUM_THREADS=%s\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' % s.get("THREADS", 1))
    (o / "meta.json").write_text(json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
    print("wrote", o)
