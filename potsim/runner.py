"""Campaign runner: many forked, exactly repeatable runs; minimisation; replay
files; known findings; evidence."""
import gc
import hashlib
import json
import os
import pickle
import selectors
import signal
import struct
import subprocess
import sys
import time
import traceback

from .env import PY, VERIF

WORKERS = int(os.environ.get("POTSIM_WORKERS", "8"))
KNOWN = VERIF / "known_findings.json"


def h64(*xs):
    return int.from_bytes(hashlib.sha256(":".join(map(str, xs)).encode()).digest()[:8], "big") >> 1


class HarnessError(Exception):
    pass


def in_fork(func, timeout=60.0):
    """Run func() in a forked child and return ('ok', value) | ('crash', signal)
    | ('hang', None) | ('error', traceback)."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            os.setpgid(0, 0)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
        except OSError:
            pass
        try:
            out = ("ok", func())
        except BaseException:
            out = ("error", traceback.format_exc()[-4000:])
        try:
            data = pickle.dumps(out, protocol=4)
        except BaseException:
            data = pickle.dumps(("error", "unpicklable result: " + traceback.format_exc()[-1500:]))
        try:
            with os.fdopen(w, "wb") as f:
                f.write(data)
                f.flush()
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    os.set_blocking(r, False)
    sel = selectors.DefaultSelector()
    sel.register(r, selectors.EVENT_READ)
    hung = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hung = True
            break
        if sel.select(left):
            try:
                b = os.read(r, 1 << 20)
            except BlockingIOError:
                continue
            if not b:
                break
            chunks.append(b)
    sel.close()
    os.close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        return ("hang", None)
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    data = b"".join(chunks)
    if not data:
        return ("crash", os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st))
    return pickle.loads(data)


class Result(dict):
    """violations: [[sig, detail]]; steps; faults {kind: n}; states [str];
    nontrivial bool; note."""

    def __init__(self):
        super().__init__(violations=[], steps=0, faults={}, states=[], nontrivial=False, extra={})

    def bad(self, sig, detail):
        self["violations"].append([sig, detail])

    def fault(self, kind, n=1):
        self["faults"][kind] = self["faults"].get(kind, 0) + n

    def state(self, s):
        self["states"].append(str(s))

    def count(self, k, n=1):
        self["extra"][k] = self["extra"].get(k, 0) + n


def one(world, case, timeout=None):
    """One simulated run in a child; crash and hang of the child are verdicts."""
    k, v = in_fork(lambda: dict(world.run(case)), timeout or world.timeout)
    if k == "ok":
        return v
    res = Result()
    if k == "crash":
        res.bad(f"{world.id}:process-died:{case.get('op', '?')}", f"the process ended with signal/status {v}")
    elif k == "hang":
        res.bad(f"{world.id}:no-progress:{case.get('op', '?')}", f"no answer within {timeout or world.timeout:.0f} s of real time (the same run takes well under a second on the reference tree)")
    else:
        res["error"] = v
    return res


# ------------------------------------------------------------------ campaign
def _worker(world, jobs, tier, wfd, deadline):
    with os.fdopen(wfd, "wb") as f:
        for i, seed in jobs:
            if time.monotonic() > deadline:
                break
            t = time.monotonic()
            try:
                case = world.gen(seed, i, tier)
                if case is None:
                    continue
                case.setdefault("seed", seed)
                res = one(world, case)
            except BaseException:
                case, res = {}, {"error": traceback.format_exc()[-4000:], "violations": [], "steps": 0, "faults": {}, "states": [], "nontrivial": False, "extra": {}}
            data = pickle.dumps((i, seed, case, res, time.monotonic() - t))
            f.write(struct.pack("<I", len(data)) + data)
            f.flush()


def campaign(world, vseed, tier, nruns, cap_s):
    gc.collect()
    gc.freeze()
    deadline = time.monotonic() + cap_s
    jobs = [(i, h64(world.id, vseed, i)) for i in range(nruns)]
    sel = selectors.DefaultSelector()
    pids = []
    sys.stdout.flush(); sys.stderr.flush()
    W = min(WORKERS, getattr(world, "workers", WORKERS))
    for w in range(W):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                _worker(world, jobs[w::W], tier, wr, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        os.set_blocking(r, False)
        sel.register(r, selectors.EVENT_READ, bytearray())
        pids.append(pid)
    out = []
    stop = False
    while sel.get_map():
        for key, _ in sel.select(1.0):
            try:
                b = os.read(key.fd, 1 << 20)
            except BlockingIOError:
                continue
            if not b:
                sel.unregister(key.fd)
                os.close(key.fd)
                continue
            buf = key.data
            buf += b
            while len(buf) >= 4:
                (n,) = struct.unpack("<I", buf[:4])
                if len(buf) < 4 + n:
                    break
                out.append(pickle.loads(bytes(buf[4:4 + n])))
                del buf[:4 + n]
        if not stop and sum(1 for x in out if x[3]["violations"]) > 400:
            stop = True
            for p in pids:
                try:
                    os.kill(p, signal.SIGTERM)
                except OSError:
                    pass
    bad = []
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st and not stop:
            bad.append(st)
    out.sort(key=lambda x: x[0])
    return out, bad


# --------------------------------------------------------------- minimisation
def minimise(world, case, sig, budget_s=40, tries=150):
    end = time.monotonic() + budget_s
    best = case
    n = 0
    progress = True
    while progress and n < tries and time.monotonic() < end:
        progress = False
        for cand in world.shrink(best):
            n += 1
            if n >= tries or time.monotonic() > end:
                break
            r = one(world, cand)
            if any(s == sig for s, _ in r["violations"]):
                best = cand
                progress = True
                break
    return best, n


def load_known():
    if not KNOWN.exists():
        return []
    return json.loads(KNOWN.read_text()).get("findings", [])


def known_for(pid):
    return [k for k in load_known() if k["property"] == pid and k.get("status", "open") == "open"]


def matches(k, sig):
    import fnmatch
    return any(fnmatch.fnmatchcase(sig, pat) for pat in k["signatures"])


def main(world, argv):
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--seed" in argv:
        vseed = int(argv[argv.index("--seed") + 1])
    t0 = time.monotonic()
    world.setup(tier)
    t_setup = time.monotonic() - t0
    if "--replay" in argv:
        return replay(world, argv[argv.index("--replay") + 1])
    nruns, cap = world.budget(tier)
    if "--runs" in argv:
        nruns = int(argv[argv.index("--runs") + 1])
    t1 = time.monotonic()
    out, bad = campaign(world, vseed, tier, nruns, cap)
    wall = time.monotonic() - t1
    errors = [x for x in out if x[3].get("error")]
    if "--verbose" in argv:
        for x in sorted(out, key=lambda x: -x[4])[:5]:
            print("slow", round(x[4], 2), json.dumps(x[2])[:300])
    viol = {}
    for i, seed, case, res, dt in out:
        for sig, det in res["violations"]:
            viol.setdefault(sig, []).append((i, seed, case, det))
    known = known_for(world.id)
    reported, knownhit, unrepro = [], {}, []
    rdir = VERIF / "replays"
    for sig in sorted(viol, key=lambda s: viol[s][0][0]):
        k = next((k for k in known if matches(k, sig)), None)
        if k is not None:
            knownhit.setdefault(k["id"], []).append(sig)
            continue
        if len(reported) >= 6:
            reported.append((sig, None, viol[sig][0][3], len(viol[sig])))
            continue
        i, seed, case, det = viol[sig][0]
        again = one(world, case)
        if not any(s == sig for s, _ in again["violations"]):
            unrepro.append((sig, det, case))
            continue
        small, tried = minimise(world, case, sig) if "--nomin" not in argv else (case, 0)
        fin = one(world, small)
        det = next((d for s, d in fin["violations"] if s == sig), det)
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{world.id}-{hashlib.sha256(sig.encode()).hexdigest()[:10]}.json"
        path.write_text(json.dumps({"property": world.id, "signature": sig, "detail": det, "run": i, "run_seed": seed, "verif_seed": vseed,
                                    "tier": tier, "minimisation_attempts": tried, "case": small, "original_case": case,
                                    "trace": fin.get("trace", [])}, indent=1))
        ok = confirm(world, path, sig)
        if not ok and small != case:
            path.write_text(json.dumps({"property": world.id, "signature": sig, "detail": det, "run": i, "run_seed": seed,
                                        "verif_seed": vseed, "tier": tier, "case": case}, indent=1))
            ok = confirm(world, path, sig)
        if ok:
            reported.append((sig, path, det, len(viol[sig])))
        else:
            unrepro.append((sig, det, case))
    # ---- evidence
    faults, states, extra, steps, nontriv = {}, set(), {}, 0, set()
    for i, seed, case, res, dt in out:
        steps += res["steps"]
        for k, v in res["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for s in res["states"]:
            states.add(s)
        for k, v in res["extra"].items():
            extra[k] = extra.get(k, 0) + v
        if res["nontrivial"]:
            nontriv.add(hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest())
    samples = [{"case": c, "steps": r["steps"], "faults": r["faults"]} for _, _, c, r, _ in out if r["nontrivial"]][:3]
    ev = {
        "property": world.id, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(reported),
        "coverage": {
            "evaluations": len(out), "distinct_nontrivial": len(nontriv), "rule": world.rule, "samples": samples or [{"case": c} for _, _, c, _, _ in out[:1]],
            "runs_requested": nruns, "runs_per_hour": round(len(out) / max(wall, 1e-9) * 3600), "seeds_per_hour": round(len(out) / max(wall, 1e-9) * 3600),
            "simulated_steps": steps, "step_unit": world.step_unit, "faults_injected": faults,
            "distinct_states": len(states), "state_measure": world.state_measure,
            "operations_covered": sorted({c.get("op") for _, _, c, _, _ in out if c.get("op")}),
            "real_components": world.real, "stubbed_components": world.stubs,
            "simulated_time": world.simtime, "extra": extra, "setup_s": round(t_setup, 2),
            "known_findings_hit": {k: sorted(v) for k, v in knownhit.items()},
        },
        "assumptions": world.assumptions,
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{world.id}.json").write_text(json.dumps(ev, indent=1, default=str))
    # ---- verdict
    for k in known:
        hit = knownhit.get(k["id"])
        print(f"KNOWN-FINDING: property={world.id} {k['id']}: {k['what']}" + ("" if hit else " (listed; not reached by this run)"))
    print(f"{world.id}: {len(out)} runs, {steps} steps, {len(states)} states, {sum(faults.values())} faults, {wall:.1f} s (+{t_setup:.1f} s set-up)")
    for e in errors[:3]:
        print(f"HARNESS-ERROR run={e[0]} seed={e[1]} case={json.dumps(e[2])[:400]}\n{e[3]['error']}", file=sys.stderr)
    for sig, det, case in unrepro[:5]:
        print(f"UNREPRODUCED {sig}: {det} case={json.dumps(case)[:300]}", file=sys.stderr)
    for sig, path, det, n in reported:
        if path is None:
            print(f"also: {sig} ({n} runs): {det}")
            continue
        print(f"violated: {sig} ({n} runs): {det}")
        print(f"VIOLATION property={world.id} replay={path}")
    if reported:
        return 1
    if errors or bad or unrepro:
        print(f"check incomplete: {len(errors)} harness errors, {len(bad)} dead workers, {len(unrepro)} unreproduced", file=sys.stderr)
        return 2
    if not out:
        print("no run completed", file=sys.stderr)
        return 2
    return 0


def confirm(world, path, sig):
    """Replay in a fresh process."""
    env = dict(os.environ)
    env.pop("POTSIM_ENV", None)
    try:
        r = subprocess.run([PY, str(VERIF / "check.py"), world.id, "--replay", str(path)], capture_output=True, text=True, timeout=300, env=env)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1 and sig in r.stdout


def replay(world, path):
    d = json.loads(open(path).read())
    r = one(world, d["case"])
    if r.get("error"):
        print(r["error"], file=sys.stderr)
        return 2
    for sig, det in r["violations"]:
        if sig == d["signature"]:
            print(f"violated: {sig}: {det}")
            for line in r.get("trace", [])[:200]:
                print("  ", line)
            print(f"VIOLATION property={world.id} replay={path}")
            return 1
    for sig, det in r["violations"]:
        print(f"other violation: {sig}: {det}")
    print("the recorded violation does not occur")
    return 0
