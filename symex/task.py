"""Explores one harness configuration (runs in its own process)."""
import json
import os
import pickle
import random
import subprocess
import sys
import tempfile
import time
import traceback

from .pick import dumps, loads

PRISTINE = "/opt/venv/bin/python"


def replay(blobs, env_extra=None, timeout=120):
    """Run recorded cases on unmodified d42; list of outcome dicts."""
    with tempfile.TemporaryDirectory(prefix="d42replay") as d:
        src, dst = os.path.join(d, "in"), os.path.join(d, "out")
        with open(src, "wb") as f:
            pickle.dump(blobs, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   PYTHONPYCACHEPREFIX="/nonexistent/pycache")
        env.update(env_extra or {})
        py = PRISTINE if os.path.exists(PRISTINE) else sys.executable
        here = os.path.dirname(os.path.abspath(__file__))
        try:
            p = subprocess.run([py, os.path.join(here, "replay.py"), src, dst], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                               cwd=d)
        except subprocess.TimeoutExpired:
            return [{"status": "timeout"} for _ in blobs]
        if not os.path.exists(dst):
            return [{"status": "error", "message": p.stdout.decode(errors="replace")[-2000:]}
                    for _ in blobs]
        with open(dst) as f:
            return json.load(f)


def make_case(task, eng):
    from .values import to_concrete
    inputs = {k: to_concrete(v, orig=True) for k, v in eng.inputs.items()}
    draws = [(k, to_concrete(v)) for k, v in eng.draws]
    return {"module": task["module"], "fn": task["fn"], "cfg": task["cfg"],
            "inputs": inputs, "draws": draws, "clock": [to_concrete(v) for v in eng.extra.get("reads", [])]}


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:
        s = f"<unprintable {type(x).__name__}>"
    return s if len(s) <= n else s[:n] + "..."


def run(task):
    """-> result dict (JSON-able plus pickled counterexample)."""
    sys.setrecursionlimit(20000)
    from . import core, loader
    from .ctx import SymCtx
    from .values import to_concrete
    t0 = time.time()
    loader.install()
    cov = loader.Coverage()
    cov.start()
    budget = task["budget"]
    eng = core.Engine(deadline=t0 + budget * 0.7, seed=task.get("seed", 0),
                      max_paths=task.get("max_paths", 10 ** 9),
                      solver_timeout_ms=task.get("solver_ms", 10000))
    st = {"mod": None, "guard": None}

    def reload():
        loader.unload()
        st["mod"] = loader.load(task["module"])
        st["guard"] = loader.StateGuard()
    reload()
    always = task.get("reload", False)
    out = {"task": {k: task[k] for k in ("module", "fn", "cfg")}, "violations": [],
           "spurious": [], "samples": [], "validated": 0, "diverged": [], "checks": 0,
           "crashes": 0, "errors": []}
    rnd = random.Random(task.get("seed", 0) * 7919 + hash(str(task["cfg"])) % 1000)
    reservoir = []
    cap = task.get("validate", 12)
    counter = [0]
    cur = {}
    seen = {}

    def body():
        cur["ctx"] = SymCtx(eng)
        return getattr(st["mod"], task["fn"])(cur["ctx"], task["cfg"])

    def guarded():
        try:
            return ("val", body())
        except RecursionError as e:
            return ("crash", "RecursionError", "")
        except Exception as e:
            return ("crash", f"{type(e).__name__}: {short(e, 300)}", traceback.format_exc())

    def on_path(outcome, value):
        out["checks"] += cur["ctx"].checks
        stop = False
        if outcome == "ok":
            kind = value[0]
            if kind == "crash":
                out["crashes"] += 1
                stop = candidate(value[1], None, value[2])
            else:
                counter[0] += 1
                k = counter[0]
                if not eng.path_concretised or True:
                    if len(reservoir) < cap or rnd.random() < cap / k:
                        keep(value[1])
        elif outcome == "violation":
            stop = candidate(value.message, value.detail, "")
        if always or st["guard"].changed():
            if not always:
                eng.stats.state_resets += 1
            reload()
        return stop

    def keep(val):
        try:
            case = make_case(task, eng)
            blob = dumps(case)
            dig = repr(to_concrete(val))
        except Exception as e:
            out["errors"].append("sample: " + short(e, 200))
            return
        if len(reservoir) < cap:
            reservoir.append((blob, dig))
        else:
            reservoir[rnd.randrange(cap)] = (blob, dig)
        if len(out["samples"]) < 2 and rnd.random() < 0.3 or not out["samples"]:
            out["samples"].append({"harness": task["fn"], "cfg": short(task["cfg"], 200),
                                   "inputs": {k: short(v, 120) for k, v in
                                              list(case["inputs"].items())[:14]},
                                   "draws": short(case["draws"], 200), "outcome": dig[:200]})

    def candidate(msg, detail, trace):
        key = msg.split(":")[0][:80]
        n = seen.get(key, 0)
        if n >= 6:
            out["suppressed"] = out.get("suppressed", 0) + 1
            return False
        seen[key] = n + 1
        try:
            case = make_case(task, eng)
            blob = dumps(case)
        except Exception as e:
            out["errors"].append("pickle: " + short(e, 300))
            return False
        r = confirm(task, blob)
        info = {"message": msg, "detail": [short(d, 600) for d in (detail or [])],
                "inputs": {k: short(v) for k, v in case["inputs"].items()},
                "draws": short(case["draws"]), "replay": r, "trace": trace[-1500:],
                "harness": task["fn"], "cfg": task["cfg"]}
        if r["status"] == "violation" or (r["status"] == "crash" and r.get("in_d42")):
            info["blob"] = blob
            out["violations"].append(info)
            from .findings import known_for
            if known_for(task["property"], info) is None:
                return True
            return False
        out["spurious"].append(info)
        return False

    try:
        eng.explore(guarded, on_path, walk_s=budget * 0.3)
    except Exception as e:
        out["errors"].append("engine: " + traceback.format_exc()[-3000:])
    # ------ the encoding against the implementation, on recorded paths
    if reservoir and not task.get("no_validation"):
        own = bool(task.get("confirm"))
        rs = [confirm(task, b) for b, _ in reservoir] if own else \
            replay([b for b, _ in reservoir], task.get("replay_env"))
        for (b, dig), r in zip(reservoir, rs):
            if r["status"] == "ok" and (own or r.get("digest") == dig):
                out["validated"] += 1
            else:
                c = loads(b)
                if r["status"] in ("violation",) or (r["status"] == "crash" and r.get("in_d42")):
                    # the concrete run on unmodified code breaks the property
                    info = {"message": r.get("message", ""), "detail": r.get("detail", []),
                            "inputs": {k: short(v) for k, v in c["inputs"].items()},
                            "draws": short(c["draws"]), "replay": r, "trace": "", "blob": b,
                            "harness": task["fn"], "cfg": task["cfg"]}
                    out["violations"].append(info)
                else:
                    out["diverged"].append({
                        "inputs": {k: short(v) for k, v in c["inputs"].items()},
                        "draws": short(c["draws"]), "predicted": dig[:300], "replay": r})
    out["stats"] = eng.stats.as_dict()
    out["functions"] = sorted("%s:%s" % x for x in cov.functions)
    out["lines"] = sorted(cov.lines)
    out["wall"] = time.time() - t0
    return out


def confirm(task, blob):
    fn = task.get("confirm")
    if fn:
        import importlib
        mod, name = fn.rsplit(".", 1)
        return getattr(importlib.import_module(mod), name)(task, blob)
    return replay([blob], task.get("replay_env"))[0]
