#!/opt/veriftools/pyvenv/bin/python
"""Decides one property:  run.py check C02   (VERIF_TIER=quick|thorough, VERIF_SEED)"""
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def worker(task, path):
    try:
        import resource
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        from symex import task as T
        res = T.run(task)
    except BaseException:
        res = {"fatal": traceback.format_exc()[-4000:], "task": {k: task[k] for k in
                                                                ("module", "fn", "cfg")}}
    with open(path + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(path + ".tmp", path)
    os._exit(0)


def load_tasks(prop, tier, seed):
    """TASKS of harness.<prop>, obtained in a child so that this process stays clean."""
    from symex import loader
    loader.install()
    mod = loader.load("harness." + prop.lower())
    tasks = []
    for t in mod.TASKS(tier):
        t = dict(t)
        t.setdefault("module", mod.__name__)
        t.setdefault("cfg", {})
        t["property"] = prop
        t["seed"] = seed
        t.setdefault("budget", 40 if tier == "quick" else 400)
        tasks.append(t)
    meta = {"assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "bounds": getattr(mod, "BOUNDS", {}), "post": getattr(mod, "POST", None) is not None}
    return tasks, meta


def spread(tasks):
    """The tasks with their numbers, the families evenly mixed: when time runs out, each had its part."""
    count, rank = {}, []
    for t in tasks:
        count[t["fn"]] = count.get(t["fn"], 0) + 1
        rank.append(count[t["fn"]] - 0.5)
    return sorted(enumerate(tasks), key=lambda it: rank[it[0]] / count[it[1]["fn"]])


def run_all(tasks, total, stop_on_violation=True, jobs=8, verbose=False):
    import tempfile
    ctx = mp.get_context("fork")
    d = tempfile.mkdtemp(prefix="d42check")
    t_end = time.time() + total
    pending = spread(tasks)
    running = {}
    results = {}
    stop = False
    try:
        while (pending or running) and not stop:
            while pending and len(running) < jobs and time.time() < t_end - 5:
                i, t = pending.pop(0)
                left = t_end - time.time() - 5
                share = 4 * jobs * left / (len(pending) + 1)    # so that none is left out
                t = dict(t, budget=max(3, min(t["budget"], left, share)))
                path = os.path.join(d, str(i))
                p = ctx.Process(target=worker, args=(t, path))
                p.start()
                running[i] = (p, path, time.time() + t["budget"] + 60, t)
            if time.time() >= t_end - 5 and pending:
                for i, t in pending:
                    results[i] = {"skipped": True, "task": {k: t[k] for k in
                                                            ("module", "fn", "cfg")}}
                pending = []
            for i, (p, path, dl, t) in list(running.items()):
                if os.path.exists(path):
                    with open(path, "rb") as f:
                        results[i] = pickle.load(f)
                    p.join(5)
                    del running[i]
                    if verbose:
                        show(results[i])
                    r = results[i]
                    if stop_on_violation and unlisted(t["property"], r):
                        stop = True
                elif not p.is_alive() or time.time() > dl or time.time() > t_end + 90:
                    if p.is_alive():
                        p.kill()
                    p.join(5)
                    if os.path.exists(path):
                        continue
                    results[i] = {"fatal": "worker ended without a result (time or memory)",
                                  "task": {k: t[k] for k in ("module", "fn", "cfg")}}
                    del running[i]
            time.sleep(0.02)
    finally:
        for p, *_ in running.values():
            p.kill()
        for p, *_ in running.values():
            p.join(5)
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return [results[i] for i in sorted(results)]


def unlisted(prop, r):
    from symex.findings import known_for
    return [v for v in r.get("violations", []) if known_for(prop, v) is None]


def show(r):
    t = r["task"]
    if "fatal" in r or "skipped" in r:
        print("  --", t["fn"], t["cfg"], r.get("fatal", "skipped"), flush=True)
        return
    s = r["stats"]
    print(f"  {t['fn']} {t['cfg']}: paths={s['paths']} ok={s['completed']} inf={s['infeasible']} "
          f"q={s['queries']} unk={s['unknown']} solver={s['solver_s']:.1f}s wall={r['wall']:.1f}s "
          f"{'TRUNC ' if s['truncated'] else ''}checks={r['checks']} valid={r['validated']} "
          f"viol={len(r['violations'])} spur={len(r['spurious'])} div={len(r['diverged'])} "
          f"conc={sum(s['concretised'].values())} resets={s['state_resets']} "
          f"mism={s['mismatch']}", flush=True)
    for v in r["violations"][:2]:
        print("     VIOL", v["message"], v["detail"], v["replay"].get("message"), v["inputs"],
              v["draws"], flush=True)
    for v in r["spurious"][:2]:
        print("     SPUR", v["message"], v["detail"], v["inputs"], v["draws"], "->", v["replay"],
              v["trace"][-900:], flush=True)
    for v in r["diverged"][:2]:
        print("     DIV ", v, flush=True)
    for e in r["errors"][:2]:
        print("     ERR ", e, flush=True)
    if s["concretised"]:
        print("     conc:", s["concretised"])


def check(prop, verbose=False, only=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    tasks, meta = load_tasks(prop, tier, seed)
    if only:
        tasks = [t for t in tasks if only in t["fn"] + ":" + str(t["cfg"])]
    total = float(os.environ.get("VERIF_TOTAL", "420" if tier == "quick" else "2400"))
    jobs = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 4))))
    results = run_all(tasks, total, jobs=jobs, verbose=verbose,
                      stop_on_violation=not os.environ.get("VERIF_KEEP_GOING"))
    return report(prop, tier, seed, t0, tasks, meta, results)


def report(prop, tier, seed, t0, tasks, meta, results):
    from symex.findings import known_for, load
    from symex import loader
    good = [r for r in results if "stats" in r]
    tot = lambda k: sum(r["stats"][k] for r in good)
    known, bad = {}, []
    for r in good:
        for v in r["violations"]:
            w = known_for(prop, v)
            if w is None:
                bad.append(v)
            else:
                known[w] = known.get(w, 0) + 1
    funcs = sorted({f for r in good for f in r["functions"]})
    lines = {tuple(x) for r in good for x in r["lines"]}
    conc = {}
    for r in good:
        for k, n in r["stats"]["concretised"].items():
            conc[k] = conc.get(k, 0) + n
    exhausted = [r for r in good if not r["stats"]["truncated"] and not r["stats"]["concretised"]]
    samples = [s for r in good for s in r["samples"]][:6]
    spurious = [x for r in good for x in r["spurious"]]
    diverged = [x for r in good for x in r["diverged"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("branches") + tot("choices"),
            "traces_validated_against_impl": sum(r["validated"] for r in good),
            "samples": samples,
            "exhaustive": False,
            "what_is_counted": "states = feasible symbolic paths executed through the real d42 "
                               "code (each covers all inputs satisfying its path condition); "
                               "transitions = decisions taken (symbolic branches and case "
                               "choices); traces_validated = paths whose concrete replay on "
                               "unmodified d42 gave the outcome the symbolic run predicted",
            "paths_completed": tot("completed"),
            "paths_by_random_jumps_after_time_ran_out": tot("walked"),
            "paths_outside_assumptions": tot("infeasible"),
            "assertions_evaluated": sum(r["checks"] for r in good),
            "solver_queries": tot("queries"), "solver_sat": tot("sat"),
            "solver_unsat": tot("unsat"), "solver_unknown": tot("unknown"),
            "solver_seconds": round(tot("solver_s"), 2),
            "configurations": len(tasks),
            "configurations_run": len(good),
            "configurations_exhausted_within_bounds": len(exhausted),
            "not_exhausted": [
                {"fn": r["task"]["fn"], "cfg": str(r["task"]["cfg"])[:200],
                 "reason": "time budget or unknown" if r["stats"]["truncated"] else
                 "some paths fix a value to its model value"}
                for r in good if r not in exhausted][:60],
            "not_run": [{"fn": r["task"]["fn"], "cfg": str(r["task"]["cfg"])[:200],
                         "reason": r.get("fatal", "total time")[:300]}
                        for r in results if "stats" not in r][:40],
            "values_fixed_to_model": conc,
            "functions_encoded": funcs,
            "lines_executed_symbolically": len(lines),
            "bounds": meta["bounds"],
            "counterexamples_not_reproduced": [
                {k: v[k] for k in ("harness", "cfg", "message")} for v in spurious][:10],
            "replay_divergences": len(diverged),
            "engine_mismatches": tot("mismatch"),
            "vacuous_configurations": [
                {"fn": r["task"]["fn"], "cfg": str(r["task"]["cfg"])[:200]}
                for r in good if r["stats"]["completed"] == 0 and not r["violations"]][:20],
            "module_state_resets": tot("state_resets"),
            "known_findings_seen": known,
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc = 0
    for p, rx, what in load():
        if p == prop and what in known:
            print(f"KNOWN-FINDING: property={prop} {what}")
    if bad:
        v = bad[0]
        path = os.path.join(HERE, "evidence", f"{prop}.replay.pickle")
        with open(path, "wb") as f:
            f.write(v["blob"])
        ev["coverage"]["counterexample"] = {k: str(v[k])[:2000] for k in
                                            ("message", "detail", "inputs", "draws", "harness",
                                             "cfg")}
        print(f"counterexample: {v['harness']} {v['cfg']}: {v['replay'].get('message')}")
        print(f"  detail: {v['replay'].get('detail', v['detail'])}")
        print(f"  inputs: {v['inputs']}")
        print(f"  draws : {v['draws']}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print(f"{prop} [{tier}] {'VIOLATED' if rc else 'held on everything explored'}: "
          f"{c['states']} paths, {c['transitions']} decisions, {c['solver_queries']} queries "
          f"({c['solver_seconds']} s solver), {len(exhausted)}/{len(tasks)} configurations "
          f"exhausted, {c['traces_validated_against_impl']} traces validated, "
          f"{len(spurious)} not reproduced, {len(diverged)} diverged, {ev['wall_s']} s")
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2], verbose="-v" in sys.argv,
                       only=(sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else None)))
    if sys.argv[1] == "selfcheck":
        import z3
        from symex import loader, rt, values, stubs, regexenc, ctx, task  # noqa: F401
        x = z3.Int("x")
        sol = z3.Solver()
        sol.add(x * 3 == 12)
        assert sol.check() == z3.sat and sol.model()[x].as_long() == 4
        print("z3", z3.get_version_string(), "ok")
        sys.exit(0)
    if sys.argv[1] == "replay":
        os.execv("/opt/venv/bin/python", ["python", os.path.join(HERE, "symex", "replay.py"),
                                          "--show", sys.argv[2]])
