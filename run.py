"""run.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]

Decides one property: runs every (harness, configuration) task of it on a pool of processes, writes
evidence/<PROPERTY>.json.  exit 0 held / 1 violated (VIOLATION line) / 2 inconclusive or error."""
import argparse
import json
import os
import shutil
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))


def bootstrap():
    """re-execute under the interpreter and environment the repository runs in"""
    py = "/opt/venv/bin/python"
    want = {"PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "NUMBA_DISABLE_JIT": "1",
            "PYTHONWARNINGS": "ignore", "HOME": os.environ.get("HOME", "/root"), "OMP_NUM_THREADS": "1",
            "OPENBLAS_NUM_THREADS": "1", "RAY_USAGE_STATS_ENABLED": "0", "PYTHONPATH": HERE}
    if os.environ.get("VSYM_BOOT") != "1":
        env = dict(os.environ)
        env.update(want)
        env["VSYM_BOOT"] = "1"
        # a private bytecode cache location that is never read: code is always compiled from the current source
        env["PYTHONPYCACHEPREFIX"] = "/nonexistent-pycache"
        os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = 780 if tier == "quick" else 3000
    deadline = t0 + budget
    warnings.filterwarnings("ignore")
    from vsym import loader
    evpath = os.path.join(HERE, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(evpath), exist_ok=True)
    outdir = os.path.join(HERE, "evidence", "replay", a.prop)
    shutil.rmtree(outdir, ignore_errors=True)
    try:
        loader.load(a.prop)
    except Exception:
        import traceback
        traceback.print_exc()
        print("ERROR: the code under test could not be loaded")
        write_evidence(evpath, a.prop, tier, seed, [], time.time() - t0, 0, "load error", [])
        return 2
    from vsym.registry import HARNESSES
    from vsym.task import run_task
    hs = [h for (p, n), h in sorted(HARNESSES.items()) if p == a.prop and (not a.only or a.only in n)]
    tasks = [(a.prop, h.name, i, tier, deadline, outdir) for h in hs for i in range(len(h.config_list(tier)))]
    import multiprocessing as mp
    results = []
    ctxmp = mp.get_context("fork")
    pending = list(tasks)
    running = {}
    stop = False
    while (pending and not stop) or running:
        while pending and not stop and len(running) < a.j:
            t = pending.pop(0)
            r, w = ctxmp.Pipe(False)
            p = ctxmp.Process(target=child, args=(w, run_task, t))
            p.start()
            w.close()
            running[p.sentinel] = (p, r, t)
        import multiprocessing.connection as mc
        ready = mc.wait([x[1] for x in running.values()], timeout=5)
        for s, (p, r, t) in list(running.items()):
            if r in ready or not p.is_alive():
                try:
                    res = r.recv() if r.poll(1) else None
                except EOFError:
                    res = None
                if res is None:
                    p.join(5)
                    res = {"harness": t[1], "config": t[2], "status": "inconclusive", "labels": {}, "samples": [],
                           "reason": "worker ended (exit code %s)" % p.exitcode, "stats": {}, "wall_s": 0}
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[s]
                results.append(res)
                if a.v or res["status"] != "ok":
                    print("%-34s %-12s %7.1fs paths=%s queries=%s %s" % (
                        res["harness"], res["status"], res["wall_s"], res["stats"].get("paths"),
                        res["stats"].get("queries"), json.dumps(res["config"])[:100]))
                    if res["status"] == "violation":
                        print("   ", json.dumps(res["failure"]), json.dumps(res["inputs"])[:1500])
                    elif res["status"] != "ok":
                        print("   ", res["reason"][-3000:])
                    sys.stdout.flush()
                if res["status"] == "violation":
                    stop = True
            elif time.time() > deadline + 60:
                p.kill()
        if stop:
            for p, r, t in running.values():
                p.kill()
            running.clear()
    bad = [r for r in results if r["status"] == "violation"]
    inc = [r for r in results if r["status"] == "inconclusive"]
    # vacuity: each expected label reached by some path
    if not bad:
        for h in hs:
            got = {}
            for r in results:
                if r["harness"] == h.name:
                    for l, n in r["labels"].items():
                        got[l] = got.get(l, 0) + n
            miss = [l for l in h.expect if not got.get(l)]
            if miss:
                inc.append({"harness": h.name, "reason": "vacuity guard: never reached %s" % miss})
    if not tasks:
        inc.append({"harness": "-", "reason": "no task"})
    print_known(a.prop)
    write_evidence(evpath, a.prop, tier, seed, results, time.time() - t0, len(bad), None, hs)
    st = totals(results)
    print("%s %s: %d tasks, %d paths, %d solver queries (%.1f s solver), %d assertions, %d validated runs, %.1f s" % (
        a.prop, tier, len(results), st["paths"], st["queries"], st["solver_s"], st["checks"], st["validated"],
        time.time() - t0))
    if bad:
        for r in bad[:1]:
            print("VIOLATION property=%s replay=%s" % (a.prop, os.path.relpath(r["replay"], HERE)))
        return 1
    if inc:
        for r in inc:
            print("INCONCLUSIVE %s: %s" % (r["harness"], r["reason"][:1500]))
        return 2
    return 0


def child(w, fn, t):
    import gc
    gc.freeze()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    try:
        res = fn(*t)
    except BaseException as e:
        import traceback
        res = {"harness": t[1], "config": t[2], "status": "inconclusive", "labels": {}, "samples": [],
               "reason": "worker error: " + "".join(traceback.format_exception(e))[-2000:], "stats": {}, "wall_s": 0}
    w.send(res)
    w.close()
    os._exit(0)


def totals(results):
    st = {k: 0 for k in ("paths", "queries", "solver_s", "checks", "check_queries", "nodes", "branches", "validated",
                         "aborted")}
    for r in results:
        for k in st:
            st[k] += r["stats"].get(k, 0)
    return st


def print_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return
    for e in json.load(open(p)).get("known", []):
        if e["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))


def write_evidence(path, prop, tier, seed, results, wall, violations, note, hs):
    st = totals(results)
    samples = []
    for r in results:
        samples += r["samples"][:1]
    by = {}
    for r in results:
        b = by.setdefault(r["harness"], {"tasks": 0, "paths": 0, "queries": 0, "solver_s": 0.0, "assertions": 0,
                                         "validated": 0, "inconclusive": 0, "labels": {}})
        b["tasks"] += 1
        b["paths"] += r["stats"].get("paths", 0)
        b["queries"] += r["stats"].get("queries", 0)
        b["solver_s"] = round(b["solver_s"] + r["stats"].get("solver_s", 0), 3)
        b["assertions"] += r["stats"].get("checks", 0)
        b["validated"] += r["stats"].get("validated", 0)
        b["inconclusive"] += r["status"] == "inconclusive"
        for l, n in r["labels"].items():
            b["labels"][l] = b["labels"].get(l, 0) + n
    for h in hs:
        if h.name in by:
            by[h.name]["functions_encoded"] = h.functions
            by[h.name]["bounds"] = h.bounds
            by[h.name]["stubs_and_assumptions"] = h.stubs
    cov = {
        "states": st["nodes"],
        "transitions": st["branches"],
        "traces_validated_against_impl": st["validated"],
        "samples": samples[:12],
        "paths": st["paths"],
        "cut_paths": st["aborted"],
        "solver_queries": st["queries"],
        "solver_seconds": round(st["solver_s"], 3),
        "assertions_decided": st["checks"],
        "assertions_needing_solver": st["check_queries"],
        "harnesses": by,
        "explanation": "states = symbolic decision points decided by z3 (feasibility of both outcomes under the path "
                       "condition); transitions = decision points where both outcomes are feasible and both were "
                       "followed; paths = completed symbolic executions of the real code; "
                       "traces_validated_against_impl = paths whose model was run again on the plain code, giving "
                       "the same observed outputs. Bounds per harness are listed; nothing is claimed beyond them."}
    if note:
        cov["note"] = note
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": sorted({s for h in hs for s in h.stubs}), "wall_s": round(wall, 3), "violations": violations}
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=repr)


if __name__ == "__main__":
    bootstrap()
    sys.exit(main())
