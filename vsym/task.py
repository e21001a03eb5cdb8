"""Runs one (harness, configuration) task; see run.py."""
import json
import os
import subprocess
import sys
import time
import traceback

from .ctx import ConcCtx, SymCtx
from .engine import CheckFailed, EngineLimit, Explorer, PathAbort
from .registry import HARNESSES

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VALIDATE_MAX = 12


def describe(exc):
    if exc is None:
        return None
    if isinstance(exc, CheckFailed):
        return {"kind": "check", "label": exc.label, "detail": repr(exc.detail) if exc.detail is not None else None}
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f for f in tb if "/repo/" in f.filename]
    f = (where or list(tb) or [None])[-1]
    return {"kind": "exception", "label": type(exc).__name__, "detail": str(exc)[:300],
            "where": "%s:%d" % (f.filename, f.lineno) if f else None}


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        if isinstance(x, dict):
            return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set, frozenset)):
            return [jsonable(v) for v in x]
        return repr(x)


def run_concrete(h, values, config, tier):
    """-> (outcome, description, ctx) ; outcome in ok / violated / aborted"""
    ctx = ConcCtx(values, config, tier)
    try:
        h.fn(ctx)
    except CheckFailed as e:
        return "violated", describe(e), ctx
    except PathAbort:
        return "aborted", None, ctx
    except Exception as e:
        return "violated", describe(e), ctx
    finally:
        ctx.unpatch()
    return "ok", None, ctx


def replay_subprocess(path, timeout):
    env = dict(os.environ)
    p = [sys.executable, "-W", "ignore", "-m", "vsym.replay", path]
    try:
        r = subprocess.run(p, cwd=HERE, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", "no result after %d s" % timeout
    return {0: "ok", 1: "violated", 3: "aborted", 4: "timeout"}.get(r.returncode, "error"), \
        (r.stdout + r.stderr)[-2000:]


def run_task(prop, name, idx, tier, deadline, outdir):
    h = HARNESSES[(prop, name)]
    config = h.config_list(tier)[idx]
    t0 = time.time()
    ex = Explorer(path_timeout_s=h.path_timeout, deadline=min(deadline, t0 + h.timeout))
    res = {"harness": name, "config": jsonable(config), "status": "ok", "labels": {}, "samples": []}
    seen = {"n": 0}

    def on_path(kind, ctx, exc):
        for l in set(ctx.labels):
            res["labels"][l] = res["labels"].get(l, 0) + 1
        if kind == "done":
            seen["n"] += 1
            n = seen["n"]
            if n <= 4 or (n & (n - 1)) == 0 and n <= 1 << VALIDATE_MAX:
                a = ctx.assignment()
                exp = [(k, ctx.value(v)) for k, v in ctx.obs]
                if len(res["samples"]) < 2:
                    res["samples"].append({"config": jsonable(config), "inputs": jsonable(a),
                                           "observed": jsonable(exp)[:6]})
                out, desc, cctx = run_concrete(h, a, config, tier)
                if out == "violated":
                    return report(a, desc, "concrete run of a path the solver accepted")
                if out == "aborted":
                    raise EngineLimit("concrete run of an explored path was aborted: %s" % (a,))
                got = [(k, cctx.value(v)) for k, v in cctx.obs]
                if norm(got) != norm(exp):
                    raise EngineLimit("encoding mismatch: inputs %s symbolic %s concrete %s" % (a, exp, got))
                ex.st.validated += 1
            return False
        a = ctx.assignment()
        if kind == "timeout":
            return report(a, {"kind": "timeout", "label": "no-termination",
                              "detail": "path ran longer than %ss" % h.path_timeout}, "timeout")
        return report(a, describe(exc), "solver counterexample")

    def report(a, desc, how):
        path = os.path.join(outdir, "%s_%s_%d.json" % (prop, name, idx))
        os.makedirs(outdir, exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": name, "config_index": idx, "tier": tier,
                       "config": jsonable(config), "inputs": a, "failure": desc, "found_by": how}, f, indent=1,
                      default=repr)
        out, log = replay_subprocess(path, h.path_timeout + 60)
        if out == "violated" or (out == "timeout" and desc["kind"] == "timeout"):
            res["status"] = "violation"
            res["failure"] = desc
            res["inputs"] = jsonable(a)
            res["replay"] = path
            res["log"] = log[-600:]
            return True
        if desc["kind"] == "timeout":
            raise EngineLimit("path exceeded %ss (the concrete run ends normally)" % h.path_timeout)
        raise EngineLimit("counterexample did not reproduce (%s): %s inputs %s log %s" % (out, desc, a, log))

    def norm(x):
        if isinstance(x, float):
            return round(x, 9)
        if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
            return float(x) if isinstance(x, (bool, int)) else x
        if isinstance(x, (list, tuple)):
            return [norm(v) for v in x]
        if isinstance(x, dict):
            return sorted(((repr(norm(k)), norm(v)) for k, v in x.items()), key=lambda p: p[0])
        return repr(x)

    try:
        ex.explore(h.fn, lambda e: SymCtx(e, config, tier), on_path)
    except EngineLimit as e:
        res["status"] = "inconclusive"
        res["reason"] = str(e)[:3000]
    except Exception as e:  # a defect of the harness or engine
        res["status"] = "inconclusive"
        res["reason"] = "engine error: " + "".join(traceback.format_exception(e))[-3000:]
    if res["status"] == "ok" and ex.st.paths == 0:
        res["status"] = "inconclusive"
        res["reason"] = "vacuous: no feasible path"
    res["stats"] = ex.st.as_dict()
    res["wall_s"] = round(time.time() - t0, 3)
    return res
