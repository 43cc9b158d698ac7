"""Parallel exploration of all paths of all cases of a property, confirmation of
counterexamples in fresh processes, evidence."""
import json
import multiprocessing as mp
import os
import queue
import subprocess
import sys
import time
import traceback

from . import core, harness

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def _worker(wid, cases, tq, rq, pending, stop, opts, taken):
    core.ENG.stats = core.Stats()
    core.ENG.active = True
    seed = opts["seed"]
    while not stop.value:
        try:
            ci, prefix = tq.get(timeout=0.05)
        except queue.Empty:
            if pending.value <= 0:
                break
            continue
        case = cases[ci]
        t0 = time.time()
        if case.max_paths:
            with taken.get_lock():
                taken[ci] += 1
                over = taken[ci] > case.max_paths
            if over:
                with pending.get_lock():
                    pending.value -= 1
                continue
        try:
            r = harness.run_path(
                case, prefix, check_mut=opts["check_mut"],
                validate=(case.validate is not False), seed=seed, deadline=opts["deadline"],
            )
            out = {
                "case": ci, "status": r.status, "detail": r.detail, "cands": r.candidates,
                "unconf": r.unconfirmed, "obl": r.obligations, "unknown": r.unknown,
                "validated": r.validated, "mismatch": r.mismatch, "reached": r.reached,
                "conc": r.concrete_runs, "sample": r.sample, "alts": len(r.alternatives), "t": time.time() - t0,
            }
            alts = r.alternatives
        except BaseException:
            out = {"case": ci, "status": "crash", "detail": traceback.format_exc(), "cands": [], "unconf": [],
                   "obl": 0, "unknown": 0, "validated": 0, "mismatch": [], "reached": False, "conc": 0,
                   "sample": None, "alts": 0, "t": time.time() - t0}
            alts = []
        with pending.get_lock():
            pending.value += len(alts)
        for a in alts:
            tq.put((ci, a))
        rq.put(out)
        with pending.get_lock():
            pending.value -= 1
    rq.put({"stats": core.ENG.stats.as_dict(), "wid": wid})


def explore(cases, opts, log=None):
    """-> summary dict.  Stops at the first few in-process confirmed candidates."""
    nproc = opts["nproc"]
    tq, rq = mp.Queue(), mp.Queue()
    pending = mp.Value("i", len(cases))
    stop = mp.Value("b", 0)
    taken = mp.Array("i", len(cases))
    for i in range(len(cases)):
        tq.put((i, []))
    ws = [mp.Process(target=_worker, args=(w, cases, tq, rq, pending, stop, opts, taken), daemon=True) for w in range(nproc)]
    for w in ws:
        w.start()
    per = [
        {"name": c.name, "paths": 0, "obligations": 0, "unknown": 0, "unsupported": 0, "limit": 0, "infeasible": 0,
         "validated": 0, "errors": 0, "reached": 0, "conc": 0, "t": 0.0, "bounds": c.bounds}
        for c in cases
    ]
    S = {"cases": per, "candidates": [], "unconfirmed": [], "mismatch": [], "details": {}, "samples": [],
         "truncated": False, "stats": {}, "raw": []}
    alive = nproc
    lastlog = time.time()
    while alive > 0:
        try:
            r = rq.get(timeout=0.25)
        except queue.Empty:
            if time.time() > opts["deadline"] + 30:
                S["truncated"] = True
                break
            if time.time() > opts["deadline"] and not stop.value:
                stop.value = 1
                S["truncated"] = pending.value > 0
            if all(not w.is_alive() for w in ws) and rq.empty():
                break
            continue
        if "stats" in r:
            alive -= 1
            for k, v in r["stats"].items():
                S["stats"][k] = S["stats"].get(k, 0) + v
            continue
        p = per[r["case"]]
        p["paths"] += 1
        p["obligations"] += r["obl"]
        p["unknown"] += r["unknown"]
        p["validated"] += r["validated"]
        p["conc"] += r["conc"]
        p["t"] += r["t"]
        p["reached"] += bool(r["reached"])
        st = r["status"]
        if st in ("unsupported", "limit", "infeasible"):
            p[st] += 1
        elif st != "ok":
            p["errors"] += 1
        if r["detail"] and st != "ok" or r["unknown"]:
            key = "%s: %s: %s" % (p["name"], st, r["detail"][-700:])
            S["details"][key] = S["details"].get(key, 0) + 1
        for c in r["cands"]:
            if (p["name"], c["label"]) in opts.get("skip", ()):
                # reproduced by the Python source but not by the compiled code before: kept
                # for a replay of many such models by the compiled code
                if len(S["raw"]) < 400:
                    S["raw"].append(dict(c, case=p["name"]))
            else:
                S["candidates"].append(dict(c, case=p["name"]))
        for c in r["unconf"][:3]:
            if len(S["unconfirmed"]) < 20:
                S["unconfirmed"].append(dict(c, case=p["name"]))
        for c in r["mismatch"][:3]:
            if len(S["mismatch"]) < 20:
                S["mismatch"].append(dict(c, case=p["name"]))
        if r["sample"] and sum(1 for s in S["samples"] if s["case"] == p["name"]) < 2:
            S["samples"].append(r["sample"])
        if S["candidates"] and not stop.value and not opts.get("all"):
            # one violation per case is enough; stop early
            stop.value = 1
        if time.time() > opts["deadline"] and not stop.value:
            stop.value = 1
            S["truncated"] = pending.value > 0
        if log and time.time() - lastlog > 10:
            lastlog = time.time()
            log("%d paths, %d pending" % (sum(q["paths"] for q in per), pending.value))
    for i, c in enumerate(cases):
        if c.max_paths and taken[i] > c.max_paths:
            per[i]["paths_beyond_limit"] = taken[i] - c.max_paths
    for w in ws:
        w.join(timeout=0.5)
        if w.is_alive():
            w.terminate()
    tq.cancel_join_thread()
    rq.cancel_join_thread()
    return S


def confirm_many(prop, cands, path, timeout=400):
    """Replay many models of paths with the compiled code in one process; index of the first
    that violates the property, or None."""
    env = dict(os.environ)
    env.pop("NUMBA_DISABLE_JIT", None)
    try:
        p = subprocess.run([PY, os.path.join(VERIF, "replay.py"), path], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, cwd=VERIF)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode != 1:
        return None
    for l in p.stdout.decode(errors="replace").splitlines():
        if l.startswith("MANY "):
            i, lab = l[5:].split(" ", 1)
            return int(i), lab
    return None


def confirm(prop, cand, path, jit=True, timeout=300):
    """Re-run the counterexample in a fresh process against the unpatched code."""
    env = dict(os.environ)
    if jit:
        env.pop("NUMBA_DISABLE_JIT", None)
    else:
        env["NUMBA_DISABLE_JIT"] = "1"
    try:
        p = subprocess.run([PY, os.path.join(VERIF, "replay.py"), path], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, cwd=VERIF)
    except subprocess.TimeoutExpired:
        return False, "timeout"
    return p.returncode == 1, p.stdout.decode(errors="replace")[-2000:]
