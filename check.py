"""Decide one property:  check.py <id> <quick|thorough>

exit 0: the property held on everything explored (or only listed known findings)
exit 1: a counterexample was found by the solver and reproduced on the real code
"""
import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def module_of(pid):
    for f in sorted(os.listdir(os.path.join(HERE, "props"))):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return "props." + f[:-3]
    raise SystemExit("no check for property %s" % pid)


AFTER = ", after other calls"


def load(pid, tier):
    m = importlib.import_module(module_of(pid))
    cases = m.cases(tier)
    if getattr(m, "HISTORY", True) and not getattr(m, "CHECK_MUT", False):
        # the same statements when the code has been used before with other inputs
        import copy

        for c in list(cases):
            if c.history is None:
                d = copy.copy(c)
                d.name = c.name + AFTER
                d.history = 2
                d.max_paths = 6 if tier == "quick" else 24
                cases.append(d)
    return m, cases


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def match_known(pid, cand, kf):
    for k in kf:
        if k["property"] != pid:
            continue
        if re.fullmatch(k["case"], cand["case"]) and re.search(k["label"], cand["label"]):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--nproc", type=int, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import warnings

    warnings.simplefilter("ignore")
    evp = os.path.join(HERE, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)

    import_error = None
    try:
        m, cases = load(a.prop, a.tier)
    except SystemExit:
        raise
    except BaseException:
        import_error = traceback.format_exc()
    if import_error is not None:
        # the code under test no longer offers the entry points the property speaks about
        # (or a fault of this machinery): not decided, and not an alarm
        evidence(evp, a, seed, None, [], t0, 0, [import_error[-500:]], None)
        print("inconclusive: the harness cannot be loaded\n" + import_error[-1500:])
        return 0

    from symx import runner

    if a.case:
        cases = [c for c in cases if re.search(a.case, c.name)]
    budget = a.budget or getattr(m, "BUDGET", {}).get(a.tier) or (240 if a.tier == "quick" else 3000)
    nproc = a.nproc or min(8, os.cpu_count() or 4)
    opts = {"seed": seed, "nproc": nproc, "deadline": t0 + budget, "check_mut": getattr(m, "CHECK_MUT", False)}
    kf = known()
    log = (lambda s: print("  ..", s, flush=True)) if a.v else None

    kcases = {k["case"] for k in kf if k["property"] == a.prop}
    opts["all"] = False
    S = runner.explore(cases, opts, log)
    # known findings: if everything found so far is listed, look for others too
    findings = {}
    unconf = []
    if S["candidates"] and all(match_known(a.prop, c, kf) for c in S["candidates"]):
        opts["all"] = True
        S = runner.explore(cases, opts, log)
    violation = None
    skip = set()
    for rnd in range(4):
        tried = 0
        seen = set()
        for c in S["candidates"]:
            k = match_known(a.prop, c, kf)
            if k is not None:
                findings[k["id"]] = k
                continue
            key = (c["case"], c["label"])
            if key in seen or tried >= 4:
                continue
            seen.add(key)
            tried += 1
            rp = write_replay(a.prop, c, a.tier)
            ok, out = runner.confirm(a.prop, c, rp, jit=True)
            if ok:
                violation = (c, rp, out)
                break
            skip.add(key)
            unconf.append({"case": c["case"], "label": c["label"], "inputs": c["inputs"], "replay": out[-400:]})
        if violation is None and S["raw"]:
            # paths that fail only in the uncompiled code: let the compiled code judge their models
            rp = write_many(a.prop, S["raw"], a.tier)
            i = runner.confirm_many(a.prop, S["raw"], rp)
            if i is not None:
                c = dict(S["raw"][i[0]], label=i[1])
                rp = write_replay(a.prop, c, a.tier)
                ok, out = runner.confirm(a.prop, c, rp, jit=True)
                if ok:
                    violation = (c, rp, out)
        if violation is not None or not seen or time.time() > opts["deadline"]:
            break
        # nothing confirmed: go on exploring past those models
        opts["skip"] = skip
        S = runner.explore(cases, opts, log)
    S["unconfirmed"] = (unconf + S["unconfirmed"])[:20]
    problems = []
    for p in S["cases"]:
        if p["reached"] == 0 and not p["name"].endswith(AFTER):
            problems.append("case %s: no path reached an obligation" % p["name"])
    evidence(evp, a, seed, S, cases, t0, 1 if violation else 0, problems, m)

    tot = S["stats"]
    print(
        "property %s (%s): %d cases, %d paths, %d obligations, %d solver queries (%d unsat, %d sat, %d unknown), "
        "%.1fs solver, %d paths validated, wall %.1fs"
        % (a.prop, a.tier, len(cases), sum(p["paths"] for p in S["cases"]), sum(p["obligations"] for p in S["cases"]),
           tot.get("queries", 0), tot.get("unsat", 0), tot.get("sat", 0), tot.get("unknown", 0), tot.get("solver_s", 0.0),
           sum(p["validated"] for p in S["cases"]), time.time() - t0)
    )
    if a.v:
        for p in S["cases"]:
            print("   %-40s paths %5d obl %6d unk %d uns %d lim %d err %d val %d t %.1f" % (
                p["name"], p["paths"], p["obligations"], p["unknown"], p["unsupported"], p["limit"], p["errors"], p["validated"], p["t"]))
    for k, n in list(S["details"].items())[: 20 if a.v else 4]:
        print("   note (%d paths): %s" % (n, k if a.v else k[:300]))
    for k in S["mismatch"][: 10 if a.v else 2]:
        print("   encoding mismatch: %s" % json.dumps(k)[:1500 if a.v else 400])
    for k in S["unconfirmed"][: 10 if a.v else 2]:
        print("   solver model not reproduced by the real code: %s" % json.dumps(k)[:1500 if a.v else 400])
    for pr in problems:
        print("   vacuous:", pr)
    if S["truncated"]:
        print("   budget reached: exploration incomplete")
    for k in findings.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    if violation:
        c, rp, out = violation
        print("counterexample in case %s: %s -- %s" % (c["case"], c["label"], c["detail"]))
        print(out[-1500:])
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    return 0


def write_replay(pid, c, tier):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % pid)
    with open(p, "w") as f:
        json.dump({"property": pid, "tier": tier, "case": c["case"], "inputs": c["inputs"], "label": c["label"],
                   "detail": c.get("detail"), "why": c.get("why")}, f, indent=1)
    return p


def write_many(pid, cands, tier):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.many.json" % pid)
    with open(p, "w") as f:
        json.dump({"property": pid, "tier": tier, "many": [{"case": c["case"], "inputs": c["inputs"]} for c in cands]}, f)
    return p


def evidence(path, a, seed, S, cases, t0, nviol, problems, m):
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    assumptions = []
    if S is not None:
        st = S["stats"]
        fns = sorted({f for c in cases for f in c.functions} | set(getattr(m, "FUNCTIONS", [])))
        cov = {
            "states": sum(p["paths"] for p in S["cases"]),
            "transitions": st.get("decisions", 0),
            "traces_validated_against_impl": sum(p["validated"] for p in S["cases"]),
            "samples": S["samples"][:12],
            "meaning": "states = feasible symbolic paths of the real code executed to the end; transitions = branch "
                       "decisions taken on them; traces_validated = paths whose encoding was compared with a run of the "
                       "unpatched code on a solver model of the path",
            "functions_encoded": fns,
            "obligations": sum(p["obligations"] for p in S["cases"]),
            "queries": st.get("queries", 0),
            "queries_unsat": st.get("unsat", 0),
            "queries_sat": st.get("sat", 0),
            "queries_unknown": st.get("unknown", 0),
            "solver_s": round(st.get("solver_s", 0.0), 2),
            "obligations_undecided": sum(p["unknown"] for p in S["cases"]),
            "paths_outside_encoding": sum(p["unsupported"] + p["limit"] + p["errors"] for p in S["cases"]),
            "concrete_replays": sum(p["conc"] for p in S["cases"]),
            "exploration_complete": not S["truncated"],
            "encoding_mismatches": len(S["mismatch"]),
            "vacuous_cases": problems,
            "cases": [{k: (round(v, 2) if isinstance(v, float) else v) for k, v in p.items()} for p in S["cases"]],
            "bounds": getattr(m, "BOUNDS", ""),
            "outside_bounds": getattr(m, "OUTSIDE", ""),
            "stubs": getattr(m, "STUBS", []),
            "notes": list(S["details"])[:10],
            "not_reproduced": S["unconfirmed"][:5],
        }
        assumptions = list(getattr(m, "ASSUMPTIONS", [])) + [
            "floating point numbers are modelled as extended reals (exact arithmetic, NaN and infinities); "
            "comparisons of results use an absolute tolerance of 1e-6",
            "numba-compiled functions are executed from their Python source; every counterexample is replayed with the "
            "compiled version",
            "numpy, xarray and pandas primitives are represented by the models in symx/, validated per path against the real libraries",
        ]
    ev = {
        "property": a.prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
