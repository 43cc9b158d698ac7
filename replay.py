"""Replay a counterexample on the unpatched code: replay.py <file>; exit 1 = reproduced."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if "/repo" not in sys.path:
    sys.path.insert(0, "/repo")


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    import check
    from symx import harness

    try:
        m, cases = check.load(r["property"], r.get("tier", "quick"))
    except Exception as e:
        print("import fails: %r" % (e,))
        return 1
    if "many" in r:
        by = {c.name: c for c in cases}
        for i, c in enumerate(r["many"]):
            if c["case"] not in by:
                continue
            st, h = harness.run_concrete(by[c["case"]], c["inputs"], getattr(m, "CHECK_MUT", False))
            if st == "fail":
                print("MANY %d %s" % (i, h.fails[0][0]))
                return 1
        return 0
    if r["case"] == "import":
        print("import works")
        return 0
    case = [c for c in cases if c.name == r["case"]][0]
    st, h = harness.run_concrete(case, r["inputs"], getattr(m, "CHECK_MUT", False))
    print("replay of %s / %s on the real code: %s" % (r["property"], r["case"], st))
    print("inputs: %s" % json.dumps(r["inputs"]))
    for lab, det in h.fails:
        print("violated: %s -- %s" % (lab, det))
    if getattr(h, "exception", None):
        print(h.exception[-1500:])
    if getattr(h, "error", None):
        print(h.error)
    return 1 if st == "fail" else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
