"""seed.py FILE.py [id...]: make planted bugs from a python file with SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)],
confirm them (demo clean/patched, stable tests) and run the property's check.  Development tool, not part of any check."""
import importlib.util, json, os, shutil, subprocess, sys

V = "/verif"
REPO = "/tmp/seed/r"  # copy of /repo, mounted over /repo in a private namespace for every command
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])


def sh(c, cwd="/repo"):
    return subprocess.run(["unshare", "-rm", "sh", "-c", 'mount --bind %s /repo && cd %s && exec sh -c "$0"' % (REPO, cwd), c], capture_output=True, text=True)


def clean():
    sh("git -C /repo checkout -- .")


def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = set(a for a in sys.argv[2:] if not a.startswith("-"))
    shutil.rmtree("/tmp/seed", ignore_errors=True)
    os.makedirs("/tmp/seed")
    subprocess.run(["cp", "-a", "/repo", REPO], check=True)
    assert sh("git -C /repo status --porcelain").stdout.strip() == ""
    for s in m.SEEDS:
        if want and s["id"].split("-")[0] not in want:
            continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
            open(os.path.join(d, "demo.py"), "w").write("import warnings\nwarnings.simplefilter('ignore')\n" + s["demo"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            clean()
            a = sh("sh %s/demo.sh" % d, cwd='/repo')
            sh("git -C /repo apply %s/patch.diff" % d)
            b = sh("sh %s/demo.sh" % d, cwd='/repo')
            t = sh("bash /opt/vp/test.sh /tmp/seed_out.json", cwd='/repo')
            o = json.load(open("/tmp/seed_out.json"))
            n = len(o.get("passed", []))
            print("%s: demo clean %d patched %d, tests passed %d%s" % (s["id"], a.returncode, b.returncode, n,
                  "" if a.returncode == 0 and b.returncode != 0 and n >= 45 else "   <<<<<< NOT VALID " + a.stderr[-300:]))
            if "-n" not in sys.argv:
                r = sh("./check %s quick --nproc 8" % s["prop"], cwd=V)
                caught = "VIOLATION property=%s" % s["prop"] in r.stdout
                print("    check %s: exit %d %s" % (s["prop"], r.returncode, "caught" if caught else "MISSED\n" + r.stdout[-1500:] + r.stderr[-500:]))
                for l in r.stdout.splitlines():
                    if l.startswith("counterexample") or l.startswith("property"):
                        print("      ", l[:200])
        finally:
            clean()

    shutil.rmtree("/tmp/seed", ignore_errors=True)


main()
