"""Apply behaviour-preserving edits to scratch copies of /repo and run the checks on them.

  refactor.py FILE.py [name ...] [-j N] [-t]     FILE defines EDITS = [(name, file, [(old, new), ...], [checks]), ...]

Every check must stay quiet; paths that fall outside the encoding after the edit are reported.
The copy is mounted over /repo in a private namespace (unshare -rm); /repo itself is not touched.
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/rf"


def sh(cmd, timeout=1200):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def one(edit, nproc, tests):
    name, path, subs, checks = edit
    d = os.path.join(ROOT, name)
    r, v = d + "/r", d + "/v"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(["cp", "-a", "/repo", r])
    sh(["cp", "-a", VERIF, v])
    subs = [(path, o, n) if len(s) == 2 else s for s in subs for o, n in [s[-2:]]]
    for f, o, n in subs:
        p = os.path.join(r, "pycomlink", f)
        s = open(p).read()
        if s.count(o) < 1:
            return name + ": PATTERN NOT FOUND " + o[:60]
        open(p, "w").write(s.replace(o, n))
    out = []
    if tests:
        rc, o = sh(["unshare", "-rm", "sh", "-c", "mount --bind %s /repo && bash /opt/vp/test.sh %s/t.json" % (r, d)])
        t = json.load(open(d + "/t.json"))
        n = len(t.get("passed", [])) if isinstance(t.get("passed"), list) else t.get("passed")
        out.append("tests %s" % n)
    for c in checks:
        t0 = time.time()
        rc, o = sh(["unshare", "-rm", "sh", "-c", "mount --bind %s /repo && mount --bind %s %s && cd %s && ./check %s quick --nproc %d"
                    % (r, v, VERIF, VERIF, c, nproc)])
        notes = [l.strip()[:230] for l in o.splitlines() if re.match(r"\s+(note|encoding mismatch|solver model|vacuous|budget)|inconcl|VIOLATION|counterexample|Traceback", l)]
        out.append("%s rc=%d %.0fs %s" % (c, rc, time.time() - t0, "\n      " + "\n      ".join(notes) if notes else ""))
    shutil.rmtree(d, ignore_errors=True)
    return name + ": " + "\n   ".join(out)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 2
    if "-j" in sys.argv:
        a.remove(sys.argv[sys.argv.index("-j") + 1])
    spec = importlib.util.spec_from_file_location("edits", a[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ed = [e for e in m.EDITS if len(a) == 1 or e[0] in a[1:]]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda e: one(e, max(1, 8 // j), "-t" in sys.argv), ed):
            print(r, flush=True)


if __name__ == "__main__":
    main()
