"""mutate.py [file-regex] [-j N] [-o OUT]: systematic single-edit mutation of /repo's sources (development tool, not part of any check).
Each mutant lives in a private copy of /repo that is bind-mounted over /repo in its own mount namespace.  Mutants that pass the
stable tests are given to the properties of their file; the output lists the ones that nothing reports."""
import ast, hashlib, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue

PROPS = {
    "processing/baseline.py": "C01 C02", "processing/blackout_gap_detection.py": "C08", "processing/min_max.py": "C05",
    "processing/k_R_relation.py": "C04 C06 C05 C07", "processing/wet_antenna.py": "C03 C07", "processing/xarray_wrapper.py": "C18",
    "processing/nearby_rain_retrival.py": "C16 C17", "processing/wet_dry/mlp.py": "C19", "processing/wet_dry/nearby_wetdry.py": "C14 C15",
    "processing/wet_dry/stft.py": "C26", "spatial/coverage.py": "C25", "spatial/helper.py": "C13", "spatial/idw.py": "C11 C12",
    "spatial/interpolator.py": "C29 C12", "util/temporal.py": "C28", "util/maintenance.py": "C09", "io/cmlh5_to_xarray.py": "C23", "io/examples.py": "C23",
    "validation/stats.py": "C09 C10", "validation/validator.py": "C24 C09", "processing/pytorch_utils/inference_utils.py": "C22",
    "processing/pytorch_utils/pytorch_utils.py": "C20 C22", "processing/pytorch_utils/run_inference.py": "C20",
    "processing/tensorflow_utils/inference_utils.py": "C21 C22", "processing/tensorflow_utils/lazy_tf.py": "C30", "processing/tensorflow_utils/run_inference.py": "C21 C22",
}
CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.Is: (" is ", " is not "), ast.IsNot: (" is not ", " is "),
       ast.In: (" in ", " not in "), ast.NotIn: (" not in ", " in ")}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Pow: ("**", "*"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.FloorDiv: ("//", "*"), ast.Mod: ("%", "*")}


def mutants(src):
    t = ast.parse(src)
    lines = src.split("\n")
    bl = src.encode().split(b"\n")
    offs = [0]
    for l in bl:
        offs.append(offs[-1] + len(l) + 1)
    raw = src.encode()
    pos = lambda ln, co: offs[ln - 1] + co
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    doc = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(id(n.value))
    out = []

    def rep(a, b, new, what):
        out.append((a, b, new.encode(), what))

    def between(x, y, old, new, what):
        a, b = span(x)[1], span(y)[0]
        seg = raw[a:b].decode()
        if old.strip() in seg:
            i = seg.index(old.strip())
            rep(a + len(seg[:i].encode()), a + len(seg[:i].encode()) + len(old.strip()), new.strip(), what)

    big = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 10:
            for e in ast.walk(n):
                big.add(id(e))
    for n in ast.walk(t):
        if (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print") or isinstance(n, ast.Raise) or (isinstance(n, ast.FunctionDef) and n.name == "plot_intersections"):
            for e in ast.walk(n):
                if e is not n or isinstance(n, (ast.Call, ast.FunctionDef)):
                    big.add(id(e))
        if isinstance(n, ast.ClassDef) and n.name in ("PointValidator", "WetDryError", "RainError"):
            for e in ast.walk(n):
                big.add(id(e))
    for n in ast.walk(t):
        if id(n) in doc or id(n) in big:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            o, w = CMP[type(n.ops[0])]
            between(n.left, n.comparators[0], o, w, "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o, w = BIN[type(n.op)]
            between(n.left, n.right, o, w, "bin")
        elif isinstance(n, ast.BoolOp):
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            for x, y in zip(n.values, n.values[1:]):
                between(x, y, o, w, "bool")
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            v = n.value
            if v is True or v is False:
                rep(a, b, str(not v), "const")
            elif isinstance(v, int):
                rep(a, b, str(v + 1), "const")
                if v > 1:
                    rep(a, b, str(v - 1), "const")
            elif isinstance(v, float):
                rep(a, b, repr(v * 1.05), "const")
            elif isinstance(v, str) and v and len(v) < 40 and not n.value.startswith(" "):
                rep(a, b, repr(v + "x"), "str")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            a, b = span(n)
            o = span(n.operand)
            rep(a, b, raw[o[0]:o[1]].decode(), "unary")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Assert, ast.Delete, ast.Continue)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            a, b = span(n)
            s = raw[a:b].decode()
            if not s.startswith("print(") and not (n.col_offset == 0):
                rep(a, b, "pass", "del")
        if isinstance(n, ast.Call):
            if n.keywords:
                for k in n.keywords:
                    if k.arg is None:
                        continue
                    a, b = span(k)
                    e = b
                    m = re.match(rb"\s*,", raw[e:])
                    if m:
                        e += m.end()
                    rep(a, e, "", "dropkw")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                for x, y in zip(n.args, n.args[1:]):
                    (a, b), (c, d) = span(x), span(y)
                    rep(a, d, (raw[c:d] + raw[b:c] + raw[a:b]).decode(), "swap")
        if isinstance(n, ast.Slice):
            for x, w in ((n.lower, "+"), (n.upper, "-")):
                if x is not None:
                    a, b = span(x)
                    rep(a, b, "(%s) %s 1" % (raw[a:b].decode(), w), "slice")
        if isinstance(n, ast.If):
            a, b = span(n.test)
            rep(a, b, "True", "if")
            rep(a, b, "False", "if")
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            x, y = n.value.elts
            (a, b), (c, d) = span(x), span(y)
            rep(a, d, (raw[c:d] + raw[b:c] + raw[a:b]).decode(), "swapret")
    seen = set()
    for a, b, new, what in out:
        m = raw[:a] + new + raw[b:]
        if m in seen or m == raw:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        ln = raw[:a].count(b"\n") + 1
        yield ln, what, raw[a:b].decode()[:60], new.decode()[:60], m.decode()


def ns(copy, verif, cmd, timeout):
    return subprocess.run(["timeout", str(timeout), "unshare", "-rm", "sh", "-c", "mount --bind %s /repo && mount --bind %s /verif && %s" % (copy, verif, cmd)], capture_output=True, text=True)


def main():
    args = sys.argv[1:]
    j = int(args[args.index("-j") + 1]) if "-j" in args else 8
    out = args[args.index("-o") + 1] if "-o" in args else "/tmp/mm/out.jsonl"
    rx = args[0] if args and not args[0].startswith("-") else "."
    os.makedirs("/tmp/mm", exist_ok=True)
    done = {}
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done[r["key"]] = r
    q = queue.Queue()
    for i in range(j):
        c, v = "/tmp/mm/r%d" % i, "/tmp/mm/v%d" % i
        for s, d in (("/repo", c), ("/verif", v)):
            shutil.rmtree(d, ignore_errors=True)
            subprocess.run(["cp", "-a", s, d], check=True)
        q.put((c, v))
    jobs = []
    for f, ps in PROPS.items():
        if re.search(rx, f):
            p = "/repo/pycomlink/" + f
            src = open(p).read()
            for ln, what, old, new, m in mutants(src):
                key = hashlib.md5((f + m).encode()).hexdigest()
                if key not in done:
                    jobs.append((f, ps, ln, what, old, new, m, key, src))
    import random
    random.Random(1).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    if "-l" in args:
        return
    fo = open(out, "a")

    def run(job):
        f, ps, ln, what, old, new, m, key, src = job
        c, v = q.get()
        try:
            open(c + "/pycomlink/" + f, "w").write(m)
            r = ns(c, v, "cd /repo && bash /opt/vp/test.sh %s/o.json" % c, 300)
            try:
                n = len(json.load(open(c + "/o.json"))["passed"])
                os.remove(c + "/o.json")
            except Exception:
                n = -1
            st = "killed"
            info = ""
            if n >= 45:
                st = "SURVIVED"
                for p in ps.split():
                    r = ns(c, v, "cd /verif && ./check %s quick --nproc 1 --budget 150" % p, 900)
                    if "VIOLATION property=" in r.stdout:
                        st = "caught " + p
                        break
                    info += "%s:%d " % (p, r.returncode)
            rec = dict(key=key, file=f, line=ln, kind=what, old=old, new=new, status=st, info=info)
            fo.write(json.dumps(rec) + "\n")
            fo.flush()
            if st == "SURVIVED":
                print("%s:%d %s  %r -> %r %s" % (f, ln, what, old, new, info), flush=True)
        finally:
            open(c + "/pycomlink/" + f, "w").write(src)
            q.put((c, v))

    with ThreadPoolExecutor(j) as ex:
        list(ex.map(run, jobs))


if __name__ == "__main__":
    main()
