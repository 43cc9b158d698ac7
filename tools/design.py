"""Write DESIGN.md: hand-written sections (tools/design/*.md) plus one section per property built from the property modules, evidence and seeded/."""
import ast, glob, json, os, re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def attrs(f):
    t = ast.parse(open(f).read())
    out = {"doc": ast.get_docstring(t) or ""}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def notes():
    out = {}
    for l in re.split(r"^## ", open(os.path.join(H, "tools/design/oracles.md")).read(), flags=re.M)[1:]:
        k, v = l.split("\n", 1)
        out[k.strip()] = v.strip()
    return out


def main():
    P = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
    man = json.load(open(os.path.join(H, "MANIFEST.json")))
    na = {x["property"]: x["reason"] for x in man["not_applicable"]}
    kf = json.load(open(os.path.join(H, "known_findings.json")))
    cost = json.load(open(os.path.join(H, "tools/design/cost.json")))
    N = notes()
    o = [open(os.path.join(H, "tools/design/head.md")).read().rstrip(), "", "## Properties", ""]
    for p in P:
        i = p["id"]
        o += ["### %s %s" % (i, p["title"]), ""]
        if i in na:
            o += ["Not applicable: " + na[i], ""]
            continue
        a = attrs(glob.glob(os.path.join(H, "props", i.lower() + "_*.py"))[0])
        o += [N.get(i, ""), ""]
        o += ["- Code executed symbolically: " + ", ".join("`%s`" % f for f in a.get("FUNCTIONS", []))]
        o += ["- Bounds: " + a.get("BOUNDS", "")]
        o += ["- Outside: " + a.get("OUTSIDE", "nothing else")]
        if a.get("ASSUMPTIONS"):
            o += ["- Assumed: " + "; ".join(a["ASSUMPTIONS"])]
        if a.get("STUBS"):
            o += ["- Stubs: " + "; ".join(a["STUBS"])]
        if i in cost:
            o += ["- Cost (8 cores): " + cost[i]]
        o += [""]
    o += [open(os.path.join(H, "tools/design/tail.md")).read().rstrip(), ""]
    o += ["## Planted bugs and the checks that catch them", ""]
    o += ["`seeded/<id>/` holds every planted bug with its demonstration. All of them pass the repository's tests, and each is caught by the quick tier of the check of its property. "
          "A star marks bugs that were missed when they were first planted; the check was then strengthened by the class of inputs or histories the bug needs (see `meta.json`, `needs`), not by its values.", ""]
    late = set(open(os.path.join(H, "tools/design/late.txt")).read().split())
    by = {}
    for f in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json")), key=lambda f: int(re.search(r"/S(\d+)", f).group(1))):
        n = os.path.basename(os.path.dirname(f))
        by.setdefault(json.load(open(f))["property"], []).append(n + ("*" if n.split("-")[0] in late else ""))
    o += ["- %s: %s" % (k, ", ".join(by[k])) for k in sorted(by)] + [""]
    o += ["## Defects found on the original tree", "", "Repaired (one `fix:` commit each):", ""]
    o += ["- " + x[len("fixed: "):] for x in kf["fixed"]]
    o += ["", "Recorded in known_findings.json (not repaired):", ""]
    o += ["- %s (%s, case \"%s\"): %s" % (x["id"], x["property"], x["case"], x["what"]) for x in kf["findings"]]
    o += [""]
    open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(o) + "\n")


main()
