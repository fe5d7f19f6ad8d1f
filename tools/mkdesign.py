"""Write DESIGN.md from the fixed text below, the rules declared by the checks, the notes, the fixes and the planted bugs."""
import os, sys, json, re, ast, glob
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(D, "tools"))
import notes


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


HEAD = open(os.path.join(D, "tools", "design_head.md")).read()
TAIL = open(os.path.join(D, "tools", "design_tail.md")).read()
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
find = json.load(open(os.path.join(D, "known_findings.json")))["findings"]
out = [HEAD, "\n## 4. Per property: what is specified, generated and observed\n"]
for p in props:
    i = p["id"]
    c = consts(os.path.join(D, "checks", i.lower() + ".py"))
    tech, note = notes.NOTE[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Method.* %s. %s\n" % (tech[0].upper() + tech[1:], note.replace(" Sampled executions, not all inputs.", "")))
    out.append("*Workload.* %s\n" % re.sub(r"\s+", " ", c.get("RULE", "")))
    if c.get("ASSUMPTIONS"):
        out.append("*Assumptions and tolerances.* %s.\n" % "; ".join(c["ASSUMPTIONS"]))
    fx = [f for f in find if f["property"] == i and f["status"] == "fixed"]
    op = [f for f in find if f["property"] == i and f["status"] != "fixed"]
    if fx:
        out.append("*Defects repaired.* " + "; ".join("%s (%s)" % (re.sub(r"^fixed: property=\S+ \S+ ", "", f["what"]), f["commit"]) for f in fx) + ".\n")
    if op:
        out.append("*Open findings.* " + "; ".join(f["what"] for f in op) + ".\n")
out.append("\n## 5. Planted bugs\n\nAll of them pass the repository's stable tests and are caught by the quick check (seed 1) of the property named. "
           "Each has a demonstration beside it.\n\n| seed | caught by | what it breaks | needs |\n|---|---|---|---|\n")
for f in sorted(glob.glob(os.path.join(D, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    e = lambda t: re.sub(r"\s+", " ", str(t)).replace("|", "/")
    out[-1] += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], e(m["what_it_breaks"]), e(m["needs"]))
out.append(TAIL)
open(os.path.join(D, "DESIGN.md"), "w").write("\n".join(out))
