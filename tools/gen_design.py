"""Writes DESIGN.md from the texts here, the modules' RULE/ASSUMPTIONS, checks.json and the planted bugs."""
import ast, glob, json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = json.load(open(os.path.join(ROOT, "tools", "checks.json")))
seeded = {}
for p in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(p))
    seeded.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(p)), d["needs"]))
notes = json.load(open(os.path.join(ROOT, "tools", "design_notes.json")))
head = open(os.path.join(ROOT, "tools", "design_head.md")).read()
tail = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
out = [head]
out.append("## Per property\n")
for p in props:
    i = p["id"]
    src = open(os.path.join(ROOT, "props", i.lower() + ".py")).read()
    c = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id in ("RULE", "ASSUMPTIONS", "QUICK_S"):
                c[n.targets[0].id] = ast.literal_eval(n.value)
            if isinstance(n.targets[0], ast.Name) and n.targets[0].id == "QUICK":
                c["Q"] = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple):
            names = [getattr(t, "id", None) for t in n.targets[0].elts]
            if "QUICK" in names:
                c["Q"], c["T"] = ast.literal_eval(n.value)
    out.append(f"### {i} {p['title']}\n")
    out.append(f"* *Cases.* {c['RULE']}")
    out.append(f"* *Oracle.* {checks[i][0]}.")
    out.append(f"* *Bounds and limits.* {checks[i][1]} Quick: up to {8 * c['Q']} cases or about {c.get('QUICK_S', 45)} s "
               f"on 8 processes; thorough: up to {8 * c['T']} cases or 10 min.")
    if c.get("ASSUMPTIONS"):
        out.append("* *Assumed.* " + "; ".join(c["ASSUMPTIONS"]) + ".")
    out.append(f"* *Why tests cannot.* {p['why_tests_cant']}")
    if notes.get(i):
        out.append(f"* *History of the check.* {notes[i]}")
    if seeded.get(i):
        out.append("* *Planted bugs* (all caught by the quick check): " + "; ".join(f"`{n}` ({w})" for n, w in seeded[i]) + ".")
    out.append("")
out.append(tail)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
