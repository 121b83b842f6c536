"""Writes MANIFEST.json from properties.jsonl and the modules in props/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = "property-based testing (Hypothesis): generated programs vs. "
INFO = json.load(open(os.path.join(V, "tools", "checks.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "props", p.lower() + ".py")) and p in INFO:
        t, note = INFO[p]
        checks.append({
            "property": p,
            "quick_cmd": f"/opt/venv/bin/python -B run.py {p} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python -B run.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH + t,
            "level": "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check imports psygnal from /repo/src at run time; nothing is built or cached between runs. "
             "No hooks were added to /repo. Replay: run.py <ID> --replay <file>.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
