"""Writes MANIFEST.json from the scenarios that exist."""
import ast
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C18": "Pure string functions: no scheduling, time, I/O or multi-party behaviour for the outcome to depend on.",
    "C19": "Grammar conformance of a pure function from text to graph: no scheduling, time, I/O or fault can influence it, so the deciding step would be input fuzzing against a second parser, not simulation. (Delivery, overlap and failure of Turtle parses are C05-C07; round trips C09.)",
}
scen = {}
for f in sorted(os.listdir(os.path.join(V, "scenarios"))):
    m = re.match(r"c(\d\d)_.*\.py$", f)
    if m:
        consts = {}
        for node in ast.parse(open(os.path.join(V, "scenarios", f)).read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                try:
                    consts[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
        scen["C" + m.group(1)] = consts
checks, na = [], []
for p in props:
    i = p["id"]
    if i in scen:
        c = scen[i]
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": c.get("TECHNIQUE", "deterministic simulation: seeded search over histories, schedules and injected faults against a reference model"),
            "level": c["LEVEL"],
            "level_note": c["RULE"] + " Assumes/trusts: " + " ".join(c["ASSUMPTIONS"]) + " The reference model and the seams are trusted; absence of a violation covers the seeds run, not all of them.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/selftest.py --smoke",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks were added to /repo: every seam is put in place from /verif (see DESIGN.md). /repo carries only fix: commits, listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
