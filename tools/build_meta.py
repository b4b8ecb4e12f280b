#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one table)."""
import json
import os
import sys

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from props import NOTES, PROPS, UNCLAIMED  # noqa: E402

lines, checks, na = [], [], []
for p in PROPS:
    lines.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}})
    assert len(p["title"]) <= 80, p["id"]
    if p["id"] in UNCLAIMED:
        na.append({"property": p["id"], "reason": UNCLAIMED[p["id"]]})
    elif not os.path.exists(os.path.join(R, "checks", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "the check is not built yet (work in progress)"})
    else:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
            "technique": p.get("technique", "symbolic execution of the real Python code (inputs, configurations and "
                               "histories as symbolic variables), every obligation discharged by z3; counterexamples "
                               "replayed on the real code"),
            "level": p.get("level", "other"), "level_note": p["note"],
            "evidence_file": f"evidence/{p['id']}.json"})
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for x in lines:
        f.write(json.dumps(x) + "\n")
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./check.sh --selftest", "checks": checks, "not_applicable": na,
               "notes": NOTES}, f, indent=1)
    f.write("\n")
print(len(lines), "properties,", len(checks), "checks,", len(na), "not applicable")

# DESIGN.md: head + one section per property + the seeded changes
import ast  # noqa: E402
import re  # noqa: E402
from design_notes import D, MISSED_FIRST  # noqa: E402

out = [open(os.path.join(R, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in PROPS:
    i = p["id"]
    f = os.path.join(R, "checks", i.lower() + ".py")
    t = ast.parse(open(f).read())
    c = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign)
         and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS")}
    how, limits, cost = D[i]
    out += [f"### {i} {p['title']}", "", re.sub(r"\s*\n\s*", " ", ast.get_docstring(t)), "",
            f"* Decided by: {how}", f"* Bounds: {c.get('BOUNDS', 'as C01')}."]
    out += [f"* Assumed: {a}." for a in c.get("ASSUMPTIONS", [])]
    if limits:
        out.append(f"* Limits, not claimed: {limits}")
    out += [f"* Why tests cannot: {p['why']}.", f"* Cost (quick): {cost}. Level `{p.get('level', 'other')}`.", ""]
out += ["## Seeded changes", "", "Each was confirmed to build, to pass the stable tests, and to fail its demonstration. "
        "All are caught; those marked * were missed at first and led to a stronger check.", "",
        "| change | caught by | needs |", "|---|---|---|"]
S = os.path.join(R, "seeded")
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, d, "meta.json")))
    out.append(f"| {d}{'*' if d in MISSED_FIRST else ''} | {m['property']} | {m['needs']} |")
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out) + "\n")
