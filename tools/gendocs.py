#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: go/ssa to verification conditions, modular contracts, discharged by z3"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), claimed=True, level="proof", note="", reason="", technique=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, claimed=claimed, level=level, note=note, reason=reason, technique=technique))

exec(open(os.path.join(V, "tools", "properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bin/check setup",
     "checks": [{"property": p["id"], "quick_cmd": "bin/check " + p["id"], "thorough_cmd": "bin/check " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"],
                 "level_note": p["note"]} for p in P if p["claimed"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
     "notes": "No hooks in /repo: the verifier reads the package's SSA form and the replay harness goes in through go test -overlay."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
