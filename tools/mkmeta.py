#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; both files are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FS = "fault_sequences"; IN = "inputs"; SC = "schedules"; HI = "histories"; CP = "crash_points"; PR = "programs"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=(), claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=list(observe), claimed=claimed, reason=reason))
NOTE = "Seeded random search over generated programs, schedules and injected faults with the real jsish code on a simulated kernel; not exhaustive. Trusts the simulated kernel and the check's reference model. "

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
m = {"version": 1, "setup_cmd": "python3 -m vlib.build",
     "hooks": {"guard": "JSI_USER_EXTENSION", "enable": "no hook was added to /repo: the checks compile /repo's sources with the project's own JSI_USER_EXTENSION seam pointing at the simulator's script commands, and redirect libc and sqlite symbols at link time", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
                 "level": "exploration", "level_note": NOTE + p["note"]} for p in P if p["claimed"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")
