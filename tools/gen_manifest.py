"""Writes MANIFEST.json: one check per property that has a harness module."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(root, "tools", "levels.json")))
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(root, "harness", "check_%s.py" % pid.lower())):
        n = NOTES.get(pid, {})
        checks.append({"property": pid, "quick_cmd": "bash check.sh %s quick" % pid,
                       "thorough_cmd": "bash check.sh %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": n.get("technique", "TLA+ specification checked by TLC; every emitted transition replayed on the real code"),
                       "level": "model_checking",
                       "level_note": n.get("note", "Exhaustive over the specification's bounded state graph; every transition is replayed on the implementation with seeded concrete values. Trusts TLC, the replay adapter and the numeric tolerance.")})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. No hooks in /repo are needed: the public API exposes the abstract state. All /repo commits are fix: commits, recorded in known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
