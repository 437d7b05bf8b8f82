"""Writes properties.jsonl and MANIFEST.json from lib/props.py, for the properties that have a check."""
import json, os, sys
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, os.path.join(V, "lib"))
import props as X
checks, lines = [], []
for id, p in sorted(X.PROPS.items()):
    have = os.path.exists(os.path.join(V, "checks", id + ".py"))
    if not have and id not in X.NOT_APPLICABLE:
        continue
    assert len(p["title"]) <= 80, p["title"]
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
    lines.append(json.dumps({
        "id": id, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"] or ["the Python API of the package"], "hook_needed": None}}))
    if have:
        checks.append({"property": id, "quick_cmd": f"bin/check {id}", "thorough_cmd": f"bin/check {id} --tier thorough",
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"].strip()})
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "bin/stage.sh", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(X.NOT_APPLICABLE.items())]},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
