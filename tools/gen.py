"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, NOTES  # noqa

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        st = p["statement"]
        assert len(p["title"]) <= 80, p["id"]
        assert p["files"] and p["mechanism"], p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": st,
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    if not os.path.exists(os.path.join(ROOT, "lib", "checks", p["id"].lower() + ".py")):
        print("no check yet:", p["id"])
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 lib/check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 lib/check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"],
                   "level": p.get("level", "exploration"),
                   "level_note": p["note"]})
man = {"version": 1, "setup_cmd": "python3 lib/setup.py",
       "hooks": {"guard": "none", "enable": "no hook is needed: the checks observe the files, exit status, console and "
                 "sanitizer reports of the unmodified program, built with sanitizers by lib/vbuild.py",
                 "source_commits": []},
       "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
       "notes": NOTES}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
