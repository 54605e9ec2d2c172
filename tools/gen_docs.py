#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py.  A property is claimed when its check exists."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props
checks, na = [], []
for q in props.P:
    i = q["id"]
    assert len(q["title"]) <= 80, q["title"]
    if os.path.exists(os.path.join(HERE, "fv", "checks", i.lower() + ".py")):
        t, note = props.TECH[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "the check is not built yet")})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for q in props.P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
               "notes": "All checks are static: they read /repo's source (ast) and never import or run it. No hooks in /repo."}, f, indent=1, ensure_ascii=False)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
