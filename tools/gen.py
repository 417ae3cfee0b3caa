#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py; a property is claimed when the
harness has a check for it."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import props

have = set()
for f in os.listdir(f"{root}/harness/src/props"):
    have |= set(re.findall(r'^\s*id: "(C\d+)"', open(f"{root}/harness/src/props/{f}").read(), re.M))

with open(f"{root}/properties.jsonl", "w") as out:
    for q in props.PROPS:
        assert len(q["title"]) <= 80, q["id"]
        d = {"id": q["id"], "title": q["title"], "statement": q["statement"],
             "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
             "anchors": {"files": q["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in q["mech"]],
                         "observe_at": q["observe"], "hook_needed": None}}
        if q["state"]:
            d["anchors"]["state"] = q["state"]
        out.write(json.dumps(d, ensure_ascii=False) + "\n")

checks = []
na = []
for q in props.PROPS:
    i = q["id"]
    if i in have and i not in props.NOT_APPLICABLE:
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i}",
                       "thorough_cmd": f"bash run.sh {i}",
                       "technique": "property-based testing: " + q["technique"],
                       "level": "exploration", "level_note": q["note"]})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, props.PENDING)})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Generated by tools/gen.py. One harness binary (harness/) decides every property; see DESIGN.md."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{root}/MANIFEST.json", "a").write("\n")
extra = have - {q["id"] for q in props.PROPS}
print("claimed", len(checks), "not claimed", [n["property"] for n in na], "unlisted", sorted(extra))
