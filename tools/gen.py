#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and sa/registry.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(R, "tools"), os.path.join(R, "sa")]
import props, registry
lines, checks, na = [], [], []
for p in sorted(props.P, key=lambda x: x["id"]):
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        a["state"] = p["state"]
    if p["observe"]:
        a["observe_at"] = p["observe"]
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                             "why_tests_cant": p["why"], "anchors": a}))
    if p["claim"]:
        mod, level, tech = registry.CHECKS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": f"python3 sa/check.py {p['id']} quick", "thorough_cmd": f"python3 sa/check.py {p['id']} thorough",
                       "technique": "static analysis: " + tech, "level": level, "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["reason"]})
open(os.path.join(R, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Generated by tools/gen.py from tools/props.py. No hooks in /repo: the analysis reads the compiler's MIR of the unmodified build."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
