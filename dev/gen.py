#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from lib/props.py and lib/spec.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import props, spec
ids = [p["id"] for p in props.P]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in props.P:
    i = p["id"]
    if i in spec.CHECKS:
        c = spec.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": spec.NOT_APPLICABLE.get(i, "TODO: planned, no check built yet")})
for i in spec.CHECKS:
    assert i in ids, i
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. All checks are static: they compile drivers of /verif against /repo/include to LLVM IR (or type-check witnesses) and analyse the result; nothing from /repo is executed."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na if x["reason"].startswith("TODO")])
import glob
t = open(os.path.join(ROOT, "dev/design.tpl")).read()
nas = "\n".join("* **%s** %s: %s" % (p["id"], p["title"], spec.NOT_APPLICABLE.get(p["id"], "")) for p in props.P if p["id"] not in spec.CHECKS) or "(none)"
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    d = json.load(open(f)); rows.append((d["property"], "| %s | %s: %s | check %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["what_it_breaks"], d.get("caught_by", d["property"]))))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t.replace("@@NA@@", nas).replace("@@SEEDS@@", "\n".join(r for _, r in sorted(rows))))
