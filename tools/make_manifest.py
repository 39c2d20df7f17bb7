#!/usr/bin/python3
"""Write MANIFEST.json from sa/props.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from sa.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "No check built yet.")))
m = dict(version=1, setup_cmd="python3 -c 'import sa.checks'", checks=checks, not_applicable=na,
         notes="All checks are static analyses of /repo's current source (python3 standard library, and PyYAML for the YAML data of the bundled transliterators); nothing of /repo is imported or run.")
with open(os.path.join(R, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
