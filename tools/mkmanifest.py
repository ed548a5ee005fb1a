"""Writes /verif/MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ.setdefault("VF_NO_Z3", "1")
from vf import registry, notes
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPERTIES:
        R = registry.PROPERTIES[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
            technique=R.get("technique", "contract-based deductive verification: contracts on the real functions, obligations generated from clang IR of /repo by vf and discharged by z3/cvc5"),
            level=R.get("level", "proof"), level_note=notes.NOTES[i] + notes.ALL))
    else:
        na.append(dict(property=i, reason=notes.NOT_APPLICABLE[i]))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="Every check rebuilds the IR from /repo's working tree; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
