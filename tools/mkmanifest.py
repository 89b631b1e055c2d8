"""Writes /verif/MANIFEST.json from the list of properties and the scenario registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import registry, evidence_text
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = evidence_text.NOT_APPLICABLE
checks = []
for p in props:
    if p in NA or p not in registry.SCENARIOS:
        continue
    t = evidence_text.TEXT[p]
    checks.append(dict(property=p, quick_cmd="bin/check %s --tier quick" % p, thorough_cmd="bin/check %s --tier thorough" % p,
                       technique=t["technique"], level="exploration", level_note=t["note"]))
missing = [p for p in props if p not in NA and p not in registry.SCENARIOS]
doc = dict(version=1, setup_cmd="bin/setup", checks=checks,
           not_applicable=[dict(property=p, reason=NA[p]) for p in props if p in NA] +
                          [dict(property=p, reason="check still being built") for p in missing])
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", missing)
