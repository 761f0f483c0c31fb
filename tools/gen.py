#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py, and validates both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
ids = [p["id"] for p in props]
assert len(set(ids)) == len(ids)
man = dict(version=1, setup_cmd="bash harness/build.sh /repo base mux jit asan asan-mux tsan tsan-mux", checks=[], not_applicable=[],
           notes="No hooks in /repo: the monitors sit in the host process (operations handler, V8 binding shim, client side). See DESIGN.md.")
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        assert p["id"] in checks.NOT_APPLICABLE, p["id"]
        man["not_applicable"].append(dict(property=p["id"], reason=checks.NOT_APPLICABLE[p["id"]]))
        continue
    man["checks"].append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
        technique=c["technique"], level="exploration", level_note=c["level_note"]))
for k in checks.CHECKS: assert k in ids, k
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in props:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
        assert len(p["title"]) <= 80
    print("valid", len(props), "properties", len(man["checks"]), "checks")
except ImportError:
    print("jsonschema missing (run with python3-vt)")
