# writes /verif/MANIFEST.json from properties.jsonl and checks.py
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib")
from checks import CHECKS, NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
T = "symbolic execution of the compiled library (clang bitcode, own engine vsym) with SMT solving (Z3); every model is replayed on the native sanitizer build"
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": T, "level": c.get("level", "model_checking"), "level_note": c.get("bounds", "") or "bounded; bounds per harness are in the evidence file"})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
m["notes"] = "Bounds and assumptions per property: DESIGN.md and evidence/<id>.json. Genuine defects: known_findings.json."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
