"""writes /verif/MANIFEST.json from config.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from config import CHECKS
NA = {}
try:
    from config import NOT_APPLICABLE as NA
except ImportError:
    pass
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    c = CHECKS.get(i)
    if c is None:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    checks.append({"property": i, "quick_cmd": "python3-vt /verif/check.py --property %s --tier quick" % i,
                   "thorough_cmd": "python3-vt /verif/check.py --property %s --tier thorough" % i,
                   "technique": "contract-based deductive verification of the LLVM IR of the real functions (z3/cvc5); "
                                "executable contract as bounded stand-in and replay",
                   "level": c["level"], "level_note": c.get("note", "")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "contracts in /verif/specs, verifier in /verif/dv, executable contracts in /verif/harness; see DESIGN.md"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
