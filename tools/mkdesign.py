"""writes /verif/DESIGN.md: the fixed text, per property its statement, level, limits and contracts, and the planted bugs"""
import json, os, sys, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from config import CHECKS
from dv import spec
HOW = {}
exec(open(V + "/tools/design_how.py").read())
out = [open(V + "/tools/design_head.md").read()]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    c = CHECKS.get(i)
    out.append("### %s %s\n\n" % (i, p["title"]))
    if not c:
        out.append("Not claimed.\n\n")
        continue
    out.append("Level: %s. %s\n\n" % (c["level"], HOW.get(i, "")))
    out.append("Bounds and trust: %s.\n\n" % c["note"].rstrip("."))
    if os.path.exists(V + "/specs/%s.py" % i):
        importlib.import_module("specs." + i)
        s = [x for x in spec.SPECS if x.prop == i]
        if s:
            out.append("Contracts (%d): %s.\n\n" % (len(s), "; ".join(x.name + ("" if x.tier == "quick" else " (thorough tier)") for x in s)))
out.append(open(V + "/tools/design_tail.md").read())
out.append("\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n")
caught = json.load(open(V + "/tools/caught.json"))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = f.split("/")[-2]
    out.append("| %s | %s | %s | %s | %s |\n" % (n, m["property"], m["what_it_breaks"], m["needs"], caught.get(n, "?")))
open(V + "/DESIGN.md", "w").write("".join(out))
