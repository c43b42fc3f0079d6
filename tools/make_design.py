"""Assembles DESIGN.md: tools/design_body.md, the planted-bug table and the registered obligations."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)
import check
body = open("tools/design_body.md").read()
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open("seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "?")))
out = [body.replace("SEEDTABLE", "\n".join(rows)), "## 6. Obligations and rules per property (generated)", ""]
for l in open("properties.jsonl"):
    p = json.loads(l)
    obs, rules = check.collect(p["id"])
    if not obs and not rules:
        continue
    out.append("**%s** %s. " % (p["id"], p["title"]) + "Obligations: " + ", ".join(n for _, n in obs) + "." +
               (" Rules: " + ", ".join(n for _, n in rules) + "." if rules else "") +
               (" Witness mode over every other obligation: %s." % check.MODES[p["id"]] if p["id"] in check.MODES else "") + "\n")
open("DESIGN.md", "w").write("\n".join(out))
