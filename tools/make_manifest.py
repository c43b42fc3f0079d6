"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.argv = ["x"]
import check
NA = json.load(open("tools/not_applicable.json")) if os.path.exists("tools/not_applicable.json") else {}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
TECH = {"both": "value-graph equivalence against a specification (abstract interpretation of the source) plus source effect rules",
        "ob": "value-graph equivalence against a specification (abstract interpretation of the source, gated joins, closed-form loops)",
        "rule": "source rules: effect, alias and call-graph analysis over the syntax tree"}
for p in props:
    i = p["id"]
    obs, rules = check.collect(i)
    if i in NA or not (obs or rules):
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
        continue
    t = TECH["both" if obs and rules else "ob" if obs else "rule"]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=t, level="other",
                       level_note="%d specification obligations and %d source rules; every run re-reads /repo's source, which is never executed. "
                                  "Trusts the library model (numpy, scipy, builtins) in sa/npmodel.py, treats floating point as real arithmetic, and accepts "
                                  "equality of differing normal forms after a randomised identity test." % (len(obs), len(rules))))
m = dict(version=1, setup_cmd="python3 -m compileall -q sa check.py", checks=checks, not_applicable=na)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable:", [x["property"] for x in na])
