#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vlib/props.py and vlib/specs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.props import PROPS, NA
from vlib.specs import SPECS
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(R + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}}) + "\n")
TRUST = "Holds for every value within the stated bounds; beyond them nothing is claimed. Trusts the executor, clang's lowering, Z3 and the model of the C++ runtime (shim/); every counterexample is replayed natively before it is reported, and sampled paths are replayed to compare observations."
checks = []
for p in PROPS:
    if p["id"] not in SPECS:
        assert p["id"] in NA, p["id"]
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "symbolic execution of the LLVM IR of the current sources with an SMT solver (Z3), counterexamples replayed natively",
                   "level": "model_checking", "level_note": "Bounds: %s. %s" % (p["bounds"], TRUST)})
man = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
       "notes": "No hooks in /repo: the checks compile its sources unchanged."}
json.dump(man, open(R + "/MANIFEST.json", "w"), indent=1)
d = open(R + "/DESIGN.md").read()
a, b = "<!-- properties: generated by tools/gen.py -->", "<!-- end of generated part -->"
if a in d:
    t = ""
    for p in PROPS:
        s = SPECS.get(p["id"])
        t += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
        if not s:
            t += "Not applicable: %s\n\n" % NA[p["id"]]
            continue
        t += "- harness: %s\n" % ", ".join(sorted(set("`harness/%s`" % h["src"] for h in s["harnesses"])))
        t += "- symbolic / quantified: %s\n- bounds: %s\n- outside: %s\n" % (p["qtext"], p["bounds"], p["outside"] or "-")
        if p["assumptions"]: t += "- assumes: %s\n" % "; ".join(p["assumptions"])
        if p["how"]: t += "- %s\n" % p["how"]
        t += "- tests: %s\n\n" % p["why"]
    d = d[:d.index(a) + len(a)] + "\n\n" + t + d[d.index(b):]
    open(R + "/DESIGN.md", "w").write(d)
print(len(PROPS), "properties,", len(checks), "checks")
