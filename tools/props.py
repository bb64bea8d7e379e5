"""Single source of the property list: writes properties.jsonl and
MANIFEST.json.  A property with a module checks/<id>.py is claimed; one
without gives its reason for not being claimed in `na`."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None,
         observe=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text},
                  why_tests_cant=why,
                  anchors={"files": files,
                           "mechanism": [{"name": a, "where": b}
                                         for a, b in mech],
                           **({"state": [dict(name=a, meaning=b, where=c)
                                         for a, b, c in state]}
                              if state else {}),
                           **({"observe_at": observe} if observe else {}),
                           "hook_needed": None},
                  technique=technique, note=note, na=na))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in (
            "id", "title", "statement", "quantifier", "why_tests_cant",
            "anchors")}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 sa/harness.py " + p["id"],
            "thorough_cmd": "python3 sa/harness.py %s --thorough" % p["id"],
            "technique": p["technique"] or "static dataflow analysis",
            "level": "other",
            "level_note": p["note"] or
            "Sound for the listed rules over every abstract path of the "
            "analysed functions; trusts clang's type-checked syntax tree and "
            "the documented behaviour of library containers."})
    else:
        na.append({"property": p["id"], "reason": p["na"] or
                   "no check has been built yet"})
M = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'sa'); "
                  "import facts; print(facts.extractor())\"",
     "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of /repo's current source; "
              "none runs code of the repository. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
