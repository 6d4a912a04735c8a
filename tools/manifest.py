"""Writes MANIFEST.json: every property with a check is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
 "default": "TLC judges recorded behaviour of the real code (built from /repo's working tree) against the TLA+ specification, on TLC-enumerated and seeded inputs; trusts TLC, the Real64 arithmetic overrides and the harness.",
}
notes_path = os.path.join(here, "tools", "notes.json")
if os.path.exists(notes_path):
    NOTE.update(json.load(open(notes_path)))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "lib", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "bin/check " + i,
                       "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC; trace validation of the real code against it",
                       "level": "model_checking", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the harnesses include its sources, replace the random engine by a forced include, and read its output files."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
