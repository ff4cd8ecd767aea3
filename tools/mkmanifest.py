"""Regenerates MANIFEST.json from properties.jsonl and the check modules present in pbt/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
notes = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "pbt", "props", i.lower() + ".py")):
        n = notes.get(i, {})
        checks.append(dict(
            property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="property-based testing (Hypothesis): " + n.get("oracle", "generated inputs against an independent oracle"),
            level="exploration",
            level_note="Holds on every generated case of the run (counts and samples in the evidence file); no claim beyond the "
                       "generated space. Trusts the oracles in pbt/oracle.py, numpy/scipy and the coded tolerances. "
                       + n.get("note", "")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Every check is a set of generator-driven sub-checks in pbt/props/<id>.py run by pbt/run.py from the code in /repo "
               "(numba compiles it afresh in a scratch cache). Replay a reported case with ./check --replay FILE.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
