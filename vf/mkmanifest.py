"""Writes MANIFEST.json for the properties that have a check."""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
ck, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/vf/props/{i.lower()}.py"):
        ck.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"./run.sh {i} --tier thorough",
                       technique="property-based testing: generated inputs (Hypothesis, shrinking to a replay file) against an independent reference",
                       level="exploration",
                       level_note="generated-input search against an explicit oracle; counts, classes and samples in the evidence file; domain and bounds in DESIGN.md"))
    else:
        na.append(dict(property=i, reason="check not written yet"))
json.dump(dict(version=1, setup_cmd="true", checks=ck, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(ck), len(na))
