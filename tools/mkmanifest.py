"""Write MANIFEST.json for the properties that have components."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C10": "stateful property-based testing against a numpy model of the mesh",
    "C12": "stateful property-based testing against a model of the accumulated motion",
    "C19": "property-based testing, round trip and behavioural equality over generated histories",
    "C20": "stateful property-based testing with deep snapshots",
    "C09": "property-based testing, metamorphic relations",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "vf", "props", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
            technique=TECH.get(i, "property-based testing (Hypothesis) against an independent reference model"),
            level="exploration",
            level_note="Generated-input search with shrinking; the oracle and its tolerances are in vf/props/%s.py. "
                       "Holds on everything explored, not beyond; counts and rules are in the evidence file." % i.lower()))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 vf/boot.py", checks=checks, not_applicable=na,
         notes="Hypothesis is unpacked from the offline wheelhouse into the git-ignored .vendor folder; no hooks in /repo.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
