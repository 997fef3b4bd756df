"""writes MANIFEST.json for the properties that have a module in mc/"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc", i.lower() + ".py")) and i in notes:
        checks.append({"property": i, "quick_cmd": "./run.sh %s --tier quick" % i, "thorough_cmd": "./run.sh %s --tier thorough" % i,
                       "technique": notes[i]["technique"], "level": "model_checking", "level_note": notes[i]["note"]})
    else:
        na.append({"property": i, "reason": "model checking applies; the check is still being built"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
