"""Write MANIFEST.json from the implemented checks (aptv/props/pNN.py) and the property list."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

TECHNIQUE = {}
exec(open(os.path.join(ROOT, "tools", "techniques.py")).read())

checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    prop = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "aptv", "props", prop.lower() + ".py")) and prop in TECHNIQUE:
        technique, note = TECHNIQUE[prop]
        checks.append(
            {
                "property": prop,
                "quick_cmd": f"{PY} run.py {prop} --tier quick",
                "thorough_cmd": f"{PY} run.py {prop} --tier thorough",
                "technique": technique,
                "level": "exploration",
                "level_note": note,
            }
        )
    else:
        missing.append({"property": prop, "reason": "no check yet"})
manifest = {
    "version": 1,
    "setup_cmd": f"{PY} aptv/deps.py",
    "checks": checks,
    "not_applicable": missing,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", "missing", [m["property"] for m in missing])
