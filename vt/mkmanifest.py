"""Writes MANIFEST.json from checks.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
c = json.load(open(os.path.join(H, "checks.json")))
py = "/opt/venv/bin/python"
m = {"version": 1,
     "setup_cmd": py + " -c \"import sys; print(sys.version)\"",
     "checks": [{"property": p, "quick_cmd": f"{py} vt/run.py {p} --tier quick",
                 "thorough_cmd": f"{py} vt/run.py {p} --tier thorough",
                 "technique": v.get("technique", "property-based testing (Hypothesis) against an independent reference model"),
                 "level": "exploration", "level_note": v.get("level_note", "sampled inputs compared with an independent oracle; no proof")}
                for p, v in sorted(c.items())],
     "not_applicable": json.load(open(os.path.join(H, "not_applicable.json"))),
     "notes": "see DESIGN.md"}
json.dump(m, open(os.path.join(os.path.dirname(H), "MANIFEST.json"), "w"), indent=1)
