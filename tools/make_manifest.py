"""Writes MANIFEST.json from the checks that exist"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
TECH = "TLA+ specification checked with TLC; histories generated from the specification and at random are run on the real code and the recorded traces are validated against the specification with TLC (conformance in both directions)"
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"{V}/checks/{i.lower()}.py"
    if os.path.exists(f):
        note = ""
        for l in open(f):
            if l.startswith("# NOTE: "):
                note = l[8:].strip()
        checks.append({"property": i, "quick_cmd": f"python3 /verif/run.py {i} --tier quick",
                       "thorough_cmd": f"python3 /verif/run.py {i} --tier thorough",
                       "technique": TECH, "level": "model_checking",
                       "level_note": note or "Specification model-checked within small constants; implementation bound by trace validation of every generated history (bounded inputs)."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
hooks = {"guard": "cargo feature `_internals` (already present upstream); no hooks were added", "enable": "none", "source_commits": []}
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "hooks": hooks, "checks": checks, "not_applicable": na}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
