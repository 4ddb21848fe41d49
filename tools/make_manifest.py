"""Writes MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NOTES = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i)
    if n is None or not os.path.exists(os.path.join(ROOT, "pydv", "props", i + ".py")):
        na.append({"property": i, "reason": (n or {}).get("reason", "contract not yet written in this revision")})
        continue
    cmd = f"/opt/venv/bin/python -W ignore -m pydv.check {i}"
    checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": f"evidence/{i}.json",
                   "technique": "contract-based deductive verification of the Python source (symbolic weakest-precondition "
                                "execution with contracts and inductive loop summaries, ring normaliser + SMT)",
                   "level": n.get("level", "proof"), "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q pydv", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: every check reads /repo/src on each run."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
