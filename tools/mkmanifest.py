"""writes MANIFEST.json from the worlds that exist"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run
NA = {
    "V01": "pure functions of their inputs: version comparison and specifier algebra involve no concurrency, time, I/O or second party, so there is no schedule or fault for a simulator to decide",
    "V02": "pure text-to-data functions: the part of the configuration layer that depends on I/O and crashes is claimed as C01; the round trip of arbitrary text itself has no schedule, clock or fault to simulate",
    "V03": "pure functions of their inputs: dependency and marker parsing involve no concurrency, time, I/O or second party",
}
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists(f"{HERE}/worlds/{i.lower()}.py"):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    c = run.world_consts(i)
    checks.append({"property": i, "quick_cmd": f"python3 run.py check {i} --tier quick",
                   "thorough_cmd": f"python3 run.py check {i} --tier thorough",
                   "technique": "deterministic simulation with fault injection: " + c.get("TECHNIQUE", "seeded search over schedules, workloads and fault placements"),
                   "level": c.get("MLEVEL", "exploration"), "level_note": c.get("LEVEL_NOTE", c["__doc__"])[:600]})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "hooks": {"guard": "none", "enable": "none needed: every seam is patched from /verif at import time", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(checks), len(na))
except ImportError:
    print("written")
