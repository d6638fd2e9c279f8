"""one.py ID IDX [SEED] [TIER]: executes one run and prints its log and result"""
import json, os, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import runner
runner.preload()
w = runner.load_world(sys.argv[1])
if hasattr(w, "prepare"):
    w.prepare()
base = tempfile.mkdtemp(dir="/dev/shm")
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
spec = runner.make_spec(w, sys.argv[1], sys.argv[4] if len(sys.argv) > 4 else "quick", seed, int(sys.argv[2]), base)
r = runner.run_one(w, dict(spec, want_log=True), 90)
print(*r.pop("trace", []), sep="\n")
r.pop("decisions", None)
print(r.get("status"), r.get("sig"), r.get("detail"))
import shutil
shutil.rmtree(base, ignore_errors=True)
