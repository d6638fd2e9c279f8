"""nondet.py ID IDX [TIER]: executes one run twice in processes of its own and prints where the event logs differ"""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
if len(sys.argv) > 4:
    from sim import runner
    runner.preload()
    w = runner.load_world(sys.argv[1])
    if hasattr(w, "prepare"):
        w.prepare()
    base = sys.argv[4]
    spec = runner.make_spec(w, sys.argv[1], sys.argv[3], 1, int(sys.argv[2]), base)
    from sim import core
    r = runner.run_one(w, dict(spec, want_log=True), 90)
    json.dump(r, open(sys.argv[5], "w"))
    os._exit(0)
base = tempfile.mkdtemp(dir="/dev/shm")
outs = []
for i in range(2):
    o = f"{base}.{i}.json"
    subprocess.run([sys.executable, __file__, sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "quick", base, o], env={**os.environ, "PYTHONHASHSEED": "0"})
    outs.append(json.load(open(o)))
    os.unlink(o)
os.rmdir(base)
a, b = (o["trace"] for o in outs)
print(outs[0]["log"], outs[1]["log"], len(a), len(b))
for i, (x, y) in enumerate(zip(a, b)):
    if x != y:
        print(*a[max(0, i - 3):i], sep="\n")
        print("A", *a[i:i + 3], sep="\n  ")
        print("B", *b[i:i + 3], sep="\n  ")
        break
