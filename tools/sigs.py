"""sigs.py ID RUNS [SEED]: runs in 8 processes and counts the signatures of all violations (no minimisation); prints the shortest detail of each"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, runs = sys.argv[1], sys.argv[2]
seed = sys.argv[3] if len(sys.argv) > 3 else "1"
base = f"/dev/shm/pkmsim-sigs-{os.getpid()}"
os.makedirs(base)
ps = [subprocess.Popen([sys.executable, f"{HERE}/run.py", "worker", pid, "--tier", "quick", "--seed", seed, "--runs", runs, "--shard", str(i), "--nshards", "8", "--base", base, "--limit", "900"],
                       stdout=open(f'{base}/out{i}', 'w'), text=True, env={**os.environ, "PYTHONHASHSEED": str(i)}) for i in range(8)]
n = {}
ex = {}
pr = {}
for i, p in enumerate(ps):
    p.wait()
    for line in open(f'{base}/out{i}'):
        d = json.loads(line)
        if "spec" not in d:
            continue
        for k, v in (d.get("probes") or {}).items():
            pr[k] = pr.get(k, 0) + v
        if d["status"] != "ok":
            s = f"{d['status']} {d.get('sig')}"
            n[s] = n.get(s, 0) + 1
            t = (len(d.get("detail", "")), d.get("detail", ""), d["spec"]["idx"], d["spec"]["scenario"])
            if s not in ex or t < ex[s]:
                ex[s] = t
import shutil
shutil.rmtree(base, ignore_errors=True)
for s, c in sorted(n.items(), key=lambda x: -x[1]):
    print(f"{c:6} {s} (run {ex[s][2]} {ex[s][3]}): {ex[s][1][-1800:]}")
print(pr)
