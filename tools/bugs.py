"""run the check of each planted bug's property against it: python3 tools/bugs.py [id ...]"""
import json, os, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
for i in ids:
    wt = f"/tmp/wt-bug-{i}"
    subprocess.run(["rm", "-rf", wt]); subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
    subprocess.run(["git", "-C", wt, "apply", f"/verif/seeded/{i}/patch.diff"], check=True)
    prop = json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
    t = time.time()
    c = subprocess.run([sys.executable, "/verif/run.py", "check", prop], env=dict(os.environ, PKMSIM_REPO=wt, VERIF_SEED="1"), capture_output=True, text=True)
    print(f"{i}: {prop} exit {c.returncode} in {time.time()-t:.0f}s", flush=True)
    print("\n".join("    " + x[:250] for x in c.stdout.splitlines() if "VIOLATION" in x or c.returncode not in (1,)), flush=True)
    subprocess.run(["rm", "-rf", wt])
