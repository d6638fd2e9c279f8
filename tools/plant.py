"""plant a bug: python3 tools/plant.py SPEC.py
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source, gets a scratch directory as argv[1]).
Makes seeded/<ID>/, and checks: applies, stable tests pass with it, demo passes without and fails with it, original lines."""
import json, os, runpy, shutil, subprocess, sys
spec = runpy.run_path(sys.argv[1])
WT = "/tmp/wt-plant"
subprocess.run(["rm", "-rf", WT]); subprocess.run(["cp", "-a", "/repo", WT], check=True)
for f, old, new in spec["EDITS"]:
    p = f"{WT}/{f}"; s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = f"/verif/seeded/{spec['ID']}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", WT, "diff"], capture_output=True, text=True).stdout
open(f"{d}/patch.diff", "w").write(diff)
# blame of removed lines
for f, old, new in spec["EDITS"]:
    txt = open(f"/repo/{f}").read(); ln = txt[:txt.index(old)].count("\n") + 1
    b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L", f"{ln},{ln + old.rstrip(chr(10)).count(chr(10))}", f], capture_output=True, text=True).stdout
    nl, ol = set(new.splitlines()), old.splitlines()
    removed = [x for x, o in zip(b.splitlines(), ol) if o not in nl]
    print("changed lines:", *removed, sep="\n   ")
    if not any(x.startswith("^") for x in removed):
        print("   !!! NO ORIGINAL LINE CHANGED")
open(f"{d}/demo.py", "w").write(spec["DEMO"])
open(f"{d}/demo.sh", "w").write('''#!/bin/bash
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/pkm/src:$PWD/pkm-cli/src" PYTHONDONTWRITEBYTECODE=1 XDG_DATA_HOME="$W/xdg" HOME="$W/home" TMPDIR="$W"
mkdir -p "$W/home" "$W/xdg"
timeout 120 /opt/venv/bin/python "$D/demo.py" "$W"
''')
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
a = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True)
b = subprocess.run(["bash", f"{d}/demo.sh"], cwd=WT, capture_output=True, text=True)
print("demo unpatched", a.returncode, a.stdout[-300:], a.stderr[-600:] if a.returncode else "")
print("demo patched", b.returncode, b.stdout[-300:], b.stderr[-600:])
fails = []
for proj in ("pkm", "pkm-cli"):
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
        "--rootdir=" + WT, "-o", "norecursedirs=.* __pycache__ node_modules", "-rA", "tests"], cwd=f"{WT}/{proj}", capture_output=True, text=True,
        env=dict(os.environ, PYTHONPATH=f"{WT}/pkm/src:{WT}/pkm-cli/src", PYTHONDONTWRITEBYTECODE="1", XDG_DATA_HOME="/tmp/wt-plant-xdg", PYTHONHASHSEED="0"))
    fails.append(t.stdout.splitlines()[-1] if t.stdout else t.stderr[-300:])
print("tests:", fails)
if "--check" in sys.argv:
    c = subprocess.run([sys.executable, "/verif/run.py", "check", spec["PROPERTY"]], env=dict(os.environ, PKMSIM_REPO=WT, VERIF_SEED="1"), capture_output=True, text=True)
    print("check exit", c.returncode); print("\n".join(x[:300] for x in c.stdout.splitlines()[-8:]))
subprocess.run(["rm", "-rf", WT, "/tmp/wt-plant-xdg"])
