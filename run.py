#!/usr/bin/env python3
"""check <ID> [--tier quick|thorough] [--seed N] [--runs N] | replay <file> | worker ... | selftest"""
import argparse
import collections
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.path.insert(0, HERE)
NWORKERS = 8


def child_env(hashseed, scratch):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", XDG_DATA_HOME=f"{scratch}/xdg",
               HOME=f"{scratch}/home", TMPDIR=f"{scratch}", PYTHONNOUSERSITE="1", PYTHONUTF8="1", TZ="UTC")
    for k in ("PKM_HOME", "PATH_INFO"):
        env.pop(k, None)
    return env


def aslr_off():
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        libc.personality(0x0040000)
        libc.prctl(1, 9)  # die together with the check
    except Exception:  # noqa
        pass


def scratch_base(pid, tier):
    root = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    n = 0
    while True:
        base = f"{root}/pkmsim/{pid}-{tier}-{n}"
        os.makedirs(base, exist_ok=True)
        fh = open(f"{base}/.lock", "w")
        try:
            fcntl.flock(fh, fcntl.LOCK_EX | fcntl.LOCK_NB)
            return base, fh
        except OSError:
            fh.close()
            n += 1


def spawn(args, hashseed, scratch):
    return subprocess.Popen([PY, "-X", "utf8", os.path.join(HERE, "run.py"), *args], stdout=subprocess.PIPE,
                            stdin=subprocess.DEVNULL, env=child_env(hashseed, scratch), preexec_fn=aslr_off, text=True)


def cmd_worker(a):
    from sim import runner
    failed = runner.preload()
    if failed:
        print(json.dumps({"preload_failed": failed}), flush=True)
    world = runner.load_world(a.id)
    if hasattr(world, "prepare"):
        world.prepare()
    import gc
    gc.collect()
    gc.freeze()
    t0 = time.monotonic()
    for idx in range(a.shard, a.runs, a.nshards):
        if time.monotonic() - t0 > a.limit:
            print(json.dumps({"stopped_at": idx}), flush=True)
            break
        spec = runner.make_spec(world, a.id, a.tier, a.seed, idx, a.base)
        r = runner.run_one(world, dict(spec, want_log=idx < 3), a.run_timeout)
        r["spec"] = spec
        print(json.dumps(r), flush=True)
    print(json.dumps({"done": True}), flush=True)
    os._exit(0)


def cmd_min(a):
    """minimise one violation (json on a file) and write the replay file"""
    from sim import runner
    runner.preload()
    world = runner.load_world(a.id)
    if hasattr(world, "prepare"):
        world.prepare()
    r = json.load(open(a.file))
    spec, best, info = runner.minimise(world, r["spec"], r, a.limit)
    final = runner.run_one(world, dict(spec, want_log=True), 90) if info["reproduced"] else best
    json.dump({"spec": spec, "res": final, "info": info}, open(a.file + ".out", "w"))


def cmd_replay_inner(a):
    from sim import runner
    runner.preload()
    rep = json.load(open(a.file))
    world = runner.load_world(rep["property"])
    if hasattr(world, "prepare"):
        world.prepare()
    spec = dict(rep["spec"], want_log=True)
    r = runner.run_one(world, spec, 120)
    print(json.dumps(r), flush=True)
    os._exit(0)


def replay(path, quiet=False):
    rep = json.load(open(path))
    base = os.path.dirname(rep["spec"]["root"])
    os.makedirs(base, exist_ok=True)
    p = spawn(["replay-inner", path], rep["spec"]["hashseed"], base)
    out, _ = p.communicate()
    lines = [x for x in out.splitlines() if x.startswith('{"status"')]
    if not lines:
        raise SystemExit(f"replay gave no result: {out[-2000:]}")
    r = json.loads(lines[-1])
    same = r["status"] == "violation" and r["sig"] == rep["sig"]
    exact = same and r.get("log") == rep["log_hash"]
    if not quiet:
        print("\n".join(r.get("trace", [])))
        print(f"status={r['status']} sig={r.get('sig')} log_hash={r.get('log')} recorded={rep['log_hash']}")
        print(r.get("detail", ""))
        if same:
            print(f"VIOLATION property={rep['property']} replay={path}")
    return same, exact, r


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def match_known(known, pid, scenario, sig, detail):
    for k in known:
        if k["property"] == pid and k.get("kind", "known") == "known" and re.fullmatch(k["sig"], sig) and \
                k.get("scenario") in (None, scenario) and (not k.get("detail") or re.search(k["detail"], detail, re.S)):
            return k
    return None


def cmd_check(a):
    pid = a.id
    tier = a.tier or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    import importlib
    t0 = time.monotonic()
    # world constants without importing the code under test
    consts = world_consts(pid)
    runs = a.runs or consts["QUICK_RUNS" if tier == "quick" else "THOROUGH_RUNS"]
    limit = a.limit or (240 if tier == "quick" else 780)
    base, lock = scratch_base(pid, tier)
    nsh = min(NWORKERS, max(1, runs))
    procs = []
    results = []
    problems = []
    viol = []
    known = load_known()
    known_seen = collections.Counter()
    stop = threading.Event()
    mutex = threading.Lock()

    def reader(p):
        done = False
        for line in p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            with mutex:
                if "done" in d:
                    done = True
                elif "stopped_at" in d:
                    problems.append(("time-limit", str(d)))
                elif "preload_failed" in d:
                    problems.append(("preload", json.dumps(d)))
                else:
                    results.append(d)
                    if d["status"] == "violation":
                        k = match_known(known, pid, d["spec"]["scenario"], d["sig"], d.get("detail", ""))
                        if k:
                            known_seen[k["id"]] += 1
                        else:
                            viol.append(d)
                            if len(viol) >= (a.max_viol or 3):
                                stop.set()
                    elif d["status"] == "harness":
                        problems.append((d["sig"], f"{d['spec']['seed']} {d['spec']['scenario']} {d['detail']}"))
        if not done and not stop.is_set():
            with mutex:
                problems.append(("worker-died", ""))

    ths = []
    for i in range(nsh):
        p = spawn(["worker", pid, "--tier", tier, "--seed", str(seed), "--runs", str(runs), "--shard", str(i), "--nshards",
                   str(nsh), "--base", base, "--limit", str(limit), "--run-timeout", str(a.run_timeout)], i % 4, base)
        procs.append(p)
        th = threading.Thread(target=reader, args=(p,))
        th.start()
        ths.append(th)
    while any(t.is_alive() for t in ths):
        if stop.wait(0.2):
            time.sleep(1.0)
            for p in procs:
                p.kill()
            break
    for t in ths:
        t.join()
    for p in procs:
        p.wait()
    search_wall = time.monotonic() - t0
    reported = []
    viol.sort(key=lambda d: d["spec"]["idx"])
    seen = set()
    for d in viol:
        if d["sig"] in seen or len(reported) >= (a.max_report or 2):
            continue
        seen.add(d["sig"])
        reported.append(report(pid, d, base, a.min_limit))
    wall = time.monotonic() - t0
    write_evidence(pid, tier, seed, runs, results, viol, reported, known_seen, problems, consts, search_wall, wall)
    lock.close()
    shutil.rmtree(base, ignore_errors=True)
    for k in known:
        if k["property"] == pid and k.get("kind", "known") == "known":
            print(f"KNOWN-FINDING: property={pid} {k['what']} (seen in {known_seen[k['id']]} runs)")
    nh = sum(1 for p in problems if p[0] != "time-limit")
    print(f"{pid} {tier}: {len(results)} runs, {search_wall:.1f}s, {len(viol)} violations, {nh} harness problems")
    for s, dt in problems[:4]:
        print("HARNESS:", s, dt[-2500:])
    if reported:
        for r in reported:
            print(f"  {r['sig']}: {r['detail'][:1500]}")
            print(f"VIOLATION property={pid} replay={r['path']}")
        return 1
    if nh > max(2, 0.02 * runs) or len(results) < 0.5 * runs and not any(p[0] == "time-limit" for p in problems) \
            or not results:
        return 2
    return 0


def report(pid, d, base, min_limit):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    tmp = f"{base}/viol-{d['spec']['idx']}.json"
    json.dump(d, open(tmp, "w"))
    if "wall-timeout" not in d["sig"]:
        p = spawn(["minimise", pid, tmp, "--limit", str(min_limit)], d["spec"]["hashseed"], base)
        p.communicate()
    path = os.path.join(HERE, "replays", f"{pid}-{re.sub('[^A-Za-z0-9]+', '-', d['sig'])[:60]}-{d['spec']['idx']}.json")
    try:
        m = json.load(open(tmp + ".out"))
    except (OSError, ValueError):
        m = {"spec": dict(d["spec"], decisions=d.get("decisions")), "res": d, "info": {"reproduced": None}}
    spec, res, info = m["spec"], m["res"], m["info"]
    spec.setdefault("decisions", d.get("decisions"))
    spec.pop("want_log", None)
    rep = {"property": pid, "scenario": spec["scenario"], "sig": res["sig"], "detail": res["detail"], "spec": spec,
           "log_hash": res.get("log"), "minimisation": info, "found_by_seed": d["spec"]["seed"],
           "schedule_and_fault_trace": res.get("trace", [])}
    json.dump(rep, open(path, "w"), indent=1)
    same, exact, _ = replay(path, True)
    rep["replay_reproduces"] = same
    rep["replay_identical"] = exact
    json.dump(rep, open(path, "w"), indent=1)
    return {"sig": res["sig"], "detail": res["detail"], "path": path, "reproduces": same, "identical": exact, "info": info}


def world_consts(pid):
    import ast
    tree = ast.parse(open(os.path.join(HERE, "worlds", f"{pid.lower()}.py")).read())
    out = {"__doc__": ast.get_docstring(tree) or ""}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def write_evidence(pid, tier, seed, runs, results, viol, reported, known_seen, problems, consts, search_wall, wall):
    tot = collections.Counter()
    probes = collections.Counter()
    scen = collections.Counter()
    scheds, logs = set(), set()
    simt = steps = switches = 0
    nontriv = set()
    for r in results:
        if "steps" not in r:
            continue
        for k, v in r["stats"].items():
            tot[k] += v
        for k in r["probes"]:
            probes[k] += 1
        scen[r["spec"]["scenario"]] += 1
        scheds.add((r["spec"]["scenario"], r["sched"]))
        logs.add(r["log"])
        simt += r["simtime"]
        steps += r["steps"]
        switches += r["switches"]
        if r["stats"] or r["switches"] > 0 or r["probes"]:
            nontriv.add(r["log"])
    faults = {k: v for k, v in sorted(tot.items()) if k.startswith(("net-", "fs-", "proc-", "fault-"))}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": consts.get("MLEVEL", "exploration"),
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontriv),
            "rule": "one evaluation = one complete simulated run (own seed); distinct = different event-log hash (every "
                    "file-system operation, network event, process event and recorded decision point); non-trivial = the run "
                    "injected a fault, switched tasks, or reached a probe listed under 'probes'",
            "samples": [{"seed": r["spec"]["seed"], "scenario": r["spec"]["scenario"], "status": r["status"],
                         "scheduler_steps": r.get("steps"), "decisions": r.get("decisions"),
                         "event_trace": r.get("trace", [])[:40]}
                        for r in sorted(results, key=lambda r: r["spec"]["idx"]) if r["spec"]["idx"] < 3],
            "runs_per_hour_one_seed_each": int(len(results) / max(search_wall, 1e-6) * 3600),
            "simulated_seconds": round(simt, 3),
            "scheduler_steps": steps,
            "task_switches": switches,
            "distinct_interleavings": len(scheds),
            "interleaving_measure": "hash of the sequence of (scheduler step, chosen task) decisions, per scenario",
            "distinct_event_logs": len(logs),
            "faults_injected": faults,
            "other_counters": {k: v for k, v in sorted(tot.items()) if k not in faults},
            "probes": dict(sorted(probes.items())),
            "scenarios": dict(scen),
            "real_components": consts.get("REAL", ""),
            "stub_components": consts.get("STUBS", ""),
            "known_findings_seen": dict(known_seen),
            "harness_problems": len(problems),
            "planned_runs": runs,
        },
        "assumptions": consts.get("ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
        "violation_reports": [{"sig": r["sig"], "replay": r["path"], "replay_reproduces": r["reproduces"],
                        "replay_identical": r["identical"], "minimisation": r["info"]} for r in reported],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{pid}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{pid}.json"))


def cmd_selftest(a):
    """same seeds, different worker processes, twice: the event logs must be identical"""
    pid = a.id
    base, lock = scratch_base(pid, "selftest")
    logs = []
    for rnd in range(2):
        got = {}
        ps = []
        nsh = 4 if rnd == 0 else 8
        for i in range(nsh):
            ps.append(spawn(["worker", pid, "--tier", "quick", "--seed", str(a.seed or 1), "--runs", str(a.runs or 64), "--shard",
                             str(i), "--nshards", str(nsh), "--base", base, "--limit", "600"], i % 4, base))
        for p in ps:
            out, _ = p.communicate()
            for line in out.splitlines():
                d = json.loads(line)
                if "spec" in d:
                    got[d["spec"]["idx"]] = (d["status"], d.get("log"), d.get("sched"), d["spec"]["scenario"])
        logs.append(got)
    bad = [i for i in logs[0] if logs[0][i] != logs[1].get(i)]
    print(f"{pid}: {len(logs[0])} runs executed twice, {len(bad)} differ", bad[:10], [logs[0][i] for i in bad[:5]])
    shutil.rmtree(base, ignore_errors=True)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("id", nargs="?")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--base")
    ap.add_argument("--limit", type=float)
    ap.add_argument("--run-timeout", type=float, default=60)
    ap.add_argument("--max-viol", type=int)
    ap.add_argument("--max-report", type=int)
    ap.add_argument("--min-limit", type=float, default=40)
    a = ap.parse_args()
    if a.cmd == "worker":
        return cmd_worker(a)
    if a.cmd == "minimise":
        return cmd_min(a)
    if a.cmd == "replay-inner":
        a.file = a.id
        return cmd_replay_inner(a)
    if a.cmd == "replay":
        same, exact, _ = replay(a.id)
        print("identical execution" if exact else "same violation" if same else "NOT reproduced")
        return 1 if same else 0
    if a.cmd == "selftest":
        return cmd_selftest(a)
    if a.cmd == "setup":
        p = subprocess.run([PY, "-c", "import sys; sys.path.insert(0, '/repo/pkm/src'); import pkm.api.pkm"], env=child_env(0, "/tmp"))
        return p.returncode
    if a.cmd == "check":
        return cmd_check(a)
    ap.error("unknown command")


if __name__ == "__main__":
    sys.exit(main())
