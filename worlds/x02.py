"""X02: every task of the worker process pool settles exactly once with its own outcome, whatever happens to the workers."""
import re
import sys

from sim import core
from worlds._workers import Workers

SCENARIOS = [("plain", 3), ("deaths", 5), ("cancel", 4), ("closing", 3), ("spawn", 2)]
QUICK_RUNS = 3000
THOROUGH_RUNS = 100000
MAX_STEPS = 300_000
LINE_PREFIXES = ("pkm/src/pkm/utils/multiproc", "pkm/src/pkm/utils/promises")
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm.utils.multiproc (pool, handlers and the worker script itself), pkm.utils.promises, pickle, buffered streams"
STUBS = "operating system processes (simulated ones in one interpreter), pipes (64 KB, short reads), clock, thread scheduler"
ASSUMPTIONS = ["simulated workers share imported modules with their parent", "output is written through sys.stdout and sys.stderr"]

RUNS = []  # (task, worker incarnation) in order of execution
ENDED = set()


class Refuses:
    """cannot be unpickled by the parent"""

    def __init__(self, tid):
        self.tid = tid

    def __reduce__(self):
        return refuse, (self.tid,)


def refuse(tid):
    raise ValueError(f"task-{tid} cannot be loaded")


class RefusesInWorker:
    """an argument that can be loaded nowhere"""

    def __reduce__(self):
        return refuse, ("arg",)


class Custom(Exception):
    def __init__(self, a, b):
        super().__init__(a)


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError("no text")


def blob(tid, size):
    return (f"<{tid}>".encode() * (size // 3 + 1))[:size]


def task(tid, kind, size, steps, out, ballast=None):
    RUNS.append((tid, core.SIM.me().inc.name))
    core.SIM.event(f"task {tid} {kind} runs")
    import time
    for d in steps:
        if out:
            print(f"<{tid}>" * out)
            print(f"err {tid}", file=sys.stderr)
        if d is not None:
            time.sleep(d)
    ENDED.add(tid)
    if kind == "value":
        return tid, blob(tid, size)
    if kind == "plain":
        return size
    if kind == "error-value":
        return ValueError(tid)
    if kind == "raise":
        raise ValueError(f"task-{tid}")
    if kind == "raise-custom":
        raise Custom(f"task-{tid}", lambda: 0)
    if kind == "raise-badstr":
        raise BadStr(f"task-{tid}")
    if kind == "unpicklable":
        return [blob(tid, size), lambda: tid]
    if kind == "refuses":
        return [Refuses(tid), blob(tid, size)]
    if kind == "exit":
        sys.exit(3)
    if kind == "base":
        raise KeyboardInterrupt()
    if kind == "die":
        core.SIM.crash_current("the task kills its process")
    raise AssertionError(kind)


FALSY = [None, 0, "", [], False]
SUICIDAL = ("exit", "base", "die")


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    RUNS.clear()
    ENDED.clear()
    import threading
    import time
    w = Workers(ctx)
    if g.flip(0.2):
        def sink(n, s):
            if g.flip(0.3):
                raise BrokenPipeError(32, "nobody reads the log")
        w.sink = sink
    if g.flip(0.3):
        w.spawn_delay = lambda: g.pick([0, 0, 0.01, 2])
    horizon = g.pick([60, 150, 400, 1500])
    if sc in ("deaths", "closing", "cancel") and (sc == "deaths" or g.flip(0.3)):
        for _ in range(g.int(1, 3)):
            w.kill_at[g.int(1, horizon)] = g.flip(0.8)
    if sc == "spawn":
        w.spawn_fails = set(g.sample(range(1, 6)))
    inactivity = g.pick([15, 1, 0.01])
    nmax = g.int(1, 3)
    T = []  # dict per task

    def new_task():
        k = g.weighted([("value", 8), ("plain", 2), ("error-value", 0.7), ("raise", 1.5), ("raise-custom", .5), ("raise-badstr", .4),
                        ("unpicklable", 1), ("refuses", 0.7), ("bad-args", 0.7), ("bad-args-worker", .5)] +
                       ([("exit", .7), ("base", .4), ("die", 1)] if sc in ("deaths", "closing") or g.flip(0.15) else []))
        size = g.weighted([(g.int(0, 40), 6), (g.int(60000, 70000), 1.5), (g.int(130000, 300000), 1)]) if k != "plain" else g.pick(FALSY)
        steps = [g.weighted([(None, 5), (0, 1), (0.00003, 2), (0.01, 2), (1.0, 1), (20.0, .4)]) for _ in range(g.int(1, 2))]
        out = g.weighted([(0, 6), (1, 2), (300, .7), (40000, .4)])
        ballast = b"b" * g.weighted([(0, 6), (100, 2), (150000, 1)])
        d = dict(tid=len(T), kind=k, size=size, calls=[], p=None, cancelled=None, accepted=False, args=(steps, out))
        T.append(d)
        if k == "bad-args":
            ballast = [ballast, lambda: 0]
        elif k == "bad-args-worker":
            ballast = [ballast, RefusesInWorker()]
        d["ballast"] = ballast
        return d

    def submit(pool, d):
        try:
            d["p"] = p = pool.execute(task, d["tid"], d["kind"], d["size"], d["args"][0], d["args"][1], d["ballast"])
        except Exception as e:  # noqa
            ctx.check(d.get("may_refuse") or pool.is_closed(), "task-refused", lambda: f"{e!r}")
            ctx.probe("refused-while-closing")
            return False
        d["accepted"] = True
        p.when_completed(lambda q: d["calls"].append(1))
        return True

    def running(tid):
        return any(t == tid and any(l.inc.name == inc for l in w.live) for t, inc in RUNS) and tid not in ENDED

    def cancel(d):
        r = d["p"].request_cancel()
        ctx.probe(f"cancel-{r}")
        if r:
            d["cancelled"] = True
            d["runs_at_cancel"] = sum(1 for t, _ in RUNS if t == d["tid"])
            ctx.check(not running(d["tid"]), "cancelled-still-running", lambda: f"task {d['tid']} is still running after its cancellation returned True")

    def wait(d):
        try:
            v = ("ok", d["p"].result())
        except BaseException as e:  # noqa
            if isinstance(e, core.HarnessError) or type(e).__name__ == "Violation":
                raise
            v = ("err", e)
        if "out" in d:
            ctx.check(d["out"][0] == v[0] and d["out"][1] is v[1], "outcome-changed", lambda: f"{d['out']} then {v}")
        d["out"] = v

    def main():
        from pkm.utils.multiproc import ProcessPoolExecutor
        pool = ProcessPoolExecutor(max_workers=nmax, max_inactivity_seconds=inactivity)

        def submitter():
            mine = []
            for _ in range(g.int(1, 5)):
                d = new_task()
                d["may_refuse"] = sc == "closing"
                if submit(pool, d):
                    mine.append(d)
                    if g.flip(0.3):
                        wait(d)
                if sc == "cancel" and mine and g.flip(0.6):
                    if g.flip(0.7):
                        time.sleep(g.pick([0, 0.00002, 0.0001, 0.001, 0.5, 2]))
                    cancel(g.pick(mine))
                if g.flip(0.25):
                    time.sleep(g.pick([0.0001, 0.5, inactivity, inactivity + 0.0001, 30]))
            if g.flip(0.5):
                for d in mine:
                    wait(d)

        def closer():
            time.sleep(g.pick([0, 0.0001, 0.001, 0.02, 1.5, 16]))
            pool.close()
            ctx.check(not w.live, "worker-outlives-close", lambda: f"{len(w.live)} workers live after close")

        fns = [submitter for _ in range(g.int(1, 3))]
        if sc == "closing":
            fns.append(closer)
        ctx.threads(fns)
        if sc in ("deaths", "spawn") and g.flip(0.7):
            # the faults are over: the pool still works
            w.kill_at.clear()
            w.spawn_fails = set()
            for d in T:
                if d["accepted"]:
                    wait(d)
            kills = w.kills
            d = new_task()
            d["kind"] = "value"
            d["size"] = 10
            d["ballast"] = None
            d["args"] = ([None], 0)
            submit(pool, d)
            wait(d)
            ctx.check(d["out"][0] == "ok" or w.kills > kills, "pool-unusable", lambda: f"a task submitted after the faults failed with {d['out'][1]!r}")
            ctx.probe("works-after-faults")
        if sc != "closing":
            if g.flip(0.2):
                time.sleep(40)
            pool.close()
            ctx.check(not w.live, "worker-outlives-close", lambda: f"{len(w.live)} workers live after close")
        for d in T:
            if d["accepted"]:
                ctx.check(d["p"].is_completed(), "not-settled-by-close", lambda: f"task {d['tid']} {d['kind']}")
                wait(d)
                wait(d)

    st, v = ctx.proc(main, "pkm")
    if st == "exc":
        if isinstance(v, (core.HarnessError, AssertionError)) or type(v).__name__ in ("Violation", "SimAbort"):
            raise v
        ctx.fail("pool-raises", repr(v))
    unexplained = []
    for d in T:
        tid, k = d["tid"], d["kind"]
        n = sum(1 for t, _ in RUNS if t == tid)
        ctx.check(n <= 1, "ran-twice", lambda: f"task {tid} {k}")
        if not d["accepted"]:
            ctx.check(n == 0, "refused-but-ran", lambda: f"task {tid} {k}")
            continue
        ctx.check(len(d["calls"]) == 1, "listener-calls", lambda: f"task {tid} {k}: {len(d['calls'])}")
        o, v = d["out"]
        if d["cancelled"]:
            ctx.check(o == "err", "cancelled-but-succeeded", lambda: f"task {tid} {k}")
            ctx.check(n == d["runs_at_cancel"], "ran-after-cancel", lambda: f"task {tid} {k}")
            continue
        if o == "ok":
            ctx.check(n == 1, "value-without-run", lambda: f"task {tid} {k} -> {str(v)[:80]}")
            if k == "value":
                good = v == (tid, blob(tid, d["size"]))
            elif k == "plain":
                good = v == d["size"] and type(v) is type(d["size"])
            elif k == "error-value":
                good = isinstance(v, ValueError) and v.args == (tid,)
            else:
                good = False
            ctx.check(good, "wrong-outcome", lambda: f"task {tid} {k} ended with {str(v)[:100]}")
        else:
            if k in ("raise", "raise-custom") and f"task-{tid}" in str(v):
                ctx.check(n == 1, "error-without-run", lambda: f"task {tid} {k} -> {v!r}"[:300])
                continue
            ctx.check(set(re.findall(r"task-\d+", str(v))) <= {f"task-{tid}"}, "error-of-another-task", lambda: f"task {tid} {k}: {v!r}"[:500])
            if k in ("unpicklable", "refuses", "bad-args", "bad-args-worker", "raise-badstr") or k in SUICIDAL:
                continue
            if "injected" in str(v) and w.spawn_failed:
                ctx.probe("failed-by-spawn")
                continue
            unexplained.append(f"task {tid} {k}: {v!r}"[:300])
    ctx.check(len(unexplained) <= w.kills, "failed-without-cause", lambda: f"{w.kills} workers were killed but {len(unexplained)} tasks failed: {unexplained}")
    if w.kills:
        ctx.probe(f"killed-{min(3, w.kills)}")
    if w.spawns > nmax:
        ctx.probe("respawn")
