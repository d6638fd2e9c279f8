"""M01: progress listeners never change what operations return or raise, and are told about every start and end exactly once."""
from dataclasses import dataclass

SCENARIOS = [("sequential", 5), ("concurrent", 5), ("async", 4)]
QUICK_RUNS = 5000
THOROUGH_RUNS = 250000
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm.utils.monitors (Monitor, MonitoredOperation, MonitoredEvent), pkm.utils.promises"
STUBS = "clock, thread scheduler; the monitored operations themselves are generated programs that fail or succeed as drawn"
ASSUMPTIONS = ["listeners do not raise errors of their own", "preemption at source lines of pkm code, lock operations and simulated time waits"]
INF = 1 << 60


class Boom(Exception):
    pass


class Quiet(Exception):
    def __len__(self):
        return 0


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    import time
    from pkm.utils.monitors import Monitor, MonitoredEvent, MonitoredOperation
    from pkm.utils.promises import Deferred

    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    @dataclass
    class OpA(MonitoredOperation):
        n: int

    @dataclass
    class OpB(MonitoredOperation):
        n: int

    class OpC(OpA):
        pass

    @dataclass
    class EvA(MonitoredEvent):
        n: int

    @dataclass
    class EvB(MonitoredEvent):
        n: int

    @dataclass
    class Plain:
        n: int

    ops = {}  # op number -> info
    groups = []
    counter = [0]

    class Group:
        """one set of callbacks given to add_listeners or listen"""

        def __init__(self, monitor, mkey, types, depth):
            self.monitor = monitor
            self.mkey = mkey  # None: the global one, otherwise number of the operation
            self.n = len(groups)
            groups.append(self)
            self.a0 = self.a1 = self.d0 = self.d1 = INF
            self.kinds = {}
            self.callbacks = {}
            self.depth = depth
            for t in types:
                self.add(t)

        def add(self, t):
            style = g.weighted([("methods", 4), ("gen", 4), ("on", 2), ("plainwith", 1)]) if not issubclass(t, MonitoredEvent) else g.pick(["on", "leave-only"])
            nm = f"{t.__name__.lower()}_{self.n}"
            me = self

            def rec(kind, x, err=None):
                ops[x.n]["log"].append((me.n, kind, err, tick()))
                ctx.event(f"listener{me.n} {kind} {type(x).__name__}{x.n}")

            def put(prefix, f):
                f.__annotations__["x"] = t
                self.callbacks[prefix + nm] = f

            if style == "methods":
                parts = [k for k in ("enter_", "leave_", "failed_") if g.flip(0.75)] or ["leave_"]
                for k in parts:
                    if k == "failed_":
                        def failed(x, err):
                            rec("fail", x, err)
                        put(k, failed)
                    elif k == "enter_":
                        def enter(x):
                            rec("start", x)
                        put(k, enter)
                    else:
                        def leave(x):
                            rec("end", x)
                        put(k, leave)
                self.kinds[t] = ("methods", frozenset(parts))
            elif style == "gen":
                mode = g.pick(["finally", "swallow", "reraise", "early", "slow", "inner"])

                def with_(x):
                    rec("start", x)
                    if mode == "early":
                        return
                    if mode == "slow":
                        time.sleep(0.01)
                    inner = Group(x, x.n, [EvA], 9) if mode == "inner" and isinstance(x, MonitoredOperation) else None
                    try:
                        if inner:
                            with listening(inner):
                                yield
                        else:
                            yield
                        rec("end", x)
                    except BaseException as e:  # noqa
                        rec("fail", x, e)
                        rec("end", x)
                        if mode != "swallow":
                            raise
                put("with_", with_)
                self.kinds[t] = ("early" if mode == "early" else "gen", None)
            elif style == "plainwith":
                def with_(x):
                    rec("start", x)
                put("with_", with_)
                self.kinds[t] = ("early", None)
            elif style == "on":
                def on(x):
                    rec("start", x)
                put("on_", on)
                self.kinds[t] = ("on", None)
            else:  # listens to the end of something that has no end
                def leave(x):
                    rec("end", x)
                put("leave_", leave)
                self.kinds[t] = ("none", None)

    class listening:
        def __init__(self, group):
            self.group = group
            self.cm = group.monitor.listen(**group.callbacks)

        def __enter__(self):
            self.group.a0 = tick()
            self.cm.__enter__()
            self.group.a1 = tick()

        def __exit__(self, *e):
            self.group.d0 = tick()
            r = self.cm.__exit__(*e)
            self.group.d1 = tick()
            return r

    def gtypes(pool):
        return [t for t in pool if g.flip(0.45)] or [g.pick(pool)]

    alltypes = [OpA, OpB, OpC, EvA, EvB]
    max_fail = [g.int(0, 3)]

    def outcome():
        k = g.weighted([("ok", 4), ("none", 1), ("boom", 3), ("quiet", 1), ("stop", 1), ("kbd", 1), ("genexit", 1)])
        if k in ("ok", "none"):
            return ("ok", object() if k == "ok" else None)
        return ("err", {"boom": Boom("x"), "quiet": Quiet(), "stop": StopIteration("s"), "kbd": KeyboardInterrupt(),
                        "genexit": GeneratorExit()}[k])

    def same(a, b):
        return a[0] == b[0] and a[1] is b[1]

    def fresh(t, monitor):
        counter[0] += 1
        n = counter[0]
        x = t(n)
        ops[n] = {"type": t, "log": [], "monitor": monitor, "s0": INF, "s1": INF, "out": None, "e1": INF}
        return x

    def attempt(f):
        try:
            return ("ok", f())
        except BaseException as e:  # noqa
            if type(e).__name__ in ("TaskKilled", "SimExit", "Violation", "HarnessError"):
                raise
            return ("err", e)

    def do_op(depth, out, enclosing):
        x = fresh(g.pick([OpA, OpB, OpC]), None)
        i = ops[x.n]

        def body():
            i["s0"] = tick()
            with x:
                i["s1"] = tick()
                program(depth + 1, x)
                i["out"] = out
                i["e0"] = tick()
                if out[0] == "err":
                    raise out[1]
                return out[1]
        got = attempt(body)
        i["e1"] = tick()
        if not same(got, out):
            ctx.note("outcome-changed", f"{type(x).__name__}{x.n} ended with {got}, without listeners it would be {out}")

    def do_enter(depth, out, mop):
        mon = mop if mop is not None and g.flip(0.3) else Monitor
        x = fresh(Plain, mop.n if mon is not Monitor else None)
        i = ops[x.n]

        def body():
            i["s0"] = tick()
            with mon.enter(x):
                i["s1"] = tick()
                i["out"] = out
                i["e0"] = tick()
                if out[0] == "err":
                    raise out[1]
                return out[1]
        got = attempt(body)
        i["e1"] = tick()
        if not same(got, out):
            ctx.note("outcome-changed", f"context {x.n} ended with {got}, without listeners it would be {out}")

    def do_event(mop):
        to_op = mop is not None and g.flip(0.6)
        x = fresh(g.pick([EvA, EvB]), mop.n if to_op else None)
        i = ops[x.n]
        i["s0"] = tick()
        got = attempt(lambda: x.notify(mop) if to_op and g.flip() else (mop if to_op else Monitor).notify(x) if g.flip() or to_op else x.notify())
        i["s1"] = i["e0"] = i["e1"] = tick()
        i["out"] = ("ok", None)
        if got != ("ok", None):
            ctx.note("outcome-changed", f"notification of an event ended with {got}")

    pending = []

    def do_async(depth, out):
        x = fresh(g.pick([OpA, OpB]), None)
        i = ops[x.n]
        d = Deferred()
        early = g.flip(0.25)
        if early:
            i["e0"] = tick()
            d.complete(out[1]) if out[0] == "ok" else d.fail(out[1])
        i["out"] = out
        i["s0"] = tick()
        q = x.with_async(d.promise())
        i["s1"] = tick()
        if not early:
            pending.append((d, out, i))
        waits.append((x, i, q, out))

    waits = []

    def listen_types(mop):
        return gtypes([EvA, EvB, Plain]) if mop is not None else gtypes(alltypes + [Plain])

    def program(depth, mop):
        for _ in range(g.int(0, 2) if depth else g.int(1, 4)):
            budget[0] -= 1
            if budget[0] < 0:
                return
            k = g.weighted([("op", 4), ("event", 3), ("listen", 3 if depth < 3 else 0), ("enter", 1), ("async", 4 if sc == "async" else 0), ("pause", 1)])
            if k == "op":
                do_op(depth, outcome(), mop)
            elif k == "enter":
                do_enter(depth, outcome(), mop)
            elif k == "event":
                do_event(mop)
            elif k == "async":
                do_async(depth, outcome())
            elif k == "pause":
                time.sleep(g.pick([0, 0.01]))
            else:
                target = mop if mop is not None and g.flip(0.5) else None
                grp = Group(target if target is not None else Monitor, target.n if target is not None else None, listen_types(target), depth)
                err = Boom("in listen") if g.flip(0.2) else None

                def scope():
                    with listening(grp):
                        program(depth + 1, mop)
                        if err:
                            raise err
                got = attempt(scope)
                if not same(got, ("err", err) if err else ("ok", None)):
                    ctx.note("outcome-changed", f"listening block ended with {got}")

    budget = [0]

    def main():
        if g.flip(0.7):
            for _ in range(g.int(1, 2)):
                base = Group(Monitor, None, gtypes(alltypes + [Plain]), 0)
                base.a0 = tick()
                Monitor.add_listeners(**base.callbacks)
                base.a1 = tick()
        budget[0] = g.int(4, 14)
        if sc == "sequential":
            program(0, None)
        else:
            actors = [lambda: program(0, None) for _ in range(g.int(1, 3) if sc == "async" else g.int(2, 3))]
            if sc == "async":
                def completer():
                    for _ in range(8):
                        time.sleep(0.01)
                        while pending:
                            d, out, i = pending.pop(0)
                            i["e0"] = tick()
                            d.complete(out[1]) if out[0] == "ok" else d.fail(out[1])
                actors.append(completer)
            ctx.threads(actors)
            while pending:
                d, out, i = pending.pop(0)
                i["e0"] = tick()
                d.complete(out[1]) if out[0] == "ok" else d.fail(out[1])
            for x, i, q, out in waits:
                got = attempt(q.result)
                i["e1"] = tick()
                if not same(got, out):
                    ctx.note("outcome-changed", f"asynchronous {type(x).__name__}{x.n} ended with {got}, without listeners it would be {out}")
        budget[0] = 0  # everything temporary is detached now
        for t in (OpA, OpB, OpC):
            do_op(8, outcome(), None)
        do_event(None)
        judge()

    def judge():
        for n, i in ops.items():
            who = f"{i['type'].__name__}{n}"
            by = {}
            for gn, kind, err, at in i["log"]:
                by.setdefault(gn, []).append((kind, err, at))
            failed = i["out"][0] == "err"
            for gn, seen in by.items():
                grp = groups[gn]
                style, parts = grp.kinds[i["type"]]
                kinds = [k for k, _, _ in seen]
                if grp.mkey != i["monitor"]:
                    ctx.fail("foreign-listener", f"{who}: listener {gn} of {grp.mkey} notified")
                if not (grp.a0 < i["s1"] and grp.d1 > i["s0"]):
                    ctx.fail("detached-listener-notified", f"{who}: {kinds} by listener {gn} attached {grp.a0}..{grp.d1}, operation started {i['s0']}..{i['s1']}")
                if style == "methods":
                    exp = (["start"] if "enter_" in parts else []) + (["fail"] if failed and "failed_" in parts else []) + (["end"] if "leave_" in parts else [])
                elif style in ("early", "on"):
                    exp = ["start"]
                elif style == "none":
                    exp = []
                else:
                    exp = ["start"] + (["fail"] if failed else []) + ["end"]
                ctx.check(kinds == exp, "notifications", lambda: f"{who} ({i['out'][0]}): listener {gn} ({style} {sorted(parts or ())}) saw {kinds} instead of {exp}")
                for k, err, at in seen:
                    if k == "fail":
                        ctx.check(err is i["out"][1], "wrong-error", lambda: f"{who}: {err!r} instead of {i['out'][1]!r}")
                    if k in ("fail", "end"):
                        ctx.check(at > i["e0"], "early-end", lambda: f"{who}")
            if len(by) > 1:
                ctx.probe("several-listeners")
            certain = [grp for grp in groups if grp.mkey == i["monitor"] and i["type"] in grp.kinds and grp.a1 < i["s0"] and grp.d0 > i["s1"]]
            expecting = [grp for grp in certain if grp.kinds[i["type"]][0] not in ("none",) and
                         (grp.kinds[i["type"]][0] != "methods" or grp.kinds[i["type"]][1] & {"enter_", "leave_"})]
            possible = [grp for grp in groups if grp.mkey == i["monitor"] and i["type"] in grp.kinds and grp.a0 < i["s1"] and grp.d1 > i["s0"]]
            if expecting and len(expecting) == len(possible):  # everybody that may be notified would have told about it
                ctx.check(by, "nobody-notified", lambda: f"{who}: attached were {[grp.n for grp in certain]}")
                if sc == "sequential":
                    newest = max(expecting, key=lambda it: it.a1)
                    ctx.check(newest.n in by, "newest-listener-ignored", lambda: f"{who}: listener {newest.n} not notified, only {sorted(by)}")
        if any(i["out"][0] == "err" for i in ops.values()):
            ctx.probe("failed-operation")

    st, v = ctx.proc(main, "main")
    if st != "ok":
        raise v if st == "exc" else AssertionError(st)
