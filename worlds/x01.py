"""X01: promises settle exactly once and every listener, waiter and joint waiter learns the outcome."""
SCENARIOS = [("simple", 4), ("chain", 4), ("pool", 4), ("joint", 5)]
QUICK_RUNS = 6000
THOROUGH_RUNS = 200000
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm.utils.promises; concurrent.futures.ThreadPoolExecutor and Future"
STUBS = "clock, thread scheduler (threads of the executor are simulated tasks)"
ASSUMPTIONS = ["preemption at source lines of pkm code and at every lock, condition and queue operation"]


class Quiet(Exception):
    """an exception that is false in a boolean context"""

    def __len__(self):
        return 0


class Boom(Exception):
    pass


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    import time
    from concurrent.futures import CancelledError, ThreadPoolExecutor
    from pkm.utils.promises import Deferred, Promise, await_all_promises, await_all_promises_or_cancel

    def outcome_of(quiet=1):
        k = g.weighted([("ok", 5), ("none", 1), ("falsy", 1), ("boom", 3), ("quiet", quiet), ("exit", 1), ("kbd", 1)])
        if k == "ok":
            return ("ok", object())
        if k == "none":
            return ("ok", None)
        if k == "falsy":
            return ("ok", [])
        return ("err", {"boom": Boom("x"), "quiet": Quiet(), "exit": SystemExit(3), "kbd": KeyboardInterrupt()}[k])

    def same(a, b):
        return a[0] == b[0] and a[1] is b[1]

    def observe(p, wait=True):
        try:
            return ("ok", p.result() if wait else p.result(wait=False))
        except BaseException as e:  # noqa
            if type(e).__name__ in ("TaskKilled", "SimExit", "Violation", "HarnessError"):
                raise
            return ("err", e)

    class Cell:
        """one promise and everything that was seen of it"""

        def __init__(self, name, promise):
            self.name = name
            self.p = promise
            self.expected = None  # known outcome
            self.alternatives = None
            self.seen = []
            self.listeners = []  # [times called]
            self.cancelled = False

        def see(self, o, who):
            self.seen.append((o, who))
            ctx.event(f"{who} saw {self.name} {o[0]}")

    cells = []

    def add(name, p):
        c = Cell(name, p)
        cells.append(c)
        return c

    def attach(c, depth=0):
        """register a listener; -> cell of the chained promise"""
        ret = outcome_of()
        count = [0]
        c.listeners.append(count)
        who = f"listener{len(c.listeners)}"
        slow = g.flip(0.2)

        def cb(p):
            count[0] += 1
            if p is not c.p:
                ctx.note("wrong-promise", f"listener of {c.name} got another promise")
            if not p.is_completed():
                ctx.note("not-completed-in-listener", c.name)
            c.see(observe(p, False), who)
            if slow:
                time.sleep(0.3)
            if ret[0] == "err":
                raise ret[1]
            return ret[1]

        q = c.p.when_completed(cb)
        n = add(f"{c.name}.{len(c.listeners)}", q)
        n.expected = ret
        return n

    def waiter(c):
        def f():
            c.see(observe(c.p), "waiter")
            if not c.p.is_completed():
                ctx.note("not-completed-after-wait", c.name)
        return f

    def poller(c):
        def f():
            for _ in range(3):
                done = c.p.is_completed()
                failed, good = c.p.is_failed(), c.p.is_succeeded()
                o = observe(c.p, False)
                if done:
                    c.see(o, "poller")
                elif o[0] == "err" and isinstance(o[1], ValueError) and not isinstance(o[1], Boom):
                    pass
                else:
                    c.see(o, "poller")
                if done and bool(good) == (o[0] == "err") and failed in (True, False):
                    ctx.note("wrong-flags", f"{c.name}: succeeded {good} but outcome {o}")
                if failed and o[0] != "err":
                    ctx.note("wrong-flags", f"{c.name}: failed {failed} but outcome {o}")
                time.sleep(0.05)
        return f

    def settle(c, d, o, winners):
        def f():
            try:
                d.complete(o[1]) if o[0] == "ok" else d.fail(o[1])
                winners.append(o)
            except ValueError as e:
                if "already" not in str(e):
                    ctx.note("settling-failed", repr(e))
        return f

    def finish():
        for c in cells:
            if c.expected is None:
                continue
            if not c.p.is_completed():
                ctx.fail("never-settled", c.name)
            final = observe(c.p, False)
            exp = c.expected if isinstance(c.expected, list) else [c.expected]
            if not any(same(final, e) for e in exp) and not (c.cancelled and isinstance(final[1], CancelledError)):
                ctx.fail("wrong-outcome", f"{c.name}: {final} instead of {exp}")
            for o, who in c.seen:
                if not same(o, final):
                    ctx.fail("observers-disagree", f"{c.name}: {who} saw {o}, outcome is {final}")
            for i, n in enumerate(c.listeners):
                if n[0] != 1:
                    ctx.fail("listener-count", f"{c.name}: listener {i + 1} was called {n[0]} times")
            ctx.check(bool(c.p.is_failed()) == (final[0] == "err"), "wrong-flags", lambda: f"{c.name} is_failed {c.p.is_failed()!r} {final}")
            ctx.check(bool(c.p.is_succeeded()) == (final[0] == "ok"), "wrong-flags", lambda: f"{c.name} is_succeeded {final}")

    def late(c):
        """listeners and waiters registered by other threads at any time, also on chained promises"""
        ops = [g.weighted([("listen", 3), ("wait", 2), ("poll", 1), ("chain", 2)]) for _ in range(g.int(1, 3))]

        def f():
            cur = c
            for k in ops:
                if k == "listen":
                    attach(cur)
                elif k == "chain":
                    cur = attach(cur)
                elif k == "wait":
                    waiter(cur)()
                else:
                    poller(cur)()
        return f

    def simple():
        fns = []
        for i in range(g.int(1, 2)):
            d = Deferred()
            c = add(f"d{i}", d.promise())
            os_ = [outcome_of() for _ in range(g.weighted([(1, 3), (2, 2), (3, 1)]))]
            winners = []
            c.expected = os_
            for _ in range(g.int(0, 2)):
                attach(c)
            fns += [settle(c, d, o, winners) for o in os_]
            fns += [late(c) for _ in range(g.int(1, 3))]
            c.winners = winners
        ctx.threads(fns)
        for c in list(cells):
            if hasattr(c, "winners"):
                ctx.check(len(c.winners) == 1, "settled-more-than-once", lambda: f"{c.name}: {c.winners}")
                c.expected = c.winners[0]
        finish()

    def pool():
        ex = ThreadPoolExecutor(g.int(1, 2))
        fns = []
        for i in range(g.int(1, 3)):
            o = outcome_of(quiet=0)  # the standard library's futures lose errors that are false
            ran = [0]
            w = g.pick([0, 0.1, 1.0])

            def task(o=o, ran=ran, w=w):
                ran[0] += 1
                if w:
                    time.sleep(w)
                if o[0] == "err":
                    raise o[1]
                return o[1]
            style = g.weighted([("pool", 5), ("direct", 1)])
            p = Promise.execute(ex if style == "pool" else None, task)
            c = add(f"t{i}", p)
            c.expected = o
            c.ran = ran
            for _ in range(g.int(0, 2)):
                attach(c)
            fns += [late(c) for _ in range(g.int(0, 2))]
            if g.flip(0.3):
                target = attach(c) if g.flip() else c

                def cancel(c=c, target=target):
                    time.sleep(g.pick([0, 0.05, 0.5]))
                    if target.p.request_cancel():
                        c.cancelled = True
                fns.append(cancel)
        ctx.threads(fns)
        for c in list(cells):
            observe(c.p)
        finish()
        for c in cells:
            if hasattr(c, "ran"):
                want = 0 if c.cancelled else 1
                ctx.check(c.ran[0] == want, "task-runs", lambda: f"{c.name} ran {c.ran[0]} times, cancelled {c.cancelled}")
        ex.shutdown()

    def joint():
        ex = ThreadPoolExecutor(g.int(1, 3))
        running = [0]
        items = []
        fns = []
        for i in range(g.int(1, 4)):
            o = outcome_of(quiet=0)
            kind = g.weighted([("pool", 4), ("deferred", 2), ("done", 1), ("chain", 2)])
            w = g.pick([0, 0.1, 1.0])

            def task(o=o, w=w):
                running[0] += 1
                try:
                    if w:
                        time.sleep(w)
                    if o[0] == "err":
                        raise o[1]
                    return o[1]
                finally:
                    running[0] -= 1
            if kind in ("pool", "chain"):
                c = add(f"t{i}", Promise.execute(ex, task))
                c.expected = o
                if kind == "chain":
                    c = attach(c)
            elif kind == "done":
                c = add(f"c{i}", Promise.create_completed(o[1]) if o[0] == "ok" else Promise.create_completed(err=o[1]))
                c.expected = o
            else:
                d = Deferred()
                c = add(f"d{i}", d.promise())
                c.expected = o

                def later(c=c, d=d, o=o, w=w):
                    time.sleep(w)
                    settle(c, d, o, [])()
                fns.append(later)
            items.append(c)
        mode = g.weighted([("cancel", 4), ("plain", 1), ("ignore", 1)])
        result = []

        def wait():
            ps = [c.p for c in items]
            try:
                if mode == "cancel":
                    await_all_promises_or_cancel(ps)
                else:
                    await_all_promises(ps, ignore_error=mode == "ignore")
                result.append(None)
            except BaseException as e:  # noqa
                if type(e).__name__ in ("TaskKilled", "SimExit", "Violation", "HarnessError"):
                    raise
                result.append(e)
            first = next((c for c in items if c.expected[0] == "err"), None)
            if mode == "ignore" or first is None:
                if result[0] is not None:
                    ctx.note("joint-wrong-error", f"{result[0]!r} although nothing failed or errors are ignored")
                if any(not c.p.is_completed() for c in items):
                    ctx.note("joint-returned-early", str([c.name for c in items if not c.p.is_completed()]))
            else:
                if result[0] is not first.expected[1]:
                    ctx.note("joint-wrong-error", f"{result[0]!r} instead of the error of {first.name}: {first.expected[1]!r}")
                if mode == "cancel":
                    left = [c.name for c in items if not c.p.is_completed()]
                    if left or running[0]:
                        ctx.note("joint-returned-early", f"unsettled {left}, {running[0]} tasks running, error {result[0]!r}")
        ctx.threads([wait] + fns)
        ctx.check(bool(result), "joint-never-returned", "")
        for c in cells:
            c.cancelled = True
        for c in list(cells):
            o = observe(c.p)
        ex.shutdown()
        # chained listeners of cancelled tasks still run once
        finish()

    st, v = ctx.proc({"simple": simple, "chain": simple, "pool": pool, "joint": joint}[sc], "main")
    if st != "ok":
        raise v if st == "exc" else AssertionError(st)
