"""X03: lazily computed attributes are computed once at a time, shared, and follow clears and replacements."""
from dataclasses import dataclass

SCENARIOS = [("read", 3), ("clear", 4), ("failing", 3), ("set", 2), ("many", 2), ("nested", 1)]
QUICK_RUNS = 6000
THOROUGH_RUNS = 200000
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm.utils.properties (cached_property, clear_cached_properties)"
STUBS = "clock, thread scheduler"
ASSUMPTIONS = ["preemption at source lines of pkm code, lock operations and simulated time waits"]


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    sim = ctx.sim
    import time
    from pkm.utils.properties import cached_property, clear_cached_properties

    state = {}  # per instance number: dict
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    fail_plan = [g.flip(0.5) for _ in range(g.int(1, 4))] if sc == "failing" or (sc == "clear" and g.flip(0.3)) else []
    waits = [g.pick([0, 0, 0.01, 0.5]) for _ in range(6)]

    class Boom(Exception):
        pass

    def compute(self, tag):
        st = state[self.n, tag]
        if st["running"]:
            ctx.note("computed-concurrently", f"{tag} of object {self.n}")
        st["running"] += 1
        try:
            src = st["src"]
            st["calls"] += 1
            k = st["calls"]
            ctx.event(f"compute {tag}{self.n} #{k} src {src}")
            w = waits[k % len(waits)]
            if w:
                time.sleep(w)
            if k <= len(fail_plan) and fail_plan[k - 1]:
                st["failures"] += 1
                raise Boom(k)
            st["ok"] += 1
            return ("v", self.n, src, k)
        finally:
            st["running"] -= 1

    kind = g.pick(["plain", "frozen", "sub"])

    def body_a(self):
        return compute(self, "a")

    def body_b(self):
        if sc == "nested":
            self.a  # noqa
        return compute(self, "b")

    if kind == "frozen":
        @dataclass(frozen=True)
        class Obj:
            n: int
            a = cached_property(body_a)
            b = cached_property(body_b)
    else:
        class Base:
            def __init__(self, n):
                self.n = n

            a = cached_property(body_a)
            b = cached_property(body_b)

        if kind == "sub":
            class Obj(Base):
                extra = 1
        else:
            Obj = Base

    objs = []

    def new():
        n = len(objs)
        for tag in "ab":
            state[n, tag] = {"running": 0, "src": 0, "calls": 0, "ok": 0, "failures": 0, "clears": [], "errors": 0, "values": set()}
        o = Obj(n)
        objs.append(o)
        return o

    for _ in range(g.int(1, 3) if sc == "many" else 1):
        new()
    allow_set = sc == "set" and kind != "frozen"
    allow_clear = (sc in ("clear",) or (sc == "set" and g.flip(0.3))) and kind != "frozen"

    def read(o, tag):
        st = state[o.n, tag]
        t0 = tick()
        try:
            v = getattr(o, tag)
        except Boom as e:
            st["errors"] += 1
            return
        st["values"].add(v)
        judge(st, tag, o.n, v, t0)

    def judge(st, tag, n, v, t0):
        done = [c for c in st["clears"] if c[1] is not None and c[1] < t0]
        if v[0] == "v":
            if v[1] != n:
                ctx.note("foreign-value", f"{v} read from object {n}")
            late = [c for c in done if c[2] > v[2]]
        else:
            mine = [c for c in st["clears"] if c[2] == v[1]][0]
            late = [c for c in done if mine[1] is not None and c[0] > mine[1]]
        if late:
            ctx.note("outdated-value", f"{tag}{n}: read at {t0} returned {v}, cleared or replaced before it started by {late}")

    def clear(o, tag):
        st = state[o.n, tag]
        st["src"] += 1
        c = [tick(), None, st["src"]]
        st["clears"].append(c)
        if g.flip(0.3) and tag == "a":
            other = state[o.n, "b"]
            other["src"] += 1
            c2 = [tick(), None, other["src"]]
            other["clears"].append(c2)
            clear_cached_properties(o)
            c2[1] = tick()
        else:
            delattr(o, tag)
        c[1] = tick()

    def put(o, tag):
        st = state[o.n, tag]
        st["src"] += 1
        c = [tick(), None, st["src"]]
        st["clears"].append(c)
        setattr(o, tag, ("set", st["src"]))
        c[1] = tick()

    def actor(ops):
        def f():
            for k, o, tag in ops:
                {"read": read, "clear": clear, "put": put}[k](objs[o], tag)
        return f

    scripts = []
    for _ in range(g.int(2, 4)):
        ops = []
        for _ in range(g.int(1, 3)):
            ch = [("read", 4)]
            if allow_clear:
                ch.append(("clear", 2))
            if allow_set:
                ch.append(("put", 2))
            ops.append((g.weighted(ch), g.int(0, len(objs) - 1), g.weighted([("a", 3), ("b", 2)]) if sc in ("many", "nested", "clear") else "a"))
        scripts.append(ops)
    mutated = any(k != "read" for s in scripts for k, _, _ in s)

    def main():
        ctx.threads([actor(s) for s in scripts])
        for (n, tag), st in state.items():
            if not mutated:
                ctx.check(st["ok"] <= 1, "computed-more-than-once", lambda: f"{tag}{n}: {st}")
                ctx.check(len(st["values"]) <= 1, "readers-disagree", lambda: f"{tag}{n}: {st['values']}")
            elif not allow_set:
                ctx.check(st["ok"] <= 1 + len(st["clears"]), "computed-too-often", lambda: f"{tag}{n}: {st}")
            if sc != "nested":
                ctx.check(st["errors"] == st["failures"], "errors-differ", lambda: f"{tag}{n}: {st}")
            ctx.check(st["calls"] == st["ok"] + st["failures"], "lost-computation", lambda: st)
            # afterwards everybody agrees on one up to date value
            if st["calls"] or st["clears"]:
                vs = set()
                for _ in range(2):
                    for _ in range(6):
                        try:
                            vs.add(getattr(objs[n], tag))
                            break
                        except Boom:
                            continue
                ctx.check(len(vs) == 1, "not-settled", lambda: f"{tag}{n}: {vs}")
                judge(st, tag, n, vs.pop(), tick())
        ctx.probe(f"kind-{kind}")

    st, v = ctx.proc(main, "main")
    if st != "ok":
        raise v if st == "exc" else AssertionError(st)
