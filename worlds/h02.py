"""H02: the cache directive of every fetch is honoured over arbitrary histories."""
from worlds._http import *

SCENARIOS = [("history", 4), ("threads", 4), ("faults", 3), ("crash", 2), ("spellings", 3)]
QUICK_RUNS = 2700
THOROUGH_RUNS = 60000
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm HttpClient, FetchedResource, FetchInfoConfig/TOML, CacheDirective, promises, monitors; http.client; file system calls on a private scratch tree"
STUBS = "sockets and origin servers (simulated network, RFC conformant conditional requests), clock, thread scheduler, TLS (pass-through)"
ASSUMPTIONS = ["server clocks agree with the client's clock and validators change whenever content changes",
               "a crash keeps completed system calls (kill -9), no power loss", "one process at a time uses a cache directory"]
DIRS = [("update", 5), ("always", 3), ("never", 2), ("after", 3)]


class W(HttpWorld):
    def served_ok(self, url):
        u = self.origin.resolve(url)
        return [r for r in self.ctx.net.requests if getattr(r, "url", None) == u and r.response is not None
                and r.response.status in (200, 304)]

    def on_fetch(self, rec):
        ctx = self.ctx
        d = rec["dir"]
        final = self.origin.resolve(rec["url"])
        if d == "always" and rec["stored"] and not rec.get("overlapped"):
            ctx.probe("always-stored")
            if rec["reqs"] or not rec["ok"]:
                ctx.note("always-used-network", f"{rec['url']}: stored copy but {len(rec['reqs'])} requests, ok={rec['ok']} "
                                                f"{rec.get('err')!r}")
        if not rec["ok"] or final not in self.origin.res:
            return
        r = self.origin.res[final]
        if rec["data"] not in r.bodies:
            return  # H01's business
        start = min([rec["t0"]] + [x["t0"] for x in rec["joinable"]])
        if d in ("update", "never"):
            ok = r.during(start, rec["t1"])
            ctx.probe("update-ok")
            if rec["data"] not in ok:
                ctx.note("stale-after-update", f"{d} {rec['url']} returned {tag(rec['data'])} but during the call the server "
                                               f"published {[tag(x) for x in ok]} (joined={len(rec['joinable'])}, requests="
                                               f"{len(rec['reqs'])})")
        elif d == "after":
            ctx.probe("after-ok")
            bound = min(rec["dt"], start)
            # responses of this url (retrieval or confirmation) since the date
            since = [x for x in self.served_ok(rec["url"]) if x.at >= bound]
            ok = r.during(bound, rec["t1"])
            if not since or rec["data"] not in ok:
                ctx.note("older-than-requested", f"after({rec['dt'] - T0}) {rec['url']} returned {tag(rec['data'])} retrieved "
                                                 f"before; responses since: {len(since)}; now={rec['t1'] - T0}")

    def on_get(self, rec):
        pass


def tag(b):
    return "gone" if b is None else f"{b[:50]!r}({len(b)})"


def run(ctx):
    g = ctx.gen
    ctx.sim.configure_schedule()
    sc = ctx.scenario
    if sc == "spellings":
        return spellings(ctx)
    w = W(ctx, n_res=(1, 3), horizon=g.pick([10, 40, 90]), p404=0.1, changes=g.int(0, 6), redirects=g.flip(0.4))
    for r in w.origin.res.values():
        if g.flip(0.5 if sc == "crash" else 0.15):
            toggle(r, g, [1, 3, 10])
    if sc == "faults" or g.flip(0.15):
        ctx.net.faults_on(0.25, FAULTS_ALL, g.int(1, 5))
    nth = 1 if sc == "history" else g.int(1, 4) if sc != "threads" else g.int(2, 4)
    rounds = g.int(2, 3) if sc == "crash" else g.int(1, 2)
    for rd in range(rounds):
        plans = [w.random_ops(None, g.int(2, 8), g, DIRS, get=False, delete=nth == 1) for _ in range(nth)]

        def main():
            client = w.client()
            ctx.threads([(lambda p=p, i=i: w.run_ops(Caller(w, client, i), p)) for i, p in enumerate(plans)])

        if sc == "crash" and rd < rounds - 1:
            ctx.fs.arm(g.int(1, 40), "crash", g.int(0, 11))
        st, val = ctx.proc(main, f"pkm{rd}")
        ctx.fs.disarm()
        if st == "exc":
            raise val
        w.crash_reset()
        if ctx.noted:
            return
        ctx.sim.sleep(g.pick([0.5, 3, 20]))


def toggle(r, g, steps):
    """two contents that keep replacing each other"""
    r.kind = "etag"
    t, pair = T0, [f"<{r.url} {x}>".encode() * g.pick([1, 200]) for x in "ab"]
    r.timeline = [(t, pair[0])]
    while len(r.timeline) < 12:
        t += g.pick(steps)
        r.timeline.append((t, pair[len(r.timeline) % 2]))
    r.bodies = set(pair)


def spellings(ctx):
    """one page that changes a few times, fetched at the same time under two spellings of its url"""
    g = ctx.gen
    w = W(ctx, n_res=(1, 1), horizon=g.pick([3, 10]), p404=0, changes=g.int(1, 3), redirects=False)
    if g.flip():
        ctx.net.faults_on(0.5, ["slow", "stall"], g.int(1, 4))
    if g.flip(0.6):
        ctx.sim.mode, ctx.sim.p_stall = "stall", g.pick([0.01, 0.03, 0.08])
    u = g.pick(w.urls())
    r = w.origin.res[u]
    if g.flip(0.7):
        toggle(r, g, [0.01, 0.1, 1, 3])
    plans = [[op for _ in range(g.int(2, 4)) for op in (("sleep", g.pick([0, 0.2, 1, 3])),
                                                       ("fetch", u, g.pick(["update", "never"]), 0, g.flip()))]
             for _ in range(g.int(2, 3))]

    def main():
        client = w.client()
        ctx.threads([(lambda p=p, i=i: w.run_ops(Caller(w, client, i), p)) for i, p in enumerate(plans)])
        for s in range(2):
            ctx.sim.sleep(g.pick([0, 1, 5]))
            w.run_ops(Caller(w, client, 8), [("fetch", u, "update", 0, g.flip())])
    st, val = ctx.proc(main, "pkm0")
    if st == "exc":
        raise val
