"""H01: every successful fetch/get/post yields exactly one complete representation of the requested URL."""
from worlds import _http
from worlds._http import *

SCENARIOS = [("reuse", 3), ("threads", 3), ("faults", 4), ("disk", 2), ("crash", 2)]
QUICK_RUNS = 2400
THOROUGH_RUNS = 60000
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm HttpClient, FetchedResource, FetchInfoConfig/TOML, CacheDirective, promises, monitors; http.client; file system calls on a private scratch tree"
STUBS = "sockets and origin servers (simulated network), clock, thread scheduler, TLS (pass-through)"
ASSUMPTIONS = ["origin servers answer each request with one well-formed response carrying Content-Length or chunked framing",
               "a crash keeps completed system calls (kill -9), no power loss", "one process at a time uses a cache directory"]
DIRS = [("update", 4), ("always", 2), ("never", 2), ("after", 1), (None, 1)]


class W(HttpWorld):
    def on_fetch(self, rec):
        if not rec["ok"]:
            if rec.get("read_failed") and not any(r["url"] == rec["url"] for r in self.active):
                self.ctx.note("fetch-result-unreadable", f"{rec['url']}: {rec['err']!r}")
            return
        self.ctx.probe("fetch-ok")
        allowed = self.origin.allowed(rec["url"])
        if rec["data"] not in allowed:
            self.ctx.note("fetch-content", describe(rec, rec["data"], allowed))

    def on_get(self, rec):
        if not rec["ok"] or not rec["complete"]:
            return
        self.ctx.probe("get-ok")
        st, data = rec["status"], rec["data"]
        final = self.origin.resolve(rec["url"])
        if st == 200:
            allowed = self.origin.allowed(rec["url"])
            if data not in allowed:
                self.ctx.note("get-content", describe(rec, data, allowed))
        elif st == 404:
            exp = {f"<no such page {final}>".encode() * 50, f"<gone {final}>".encode() * 400}
            if data not in exp:
                self.ctx.note("get-error-content", describe(rec, data, exp))
        elif st == 202:
            if data != b"accepted, come back later":
                self.ctx.note("get-error-content", describe(rec, data, set()))
        elif st == 206:
            pass
        elif st in (500, 503):
            if data.replace(b"busy ", b"") != b"":
                self.ctx.note("get-error-content", describe(rec, data, set()))
        else:
            self.ctx.note("get-status", f"{rec['url']} -> {st}")

    def on_post(self, rec):
        if not rec["ok"] or rec["status"] != 200:
            return
        self.ctx.probe("post-ok")
        p = rec["payload"]
        final = rec["url"]
        exp = b"<posted %s %s %s>" % (final.encode(), str(len(p)).encode(), hashlib.md5(p).hexdigest().encode())
        if rec["data"] != exp:
            self.ctx.note("post-answer", f"{rec['url']}: got {rec['data'][:200]!r} expected {exp!r}")


def describe(rec, data, allowed):
    pre = [f"{len(b)} bytes {b[:60]!r}" for b in sorted(allowed)]
    trunc = any(b.startswith(data) for b in allowed)
    return f"{rec['op']} {rec['url']} ({rec.get('dir') or rec.get('style')}): {len(data)} bytes {data[:80]!r}..{data[-30:]!r}" \
           f" {'(truncated)' if trunc else ''}; published: {pre}"


def run(ctx):
    g = ctx.gen
    ctx.sim.configure_schedule()
    sc = ctx.scenario
    w = W(ctx, n_res=(1, 4), horizon=50, p404=0.15)
    if sc in ("faults",):
        ctx.net.faults_on(0.25, FAULTS_ALL, g.int(1, 6))
    elif sc in ("disk", "crash", "threads") and g.flip(0.4):
        ctx.net.faults_on(0.15, FAULTS_ALL, 3)
    elif sc == "reuse" and g.flip(0.3):
        ctx.net.faults_on(0.2, ["close-after", "idle-close", "http-503"], 3)
    nth = 1 if sc == "reuse" else g.int(1, 4)
    rounds = g.int(2, 3) if sc == "crash" else 1

    for rd in range(rounds):
        plans = [w.random_ops(None, g.int(2, 7), g, DIRS, delete=nth == 1) for _ in range(nth)]

        def main():
            client = w.client()
            ctx.threads([(lambda p=p, i=i: w.run_ops(Caller(w, client, i), p)) for i, p in enumerate(plans)])

        if sc == "disk":
            ctx.fs.arm(g.int(1, 60), "error", g.int(0, 7), sticky=g.flip(0.3))
        elif sc == "crash" and rd < rounds - 1:
            ctx.fs.arm(g.int(1, 50), "crash", g.int(0, 11))
        st, val = ctx.proc(main, f"pkm{rd}")
        ctx.fs.disarm()
        if st == "exc" and not (sc == "disk" and isinstance(val, OSError)):
            raise val
        w.crash_reset()
    # everything still readable afterwards
    if not ctx.noted:
        ctx.net.faults_off()

        def final():
            c = Caller(w, w.client(), 9)
            for u in w.urls():
                c.op_fetch(u, "always")
        st, val = ctx.proc(final, "final")
        if st == "exc":
            raise val
