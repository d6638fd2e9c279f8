"""H03: every fetch settles within bounded attempts, single connection failures are retried, nothing bad is remembered."""
from worlds._http import *

SCENARIOS = [("settle", 3), ("single", 3), ("redirects", 1), ("race", 3), ("recover", 3), ("disk", 3), ("crash", 3)]
QUICK_RUNS = 2200
THOROUGH_RUNS = 60000
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm HttpClient, FetchedResource, FetchInfoConfig/TOML, CacheDirective, promises, monitors; http.client; file system calls on a private scratch tree"
STUBS = "sockets and origin servers (simulated network), clock, thread scheduler, TLS (pass-through)"
ASSUMPTIONS = ["a crash keeps completed system calls (kill -9), no power loss", "one process at a time uses a cache directory",
               "liveness is progress within the step bound of a run once faults stop"]
DIRS = [("update", 4), ("always", 3), ("never", 2), ("after", 1), (None, 1)]
RACE = [("never", 3), ("always", 5), ("update", 1), ("after", 1)]
MAX_CALL_REQUESTS = 8


class W(HttpWorld):
    must_succeed = False

    def on_fetch(self, rec):
        self.bounded(rec)
        if rec["ok"]:
            self.ctx.probe("fetch-ok")
        else:
            self.ctx.probe("fetch-failed")
            if not isinstance(rec["err"], Exception):
                self.ctx.note("strange-failure", repr(rec["err"]))
        self.judge(rec)

    def bounded(self, rec):
        n = len(rec["reqs"])
        if n > MAX_CALL_REQUESTS:
            self.ctx.note("unbounded-attempts", f"{n} requests sent for one call of {rec['url']}")

    def available(self, url):
        u = self.origin.resolve(url)
        return u in self.origin.res and None not in [b for _, b in self.origin.res[u].timeline]

    def judge(self, rec):
        if self.must_succeed and self.available(rec["url"]) and not rec["ok"]:
            self.ctx.note("fetch-failed", f"{self.must_succeed}: {rec['op']} {rec.get('dir')} {rec['url']}: {rec['err']!r} "
                                          f"cause {rec['err'].__cause__!r}")

    def on_get(self, rec):
        if rec["style"] in ("read", "chunks"):
            self.judge(rec)


def recover(ctx, w, client, why, rounds=1):
    w.must_succeed = why
    c = Caller(w, client, 99)
    for _ in range(rounds):
        for u in w.urls():
            for d in ctx.gen.shuffle(["always", "update", "never"])[:2]:
                c.op_fetch(u, d)
    w.must_succeed = False


def run(ctx):
    g = ctx.gen
    ctx.sim.configure_schedule()
    sc = ctx.scenario
    if sc == "redirects":
        return run_redirects(ctx)
    w = W(ctx, n_res=(1, 3) if sc != "race" else (1, 1), horizon=40, p404=0.1 if sc == "settle" else 0.0,
          redirects=g.flip(0.5 if sc != "race" else 0.1))
    nth = g.int(1, 4) if sc != "race" else g.int(2, 4)
    if sc == "single":
        ctx.net.faults_on(0.2, FAULTS_CONN, 1)
        w.must_succeed = "at most one connection failure"
    elif sc == "race":
        w.must_succeed = "no faults"
    elif sc in ("settle", "recover"):
        ctx.net.faults_on(0.3, FAULTS_ALL, g.int(1, 8))
    elif g.flip(0.3):
        ctx.net.faults_on(0.2, FAULTS_ALL, 3)
    rounds = g.int(2, 3) if sc == "crash" else 1
    for rd in range(rounds):
        plans = [w.random_ops(None, g.int(1, 6) if sc != "race" else g.int(4, 14), g, DIRS if sc != "race" else RACE, delete=nth == 1, get=sc != "race")
                 for _ in range(nth)]
        hashes = g.flip(0.5)

        def main():
            client = w.client()
            ctx.threads([(lambda p=p, i=i: w.run_ops(Caller(w, client, i), p)) for i, p in enumerate(plans)])
            if hashes:
                for r in list(w.history)[-3:]:
                    if r.get("res") is not None and r["inc"] == w.inc_no:
                        try:
                            r["res"].is_hash_valid("sha256", "00")
                        except Exception:  # noqa
                            pass
            if not (sc == "crash" and rd < rounds - 1):
                ctx.net.faults_off()
                ctx.fs.disarm()
                recover(ctx, w, client, "faults stopped, same process")

        if sc == "disk":
            ctx.fs.arm(g.int(1, 60), "error", g.int(0, 7), sticky=g.flip(0.3), only=lambda p, k: p != "cache")
        elif sc == "crash" and rd < rounds - 1:
            ctx.fs.arm(g.int(1, 50), "crash", g.int(0, 11))
        st, val = ctx.proc(main, f"pkm{rd}")
        ctx.fs.disarm()
        if st == "exc":
            raise val
        w.crash_reset()
        if ctx.noted:
            return
    ctx.net.faults_off()

    def final():
        recover(ctx, w, w.client(), "restarted process, no faults")

    st, val = ctx.proc(final, "restart")
    if st == "exc":
        raise val


def run_redirects(ctx):
    g = ctx.gen
    w = W(ctx, n_res=(1, 2), horizon=40, p404=0.0, redirects=False)
    target = g.pick(list(w.origin.res))
    n = g.int(0, 6)
    url = target
    for i in range(n):
        u = f"http://{g.pick(HOSTS)}/hop{i}{'?a=b' if g.flip() else ''}"
        base = url.split("/", 3)
        style = "path" if u.split("/", 3)[:3] == base[:3] and g.flip() else "abs"
        w.origin.redirects[u] = Redirect(u, url, style)
        url = u
    loop = g.flip(0.3)
    if loop:
        w.origin.redirects["http://a.test/loop1"] = Redirect("", "http://a.test/loop2", "path")
        w.origin.redirects["http://a.test/loop2"] = Redirect("", "http://a.test/loop1", "abs")
        url = "http://a.test/loop1"
    if g.flip(0.4):
        ctx.net.faults_on(0.3, FAULTS_CONN, 1)
    nth = g.int(1, 3)

    def main():
        client = w.client()

        def t():
            c = Caller(w, client, 0)
            for _ in range(2):
                rec = c.op_fetch(url, g.pick(["update", "never", "always"]))
                if (loop or n > 3) and rec["ok"]:
                    ctx.note("redirect-limit-exceeded", f"{n} redirects followed")
                if not loop and n <= 3 and not rec["ok"]:
                    ctx.note("redirect-not-followed", f"{n} redirects: {rec['err']!r}")
        ctx.threads([t] * nth)

    st, val = ctx.proc(main, "pkm")
    if st == "exc":
        raise val
