"""Shared world of the HTTP properties: simulated origin servers with a version time line, caller threads on one client."""
import gzip
import hashlib
import email.utils as eu
import datetime as dt
import json
import io

from sim import core
from sim.net import Response
from sim.fs import _real_open

HOSTS = ["a.test", "b.test"]
T0 = core.EPOCH


def httpdate(t):
    return eu.formatdate(int(t), usegmt=True)


class Resource:
    def __init__(self, url, gen, i):
        self.url = url
        self.timeline = []  # (time, body|None(404))
        self.kind = gen.weighted([("etag", 3), ("lm", 2), ("plain", 1)])
        self.framing = gen.weighted([("length", 3), ("chunked", 1)])
        self.gzip = gen.flip(0.25)
        self.name = url
        self.bodies = set()

    def set_timeline(self, gen, horizon, p404, changes=3):
        t = 0
        n = 0
        pool = []
        while True:
            if pool and gen.flip(0.15):
                body = gen.pick(pool)
            elif n and gen.flip(p404):
                body = None
            else:
                size = gen.weighted([(40, 3), (0, 0.4), (3000, 2), (9000, 1.5), (20000, 1), (70000, 0.5)])
                tag = f"<{self.url} v{n}>".encode()
                body = (tag * (size // len(tag) + 1))[:max(size, len(tag))] if size else b""
                pool.append(body)
            if not self.timeline or self.timeline[-1][1] != body:
                self.timeline.append((T0 + t, body))
            n += 1
            if n > changes:
                break
            t += gen.int(1, max(2, horizon // changes))
        self.bodies = {b for _, b in self.timeline if b is not None}

    def index_at(self, t):
        k = 0
        for i, (at, _) in enumerate(self.timeline):
            if at <= t:
                k = i
        return k

    def at(self, t):
        return self.timeline[self.index_at(t)]

    def during(self, a, b):
        return {self.timeline[i][1] for i in range(self.index_at(a), self.index_at(b) + 1)}


class Redirect:
    def __init__(self, url, target, style):
        self.url = url
        self.target = target  # absolute url
        self.style = style  # abs | path


class Origin:
    """the simulated web: resources and redirects by absolute url"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.res = {}
        self.redirects = {}
        self.served = []
        self.bad_targets = 0

    def url_of(self, rq):
        scheme = "https" if rq.port == 443 else "http"
        port = "" if rq.port in (80, 443) else f":{rq.port}"
        return f"{scheme}://{rq.host}{port}{rq.target}"

    def handle(self, rq):
        url = self.url_of(rq)
        rq.url = url
        rq.task = self.ctx.sim.current
        if rq.method == "POST":
            body = b"<posted %s %s %s>" % (url.encode(), str(len(rq.body)).encode(), hashlib.md5(rq.body).hexdigest().encode())
            return Response(200, {}, body)
        if url in self.redirects:
            rd = self.redirects[url]
            loc = rd.target
            if rd.style == "path":
                loc = "/" + loc.split("/", 3)[3]
            return Response((301, 302, 307, 308)[len(url) % 4], {"Location": loc}, b"moved elsewhere " * (len(url) * 3 % 90))
        r = self.res.get(url)
        now = self.ctx.sim.now
        if r is None:
            return Response(404, {}, f"<no such page {url}>".encode() * 50, reason="Not Found")
        since, body = r.at(now)
        rq.version = r.index_at(now)
        if body is None:
            return Response(404, {}, f"<gone {url}>".encode() * 400, reason="Not Found", framing=r.framing)
        h = {"Date": httpdate(now)}
        etag = '"%s"' % hashlib.md5(body).hexdigest()[:8]
        if r.kind == "etag":
            h["ETag"] = etag
            if rq.headers.get("if-none-match") == etag:
                return Response(304, h, reason="Not Modified")
        elif r.kind == "lm":
            h["Last-Modified"] = httpdate(since)
        if r.kind != "etag" or "if-none-match" not in rq.headers:
            ims = rq.headers.get("if-modified-since")
            if ims:
                t = eu.parsedate_to_datetime(ims).timestamp()
                if int(since) <= t:
                    return Response(304, h, reason="Not Modified")
        if r.gzip and "gzip" in rq.headers.get("accept-encoding", ""):
            h["Content-Encoding"] = "gzip"
            body = gzip.compress(body, 1, mtime=0)
        return Response(200, h, body, framing=r.framing)

    def resolve(self, url, limit=3):
        """final url after redirects or None"""
        n = 0
        while url in self.redirects:
            n += 1
            if n > limit:
                return None
            url = self.redirects[url].target
        return url

    def allowed(self, url):
        u = self.resolve(url)
        r = self.res.get(u) if u else None
        return r.bodies if r else set()


def build_origin(ctx, n_res=(1, 4), horizon=60, p404=0.1, redirects=True, changes=None):
    g = ctx.gen
    o = Origin(ctx)
    n = g.int(*n_res)
    for i in range(n):
        host = HOSTS[0] if g.flip(0.75) else HOSTS[1]
        scheme = "https" if g.flip(0.5) else "http"
        path = g.pick(["/pkg/x{}.whl", "/simple/x{}/", "/a/b/c/x{}", "/x{}", "/pkg/x.tar.gz?v={}", "/same/x?q={}"]).format(i)
        url = f"{scheme}://{host}{path}"
        r = Resource(url, g, i)
        r.set_timeline(g, horizon, p404, g.int(0, 4) if changes is None else changes)
        o.res[url] = r
    # near collisions: other resources whose urls differ from an existing one in a single aspect
    for i in range(g.weighted([(0, 5), (1, 3), (2, 2)])):
        url = g.pick(list(o.res))
        scheme, _, rest = url.partition("://")
        host, _, path = rest.partition("/")
        name = host.partition(":")[0]
        k = g.pick(["scheme", "host", "port", "port2", "query", "case", "slash", "dir", "escape"])
        if k == "scheme":
            sib = f"{'http' if scheme == 'https' else 'https'}://{name}/{path}"
        elif k == "host":
            sib = f"{scheme}://{'b.test' if name == 'a.test' else 'a.test'}/{path}"
        elif k in ("port", "port2"):
            sib = f"http://{name}:{8080 if k == 'port' else 8081}/{path}"
        elif k == "query":
            sib = f"{url}{'&' if '?' in url else '?'}z=1"
        elif k == "case":
            sib = f"{scheme}://{host}/{path.swapcase()}"
        elif k == "slash":
            sib = url[:-1] if url.endswith("/") else url + "/" if "?" not in url else url.replace("?", "/?", 1)
        elif k == "escape":
            sib = url + "%20"
        else:
            sib = f"{scheme}://{host}/other/{path}"
        if sib not in o.res:
            r = Resource(sib, g, i)
            r.set_timeline(g, horizon, p404, g.int(0, 2) if changes is None else changes)
            o.res[sib] = r
    urls = list(o.res)
    if redirects:
        for j in range(g.int(0, 3)):
            tgt = g.pick(urls + list(o.redirects))
            base = tgt.split("/", 3)
            same = g.flip(0.6)
            host = f"{base[0]}//{base[2]}" if same else "http://c.test"
            q = "?token=1" if g.flip(0.4) else ""
            url = f"{host}/r/{j}{q}"
            o.redirects[url] = Redirect(url, tgt, "path" if same and g.flip(0.5) else "abs")
        if g.flip(0.15):
            o.redirects["http://a.test/loop1"] = Redirect("", "http://a.test/loop2", "path")
            o.redirects["http://a.test/loop2"] = Redirect("", "http://a.test/loop1", "abs")
    return o


def explicit_port(url):
    """another spelling of the same url"""
    scheme, _, rest = url.partition("://")
    host, _, path = rest.partition("/")
    return url if ":" in host else f"{scheme}://{host}:{443 if scheme == 'https' else 80}/{path}"


FAULTS_CONN = ["refuse", "reset-before", "eof-before", "close-after", "idle-close"]
FAULTS_ALL = FAULTS_CONN + ["connect-timeout", "reset-mid", "eof-mid", "slow", "stall", "http-503", "http-500", "http-202", "http-206"]
FAULTS_BODY = ["reset-mid", "eof-mid", "stall", "http-503"]


class Caller:
    """one caller thread's operations on the client; keeps the history that the oracles judge"""

    def __init__(self, world, client, tid):
        self.w = world
        self.ctx = world.ctx
        self.client = client
        self.tid = tid

    def op_fetch(self, url, directive, dt_=None, read=True, spelled=False):
        from pkm.utils.http.cache_directive import CacheDirective
        sim = self.ctx.sim
        w = self.w
        if directive == "always":
            cd = CacheDirective.allways()
        elif directive == "update":
            cd = CacheDirective.ask_for_update()
        elif directive == "never":
            cd = CacheDirective.never()
        elif directive == "after":
            cd = CacheDirective.if_retrieved_after(dt.datetime.fromtimestamp(dt_, dt.timezone.utc))
        else:
            cd = None
        rec = {"op": "fetch", "url": url, "dir": directive, "t0": sim.now, "t1": None, "ok": None, "dt": dt_, "n0": sim.nlog,
               "task": sim.current.id, "inc": w.inc_no, "joinable": [r for r in w.active if r["url"] == url],
               "req0": len(self.ctx.net.requests), "conn0": self.ctx.net.nconn, "stored": w.stored.get(url, False)}
        w.active.append(rec)
        for r in w.active:
            if r is not rec and r["url"] == url:
                r["overlapped"] = True
                rec["overlapped"] = True
        w.history.append(rec)
        sim.event(f"fetch {url} {directive}")
        try:
            res = self.client.fetch_resource(explicit_port(url) if spelled else url, cd)
            rec["res"] = res
            rec["ok"] = True
            if read:
                sim.yield_point("read")
                with _real_open(res.data, "rb") as fh:
                    rec["data"] = fh.read()
            else:
                rec["data"] = None
        except Exception as e:  # noqa
            rec["ok"] = False
            rec["err"] = e
            if rec.get("res") is not None:
                rec["read_failed"] = True
        rec["t1"] = sim.now
        rec["n1"] = sim.nlog
        w.active.remove(rec)
        if rec["ok"]:
            w.stored[url] = True
        sim.event(f"fetch done {url} {'ok' if rec['ok'] else type(rec['err']).__name__}")
        rec["reqs"] = [r for r in self.ctx.net.requests[rec["req0"]:] if r.task is sim.current]
        w.on_fetch(rec)
        return rec

    def op_get(self, url, style):
        sim = self.ctx.sim
        w = self.w
        rec = {"op": "get", "url": url, "style": style, "t0": sim.now, "ok": None, "complete": False}
        w.history.append(rec)
        sim.event(f"get {url} {style}")
        try:
            with self.client.get(url) as rsp:
                rec["status"] = rsp.status
                if style == "read":
                    rec["data"] = rsp.read()
                    rec["complete"] = True
                elif style == "chunks":
                    out = io.BytesIO()
                    while d := rsp.read(1000):
                        out.write(d)
                    rec["data"] = out.getvalue()
                    rec["complete"] = True
                elif style == "partial":
                    rsp.read(10)
                elif style == "raise":
                    rsp.read(5)
                    raise KeyError("consumer gave up")
            rec["ok"] = True
        except Exception as e:  # noqa
            rec["ok"] = False
            rec["err"] = e
        sim.event(f"get done {url} {'ok' if rec['ok'] else type(rec['err']).__name__}")
        w.on_get(rec)
        return rec

    def op_post(self, url, payload, style):
        sim = self.ctx.sim
        rec = {"op": "post", "url": url, "payload": payload, "t0": sim.now, "ok": None}
        self.w.history.append(rec)
        try:
            body = payload
            if style == "iter":
                class It:
                    def __iter__(s):
                        for i in range(0, len(payload), 700):
                            yield payload[i:i + 700]
                body = It()
            with self.client.post(url, body) as rsp:
                rec["status"] = rsp.status
                rec["data"] = rsp.read()
            rec["ok"] = True
        except Exception as e:  # noqa
            rec["ok"] = False
            rec["err"] = e
        sim.event(f"post done {url} {'ok' if rec['ok'] else type(rec['err']).__name__}")
        self.w.on_post(rec)


class HttpWorld:
    def __init__(self, ctx, **kw):
        self.ctx = ctx
        self.active = []
        self.history = []
        self.stored = {}
        self.inc_no = 0
        self.origin = build_origin(ctx, **kw)
        ctx.attach_fs()
        ctx.attach_net(self.origin.handle)
        ctx.net.seg_mode = 1
        self.cache = ctx.root / "cache"

    # oracles are hooked by the property modules
    def on_fetch(self, rec):
        pass

    def on_get(self, rec):
        pass

    def on_post(self, rec):
        pass

    def urls(self):
        return list(self.origin.res) + list(self.origin.redirects)

    def client(self):
        from pkm.utils.http.http_client import HttpClient
        return HttpClient(self.cache)

    def random_ops(self, caller, n, g, dirs, get=True, delete=False):
        urls = self.urls() + (["http://a.test/missing"] if g.flip(0.2) else [])
        ops = []
        for _ in range(n):
            k = g.weighted([("fetch", 6), ("get", 3 if get else 0), ("post", 1 if get else 0), ("sleep", 2),
                            ("delete", 1 if delete else 0)])
            u = g.pick(urls)
            if k == "fetch":
                d = g.weighted(dirs)
                ops.append((k, u, d, g.int(0, 60), g.flip(0.25)))
            elif k == "get":
                ops.append((k, u, g.pick(["read", "chunks", "partial", "raise", "ignore"])))
            elif k == "post":
                ops.append((k, g.pick(urls), (f"<payload {g.int(0, 99)}>" * g.pick([1, 50, 900])).encode(), g.pick(["bytes", "iter"])))
            elif k == "sleep":
                ops.append((k, g.pick([0.5, 2, 5, 15])))
            else:
                ops.append((k, u, g.weighted([("pkm", 4), ("data", 4), ("info", 2), ("clear", 1)])))
                if g.flip():
                    ops.insert(len(ops) - 1, ("fetch", u, "update", 0, False))
                    ops.append(("fetch", u, g.weighted(dirs), g.int(0, 60), g.flip(0.25)))
        return ops

    def run_ops(self, caller, ops):
        sim = self.ctx.sim
        for op in ops:
            if self.ctx.noted:
                return
            self.ctx.net.maybe_idle_close()
            if op[0] == "fetch":
                d = max(T0, sim.now - op[3]) if op[2] == "after" else None
                caller.op_fetch(op[1], op[2], d and float(int(d)), spelled=op[4])
            elif op[0] == "get":
                caller.op_get(op[1], op[2])
            elif op[0] == "post":
                caller.op_post(op[1], op[2], op[3])
            elif op[0] == "sleep":
                sim.sleep(op[1])
            elif op[0] == "delete":
                rec = [r for r in self.history if r["op"] == "fetch" and r.get("res") is not None and r["url"] == op[1]]
                if rec and not any(r["url"] == op[1] for r in self.active):
                    sim.event(f"delete {op[1]}")
                    self.stored[op[1]] = False
                    try:
                        res = rec[-1]["res"]
                        if op[2] == "pkm":
                            res.delete()
                        elif op[2] == "data":  # somebody made room on the disk
                            res.data.unlink(missing_ok=True)
                        elif op[2] == "info":
                            res.fetch_info.unlink(missing_ok=True)
                        else:
                            self.stored.clear()
                            caller.client.clear_resources()
                    except OSError:
                        pass

    def crash_reset(self):
        """the process died: operations in flight never end"""
        for r in self.active:
            r["t1"] = self.ctx.sim.now
            self.stored[r["url"]] = False
        self.active = []
        for sk in list(self.ctx.net.open_socks):
            sk.closed = True
        self.ctx.net.open_socks = []
        self.inc_no += 1
