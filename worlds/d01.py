"""D01: artifacts are installed only if they match the digest published by the index, and bad downloads are not kept."""
import json

from sim import core
from sim.net import Response
from worlds._http import FAULTS_ALL
from worlds._pkgs import *

SCENARIOS = [("pypi", 5), ("simple", 4), ("concurrent", 5), ("republish", 2), ("crash", 3), ("disk", 2)]
QUICK_RUNS = 1300
THOROUGH_RUNS = 40000
MAX_STEPS = 3_000_000
LINE_PREFIXES = tuple(f"pkm/src/pkm/{d}" for d in ("utils/http", "utils/promises", "repositories"))
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm PyPiRepository, SimpleRepository, HttpClient and its cache, WheelDistribution installation; http.client, zipfile; file system calls on a private scratch tree"
STUBS = "index and file servers and the network, clock, thread scheduler, TLS (pass-through), interpreter introspection data"
ASSUMPTIONS = ["one process at a time uses a cache directory", "bytes already verified are not damaged on the disk later",
               "a crash keeps completed system calls (kill -9)", "pages of a PEP 503 index do not change while they are cached"]
BAD = ["evil", "cut", "flip", "empty", "page", "longer"]


class Index:
    def __init__(self, ctx, names, nver, republish):
        g = ctx.gen
        self.ctx = ctx
        self.g = g
        self.items = {}  # filename -> item
        self.bad = 0
        self.bad_kinds = []
        self.bad_only = None
        self.served = []
        self.wanted = 0
        self.rel = g.flip()
        for n in names:
            for v in nver:
                vs = []
                for k in range(3 if republish else 2):
                    p = gen_pkg(g, n, v, ns="shared_ns")
                    p.files[f"{p.norm}/variant.py"] = f"VARIANT = {k}\n".encode()
                    b = p.write(ctx.root / f"dist{k}")
                    with fs._real_open(b, "rb") as fh:
                        vs.append((p, fh.read()))
                it = {"name": n, "version": v, "file": vs[0][0].filename, "evil": vs[-1], "line": [(core.EPOCH, vs[0])],
                      "algs": g.pick([("sha256", "md5"), ("sha256",), ("md5",), ("md5", "sha256"), ("sha512",)])}
                if republish:
                    it["line"].append((core.EPOCH + g.int(1, 20), vs[1]))
                self.items[it["file"]] = it

    def current(self, it, t):
        return [x for at, x in it["line"] if at <= t][-1]

    def published(self, it, a, b):
        return [x for i, (at, x) in enumerate(it["line"]) if at <= b and (i + 1 == len(it["line"]) or it["line"][i + 1][0] >= a)]

    def digests(self, it, t):
        b = self.current(it, t)[1]
        return {a: hashlib.new(a, b).hexdigest() for a in it["algs"]}

    def handle(self, rq):
        now = self.ctx.sim.now
        path = rq.target
        if "#" in path:
            return Response(400, {}, b"bad request", reason="Bad Request")
        parts = path.strip("/").split("/")
        if parts[0] == "pypi" and parts[-1] == "json":
            its = [i for i in self.items.values() if i["name"] == parts[1]]
            if len(parts) == 4:
                return Response(200, {}, json.dumps({"info": {"requires_dist": None if self.g.flip(0.3) else []}}).encode())
            rel = {}
            for i in its:
                rel[i["version"]] = [{"filename": i["file"], "packagetype": "bdist_wheel", "yanked": False, "requires_python": None,
                                      "url": f"https://files.test/f/{i['file']}", "digests": self.digests(i, now)}]
            return Response(200, {}, json.dumps({"info": {"name": parts[1], "version": "1.0"}, "releases": rel}).encode())
        if parts[0] == "simple":
            rows = []
            for i in self.items.values():
                if i["name"] == parts[1]:
                    alg = i["algs"][0]
                    base = "/f/" if self.rel else "https://files.test/f/"
                    rows.append(f'<a href="{base}{i["file"]}#{alg}={self.digests(i, now)[alg]}">{i["file"]}</a><br/>')
            return Response(200, {}, ("<!DOCTYPE html><html><body>" + "\n".join(rows) + "</body></html>").encode())
        it = self.items.get(parts[-1])
        if it is None:
            return Response(404, {}, b"?", reason="Not Found")
        body = self.current(it, now)[1]
        kind = "right"
        if self.bad > 0 and (self.bad_only is None or self.bad_only == it["file"]) and self.g.flip(0.7):
            self.bad -= 1
            kind = self.g.pick(self.bad_kinds)
            if kind == "evil":
                body = it["evil"][1]
            elif kind == "cut":
                body = body[:self.g.int(0, len(body) - 1)]
            elif kind == "flip":
                k = self.g.int(0, len(body) - 1)
                body = body[:k] + bytes([body[k] ^ 1]) + body[k + 1:]
            elif kind == "empty":
                body = b""
            elif kind == "longer":
                body = body + b"\0"
            else:
                body = b"<html>please log in</html>"
            self.ctx.probe(f"served-{kind}")
            self.ctx.event(f"FAULT server {kind}")
        self.served.append((now, it["file"], kind))
        h = {}
        if self.g.flip(0.4):
            h["ETag"] = '"%s"' % hashlib.md5(body).hexdigest()[:8]
            if rq.headers.get("if-none-match") == h["ETag"]:
                return Response(304, h, reason="Not Modified")
        return Response(200, h, body, framing=self.g.pick(["length", "chunked"]))


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    ctx.attach_fs()
    names = ["alpha"] + (["beta"] if g.flip(0.3) else [])
    ix = Index(ctx, names, ["1.0"] + (["2.0"] if g.flip(0.3) else []), sc == "republish")
    ctx.attach_net(ix.handle)
    kind = sc if sc in ("pypi", "simple") else "pypi" if sc == "republish" else g.pick(["pypi", "simple"])
    envs = [0]

    def new_env():
        envs[0] += 1
        return make_env(ctx.root, f"env{envs[0]}")

    def repository():
        while True:
            try:
                return _repository()
            except OSError:  # the cache directory could not be created, the user tries again
                if not ctx.fs.fired:
                    raise
                ctx.fs.disarm()

    def _repository():
        from pkm.repositories.pypi_repository import PyPiRepository
        from pkm.repositories.simple_repository import SimpleRepository
        return PyPiRepository("idx", "https://idx.test/pypi", None) if kind == "pypi" else SimpleRepository("idx", "https://idx.test/simple")

    def install(repo, it, must=None, keep=None):
        """one installation request, judged"""
        from pkm.api.dependencies.dependency import Dependency
        ep = new_env()
        t0 = ctx.sim.now
        n0 = len(ix.served)
        ctx.event(f"install {it['file']}")
        try:
            env = load_env(ep)
            if keep is not None and it["file"] in keep:
                pk = keep[it["file"]]
                t0 = keep[it["file"], "t"]
            else:
                ms = repo.match(Dependency.parse(f"{it['name']}=={it['version']}"), env)
                if len(ms) != 1:
                    ctx.note("wrong-match", f"{it['name']}=={it['version']} matched {ms}")
                    return
                pk = ms[0]
                if keep is not None:
                    keep[it["file"]] = pk
                    keep[it["file"], "t"] = t0
            if g.flip(0.4):
                pk.dependencies(env.installation_target)
            pk.install_to(env.installation_target, Dependency.parse(it["name"]) if g.flip() else None)
            ok, err = True, None
        except Exception as e:  # noqa
            ok, err = False, e
        ctx.event(f"install {it['file']} {'done' if ok else type(err).__name__}")
        if not ok:
            ctx.probe("refused")
            if must:
                ctx.note("not-installable", f"{must}: {it['file']}: {err!r} cause {err.__cause__!r}; served {ix.served[n0:]}")
            return
        ctx.probe("installed")
        tree = snap(ep)
        cands = ix.published(it, t0 if kind == "pypi" else core.EPOCH, ctx.sim.now)
        bad = {}
        for p, b in cands:
            bad[p.files[f"{p.norm}/variant.py"]] = x = verify_files(p, ep, tree)
            if not x:
                return
        ctx.note("unverified-artifact-installed", f"{it['file']} digests of {sorted(bad)} published, served {ix.served[n0:]}, all served {ix.served}: {bad}")

    items = list(ix.items.values())
    rounds = g.int(2, 3) if sc == "crash" else g.int(1, 2)
    ix.bad_kinds = [k for k in BAD if g.flip(0.5)] or ["evil"]
    if g.flip(0.3):
        ix.bad_only = g.pick(items)["file"]
    net_faults = g.flip(0.3) or sc == "crash"
    for rd in range(rounds):
        ix.bad = g.weighted([(0, 1), (1, 3), (2, 3), (3, 1), (8, 1)])
        if net_faults:
            ctx.net.faults_on(0.2, FAULTS_ALL, g.int(1, 4))
        nth = g.int(2, 3) if sc == "concurrent" else 1
        plans = [[g.pick(items) for _ in range(g.int(1, 3))] for _ in range(nth)]
        if nth > 1 and g.flip(0.5):  # all of them want the same artifact
            plans = [[g.pick(items)] * g.int(1, 2)] * nth
        shared_repo = g.flip()
        keep = {} if g.flip(0.5) else None
        tidy = not net_faults and ix.bad == 0 and sc not in ("crash", "disk")

        def main():
            repo = repository()

            def caller(plan):
                mine = repo if shared_repo else repository()
                for it in plan:
                    if ctx.noted:
                        return
                    install(mine, it, "nothing bad happened" if tidy and sc != "republish" else None, keep if nth == 1 else None)
                    if g.flip(0.3):
                        ctx.sim.sleep(g.pick([1, 8]))
            ctx.threads([lambda p=p: caller(p) for p in plans])
            if sc == "crash" and rd < rounds - 1:
                return
            ctx.net.faults_off()
            ctx.fs.disarm()
            ix.bad = 0
            if sc == "republish":
                ctx.sim.sleep(max(0, items[0]["line"][-1][0] + 2 - ctx.sim.now))
                ctx.sim.sleep(max(0, max(i["line"][-1][0] for i in items) + 2 - ctx.sim.now))
                keep and keep.clear()
            for it in items:
                install(repo, it, "server delivers the right bytes again, same process", keep if nth == 1 else None)

        if sc == "disk":
            ctx.fs.arm(g.int(1, 80), "error", g.int(0, 7), sticky=g.flip(0.3), only=lambda p, k: p.startswith("xdg"))
        elif sc == "crash" and rd < rounds - 1:
            ctx.fs.arm(g.int(1, 60), "crash", g.int(0, 11), only=lambda p, k: p.startswith("xdg"))
        st, v = ctx.proc(main, f"pkm{rd}")
        ctx.fs.disarm()
        if st == "exc":
            raise v
        for sk in list(ctx.net.open_socks):
            sk.closed = True
        ctx.net.open_socks = []
        if ctx.noted:
            return
    ctx.net.faults_off()
    ix.bad = 0

    def final():
        repo = repository()
        for it in items:
            install(repo, it, "server delivers the right bytes again, restarted process")
    st, v = ctx.proc(final, "restart")
    if st == "exc":
        raise v
