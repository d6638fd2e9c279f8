"""P01: publishing hands every distribution file of a project, complete and truthfully described, to the repository or reports a failure."""
import re
import base64

from sim.net import Response
from worlds._pkgs import *

SCENARIOS = [("plain", 2), ("net", 4), ("server", 4), ("disk", 2), ("crash", 2), ("concurrent", 3)]
QUICK_RUNS = 900
THOROUGH_RUNS = 60000
MAX_STEPS = 3_000_000
LINE_PREFIXES = tuple(f"pkm/src/pkm/{d}" for d in ("repositories/pypi_repository", "utils/http", "utils/io_streams"))
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm Project.publish, PyPiPublisher, multipart encoder, HttpClient, RepositoryManagement.publisher_for, project configuration and metadata; http.client; "
        "file system calls on a private scratch tree")
STUBS = "package index server and the network, clock, thread scheduler, TLS (pass-through)"
ASSUMPTIONS = ["a repository accepts a file it already has again if it is identical (as PyPI does)", "distribution files do not change while they are published",
               "a server parses multipart/form-data as RFC 2046/7578 prescribe"]
NET = ["refuse", "reset-before", "eof-before", "reset-send", "connect-timeout", "reset-mid", "eof-mid", "slow", "stall", "http-503", "http-500", "close-after"]
EARLY = ["refuse", "reset-before", "eof-before", "reset-send"]


BOUNDARIES = []  # seen so far in this run


def parse_multipart(rq):
    """-> ([(name, filename, bytes)], None) or (None, why)"""
    m = re.fullmatch(r'multipart/form-data; boundary="?([^"]+)"?', rq.headers.get("content-type", ""))
    if not m:
        return None, f"content type {rq.headers.get('content-type')}"
    BOUNDARIES.append(m[1].encode())
    b = m[1].encode()
    body = b"\r\n" + rq.body
    parts = body.split(b"\r\n--" + b)
    if parts[0].strip():
        return None, "preamble"
    if len(parts) < 2 or not re.fullmatch(rb"--[ \t]*(\r\n)?", parts[-1]):
        return None, "no closing boundary"
    out = []
    for p in parts[1:-1]:
        if not p.startswith(b"\r\n"):
            return None, "bad delimiter"
        head, sep, data = p[2:].partition(b"\r\n\r\n")
        if not sep:
            return None, "part without headers"
        d = [h for h in head.decode().split("\r\n") if h.lower().startswith("content-disposition:")]
        nm = d and re.search(r'[; ]name="([^"]*)"', d[0])
        if not nm:
            return None, "part without a name"
        fn = re.search(r'filename="([^"]*)"', d[0])
        out.append((nm[1], fn and fn[1], data))
    return out, None


class Index:
    def __init__(self, ctx):
        g = ctx.gen
        self.ctx = ctx
        self.store = {}
        self.bad = 0
        self.bad_kinds = ["s400", "s401", "s403", "s500", "s503", "redirect", "redirect", "s202", "s204", "s300", "s304", "accept-then-500"]
        self.elsewhere = []
        self.checks_digest = g.flip()
        self.malformed = []
        self.incomplete = []
        self.known = {}  # file name -> content
        self.auth = {}

    def handle(self, rq):
        if rq.method != "POST":
            return Response(404, {}, b"?", reason="Not Found")
        if rq.host != "idx.test" or not re.fullmatch(r"/up\d/", rq.target) or rq.target.strip("/") not in self.auth:
            self.elsewhere.append(f"{rq.host}{rq.target}")
        kind = None
        if self.bad > 0 and self.ctx.gen.flip(0.6):
            self.bad -= 1
            kind = self.ctx.gen.pick(self.bad_kinds)
            self.ctx.sim.count(f"fault-server-{kind}")
            self.ctx.event(f"FAULT server {kind}")
            self.faults += 1
            if kind == "redirect":
                to = self.ctx.gen.pick([rq.target.rstrip("/") + "/other", "https://other.test" + rq.target, "/up2/"])
                return Response(self.ctx.gen.pick([301, 302, 303, 307, 308]), {"Location": to}, b"moved")
            if kind[0] == "s":
                return Response(int(kind[1:]), {}, b"no", reason="No")
        fields, why = parse_multipart(rq)
        if why:
            self.malformed.append(why)
            return Response(400, {}, why.encode(), reason="Bad Request")
        one = {}
        for n, fn, d in fields:
            one.setdefault(n, []).append((fn, d))
        text = {n: [d.decode() for fn, d in v] for n, v in one.items() if n != "content"}
        want_auth = self.auth.get(rq.target.split("/")[1])
        got = rq.headers.get("authorization", "").partition(" ")
        if got[0] != "Basic" or base64.b64decode(got[2]).decode() != want_auth:
            self.malformed.append(f"authorization {rq.headers.get('authorization')}")
            return Response(403, {}, b"who are you", reason="Forbidden")
        if text.get(":action") != ["file_upload"] or text.get("protocol_version") != ["1"] or len(one.get("content", ())) != 1:
            self.malformed.append(f"form {sorted(text)}")
            return Response(400, {}, b"form", reason="Bad Request")
        fn, data = one["content"][0]
        if self.known.get(fn) != data:
            self.incomplete.append((fn, len(data), len(self.known.get(fn) or b"")))
        if self.checks_digest and text.get("sha256_digest") != [hashlib.sha256(data).hexdigest()]:
            return Response(400, {}, b"digest mismatch", reason="Bad Request")
        if fn in self.store and self.store[fn][0] != data:
            return Response(400, {}, b"File already exists", reason="Bad Request")
        self.store[fn] = (data, text)
        self.ctx.event(f"accepted {fn}")
        if kind:
            return Response(500, {}, b"no", reason="No")
        return Response(200, {}, b"")


class Proj:
    def __init__(self, ctx, i, nasty=None):
        g = ctx.gen
        self.name = ["alpha", "Beta-Proj", "last"][i]
        self.version = g.pick(["1.0", "2.0.1a1"])
        self.dir = ctx.root / f"p{i}"
        self.dir.mkdir()
        self.user, self.password = g.pick(["__token__", "me"]), g.pick(["pypi-Abc", "p:w\u00e9 \u20ac", "x" * 80])
        self.summary = g.pick(["a summary", "caf\u00e9 \u2713"])
        self.readme = g.pick(["hello", "# title\n\nline \u2713\n--boundary\n", "x\n" * 9000])
        self.deps = g.sample(["dep-one>=1", "dep-two; python_version<'4'", "three[ex]==2.*", "four", "five<9", "six-six~=1.2"], 0.5)
        self.requires = g.pick([None, ">=3.7", ">=3.8,<4"])
        self.keywords = g.sample(["one", "two", "three", "four", "five"], 0.5)
        self.maintainers = g.sample([("Ann", "ann@x.test"), ("Bob", None)], 0.4)
        self.authors = g.sample([("Dan", None), ("Eve", "eve@x.test")], 0.5)
        who = lambda l: "[" + ", ".join("{" + ", ".join(f'{k} = "{v}"' for k, v in (("name", n), ("email", e)) if v) + "}" for n, e in l) + "]"
        t = [f'[project]\nname = "{self.name}"\nversion = "{self.version}"', f'description = "{self.summary}"',
             'readme = {text = ' + toml_str(self.readme) + "}", f"dependencies = [{', '.join(toml_str(d) for d in self.deps)}]"]
        if self.requires:
            t.append(f'requires-python = "{self.requires}"')
        if self.keywords:
            t.append(f"keywords = [{', '.join(toml_str(k) for k in self.keywords)}]")
        if self.maintainers:
            t.append(f"maintainers = {who(self.maintainers)}")
        if self.authors:
            t.append(f"authors = {who(self.authors)}")
        (self.dir / "pyproject.toml").write_text("\n".join(t) + '\n[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n')
        self.default_dir = g.flip(0.7)
        self.dist = self.dir / "dist" / self.version if self.default_dir else self.dir / "out"
        self.dist.mkdir(parents=True)
        base = f"{self.name.lower().replace('-', '_')}-{self.version}"
        self.files = {}
        for f in g.sample([f"{base}-py3-none-any.whl", f"{base}.tar.gz", f"{base}-cp312-cp312-linux_x86_64.whl"], 0.6) or [f"{base}.tar.gz"]:
            n = g.pick([0, 1, 500, 8191, 8192, 8193, 16384, 40000, 100001])
            unit = g.pick([b"\r\n", b"--", b"\0\xff", b"\r\n--%d\r\n" % n, b"abc"])
            if nasty:
                n, unit = n + 100, b"\r\n--%s%s\r\n" % (nasty, g.pick([b"", b"--"]))
            self.files[f] = (b"PK" + f.encode() + unit * (n // len(unit) + 1))[:n] if n else b""
            (self.dist / f).write_bytes(self.files[f])
        if g.flip(0.3):
            (self.dist / ".leftover.whl.tmp").write_bytes(b"partial")
        if g.flip(0.2):
            (self.dist / "notes").mkdir()
            (self.dist / "notes/x.whl").write_bytes(b"not a distribution of this version")
        self.url_path = f"up{i}"


def toml_str(s):
    import json
    return json.dumps(s)


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    ctx.attach_fs()
    contain_current_env(ctx.root)
    ix = Index(ctx)
    ix.faults = 0
    ctx.attach_net(ix.handle)
    ps = [Proj(ctx, i) for i in range(2 if sc == "concurrent" else 1)]
    home = ctx.root / "xdg/pkm/etc/pkm"
    home.mkdir(parents=True)
    (home / "repositories.toml").write_text("".join(f'[repos.idx{i}]\ntype = "pypi"\nurl = "https://idx.test/pypi"\npublish-url = "https://idx.test/up{i}"\n'
                                                    for i in range(3)))
    for p in ps:
        ix.known.update(p.files)
        ix.auth[p.url_path] = f"{p.user}:{p.password}"
    how = g.pick(["configured", "repository"])
    attempts = g.int(1, 3)

    def publish(i, must=None):
        from pkm.api.projects.project import Project
        from pkm.api.pkm import pkm
        p = ps[i]
        i = int(p.url_path[2:])
        ctx.event(f"publish {p.name}")
        try:
            if how == "configured":
                to = pkm.repository_management.publisher_for(f"idx{i}")
            else:
                from pkm.repositories.pypi_repository import PyPiRepository
                to = PyPiRepository("idx", "https://idx.test/pypi", f"https://idx.test/{p.url_path}")
            Project.load(p.dir).publish(to, {"username": p.user, "password": p.password}, None if p.default_dir else p.dist)
        except Exception as e:  # noqa
            ctx.event(f"publish {p.name}: {type(e).__name__}")
            ctx.probe("refused")
            if must:
                ctx.note("cannot-publish", f"{must}: {p.name} {sorted((f, len(c)) for f, c in p.files.items())}: {e!r}; server complained of {ix.malformed}")
            return False
        ctx.event(f"publish {p.name}: done")
        ctx.probe("published")
        for f, c in p.files.items():
            if f not in ix.store:
                ctx.note("reported-success-without-upload", f"{f} was not accepted by the repository; it has {sorted(ix.store)}")
                return True
            data, form = ix.store[f]
            if data != c:
                ctx.note("wrong-content-published", f"{f}: {len(data)} bytes instead of {len(c)}")
                return True
            bad = wrong_form(p, f, c, form)
            if bad:
                ctx.note("wrong-description-published", f"{f}: {bad}")
        return True

    def wrong_form(p, f, c, form):
        from pkm.api.dependencies.dependency import Dependency
        whl = f.endswith(".whl")
        want = {"filetype": "bdist_wheel" if whl else "sdist", "pyversion": f.split("-")[2] if whl else "source",
                "md5_digest": hashlib.md5(c).hexdigest(), "sha256_digest": hashlib.sha256(c).hexdigest(),
                "blake2_256_digest": hashlib.blake2b(c, digest_size=32).hexdigest(), "name": p.name, "version": p.version, "summary": p.summary,
                "description": p.readme}
        bad = [f"{k}: {form.get(k)!r} instead of {v!r}"[:300] for k, v in want.items() if form.get(k) != [v]]
        if p.requires:
            got = form.get("requires_python", [""])[0]
            if sorted(got.replace(" ", "").split(",")) != sorted(p.requires.split(",")):
                bad.append(f"requires_python {got}")
        names = sorted(re.match(r"[\w-]+", d)[0] for d in form.get("requires_dist", []))
        if names != sorted(re.match(r"[\w-]+", d)[0] for d in p.deps):
            bad.append(f"requires_dist {form.get('requires_dist')}")
        kw = re.split(r"[, ]+", ",".join(form.get("keywords", []))) if form.get("keywords") else []
        if sorted(k for k in kw if k) != sorted(p.keywords):
            bad.append(f"keywords {form.get('keywords')}")
        for role, people in (("maintainer", p.maintainers), ("author", p.authors)):
            text = ",".join(form.get(role, []) + form.get(f"{role}_email", []))
            for n, e in people:
                for x in (n, e):
                    if x and x not in text:
                        bad.append(f"{role} {x} is missing in {text!r}")
            others = {x for n, e in (p.authors if role == "maintainer" else p.maintainers) for x in (n, e) if x} - {x for n, e in people for x in (n, e)}
            bad += [f"{role} names {x}, who is not" for x in others if x in text]
        return bad

    def stray():
        extra = set(ix.store) - set(ix.known)
        if extra:
            ctx.note("stray-file-published", f"{sorted(extra)}")
        if ix.elsewhere and not ctx.noted:
            ctx.note("sent-elsewhere", f"an upload was sent to {ix.elsewhere[:3]}")
        if ix.incomplete and not ctx.noted:
            ctx.note("incomplete-upload-sent", f"a complete request carried other content than the file: {ix.incomplete[:3]}")
        if ix.malformed and not ctx.noted:
            ctx.note("malformed-upload", f"{ix.malformed[:3]}")

    for a in range(attempts):
        def main():
            single = False
            if sc in ("net", "concurrent", "crash"):
                if g.flip(0.4):
                    single = True
                    kind = g.pick(EARLY)
                    ctx.net.faults_on(g.pick([0.3, 0.1, 0.03]) if kind == "reset-send" else 0.4, [kind], 1)
                else:
                    ctx.net.faults_on(g.pick([0.2, 0.2, 0.05]), g.sample(NET, 0.6) or NET, g.int(1, 5))
            if sc == "server" or (sc == "concurrent" and g.flip(0.3)):
                ix.bad = g.int(1, 3)
                single = False
            if sc == "disk":
                ctx.fs.arm(g.int(1, 12), "error", g.int(0, 7), sticky=g.flip(0.3))
            if sc == "crash":
                ctx.fs.arm(g.int(1, 12), "crash", g.int(0, 3))
            must = "no fault" if sc == "plain" else "one connection failed before the response" if single and sc == "net" else None
            ctx.threads([lambda i=i: publish(i, must) for i in range(len(ps))])
            stray()
        st, v = ctx.proc(main, f"pkm{a}")
        ctx.fs.disarm()
        ctx.net.faults_off()
        ix.bad = 0
        if st == "exc":
            raise v
        if ctx.noted:
            return
        for sk in list(ctx.net.open_socks):
            sk.closed = True
        ctx.net.open_socks = []

    def final():
        for i in range(len(ps)):
            publish(i, "the repository works again")
        if last is not None and BOUNDARIES and not ctx.noted:
            # a distribution that contains what separated the parts of an earlier upload
            p = Proj(ctx, 2, BOUNDARIES[-1])
            ps.append(p)
            ix.known.update(p.files)
            ix.auth[p.url_path] = f"{p.user}:{p.password}"
            publish(len(ps) - 1, "content with a former boundary")
        stray()
    last = g.flip(0.3) or None
    st, v = ctx.proc(final, "final")
    if st == "exc":
        raise v
