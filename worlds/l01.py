"""L01: look-ups through configured repositories only ever answer from the repository the configuration designates, whatever fails."""
import html
import json
import re
import tomllib

from sim.net import Response
from worlds._http import FAULTS_ALL
from worlds._pkgs import *

SCENARIOS = [("plain", 4), ("down", 5), ("net", 3), ("config", 4), ("disk", 2)]
QUICK_RUNS = 700
THOROUGH_RUNS = 40000
MAX_STEPS = 3_000_000
LINE_PREFIXES = tuple(f"pkm/src/pkm/{d}" for d in ("api/repositories", "repositories", "utils/http"))
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm RepositoryLoader, RepositoryManagement of the global, zoo, environment, project group and project contexts, PyPiRepository, SimpleRepository, "
        "file system repository, HttpClient and its cache, configuration files; http.client; file system calls on a private scratch tree")
STUBS = "index servers and the network, interpreter introspection data, clock, thread scheduler, TLS (pass-through)"
ASSUMPTIONS = ["a package index is asked about a package at most once per process when it is of type simple (its answers are remembered for the process)",
               "404 means that the repository does not offer the package", "configuration changes do not run concurrently with look-ups",
               "a context object that was loaded before the configuration of one of its outer contexts changed is loaded again"]
NAMES = ["alpha", "beta-pkg", "ga.mma"]
SPELL = {"alpha": ["alpha", "Alpha"], "beta-pkg": ["beta-pkg", "Beta_Pkg", "beta.pkg"], "ga.mma": ["ga.mma", "ga-mma"]}
ORDER = ["project", "group", "env", "zoo", "global"]


def key(n):
    return re.sub(r"[-_.]+", "-", n).lower()


BY_KEY = {key(n): n for n in NAMES}


class Server:
    """one package index (or directory of packages) with its own versions"""

    def __init__(self, ctx, k, kind):
        g = ctx.gen
        self.ctx = ctx
        self.k = k
        self.kind = kind
        self.state = "up"
        self.strict = g.flip()  # only knows normalized names
        self.slash = g.flip(0.3)  # redirects to the address that ends with a slash
        self.page404 = g.flip(0.7)
        self.conditional = g.flip()
        self.base = f"{g.pick(['https', 'http'])}://r{k}.test"
        self.href = g.pick(["abs", "path", "relative"])
        self.offers = {}
        self.dir = ctx.root / f"fs{k}"
        self.publish()

    def publish(self):
        """what is offered from now on: name -> [(version, usable)]"""
        g = self.ctx.gen
        new = {}
        for n in NAMES:
            if g.flip(0.6):
                vs = []
                for j in sorted(g.sample([0, 1, 2, 3], 0.6) or [1]):
                    pre = g.flip(0.2)
                    vs.append((f"1.{j}.{self.k}{'a1' if pre else ''}", g.pick(["ok"] * 6 + ["sdist", "py2", "requires"] + (["yanked", "nofiles"] if self.kind == "pypi" else []))))
                new[n] = vs
        self.offers = new
        if self.kind == "fs":
            self.files = {}
            if self.dir.exists():
                for f in self.dir.iterdir():
                    f.unlink()
            self.dir.mkdir(exist_ok=True)
            for n, vs in new.items():
                for v, how in vs:
                    b = self.wheel(n, v)
                    (self.dir / self.filename(n, v, how)).write_bytes(b)

    def filename(self, n, v, how):
        spelled = SPELL[n][self.k % len(SPELL[n])].replace("-", "_")
        if how == "sdist":
            return f"{spelled if self.kind == 'fs' else SPELL[n][self.k % len(SPELL[n])]}-{v}.tar.gz"
        return f"{spelled}-{v}-{'py2' if how == 'py2' else 'py3'}-none-any.whl"

    def wheel(self, n, v):
        p = Pkg(n, v)
        p.files[f"{p.norm}/__init__.py"] = b"x"
        p.requires = [f"from-{self.k}", f"at-{v.replace('.', '-')}"]
        with fs._real_open(p.write(self.ctx.root / f"mk{self.k}"), "rb") as fh:
            return fh.read()

    def offered(self, n, lo, hi):
        out, pre = [], []
        for v, how in self.offers.get(n, ()):
            j = int(v.split(".")[1])
            if how in ("py2", "yanked", "nofiles") or (how == "requires" and self.kind != "fs"):
                continue
            if (lo is not None and j < lo) or (hi is not None and j >= hi):
                continue
            (pre if "a" in v else out).append((j, v))
        return [v for _, v in sorted(out or pre, reverse=True)]

    # ---- http
    def handle(self, rq):
        if self.state != "up" and self.state in ("e500", "e503", "auth", "e429"):
            self.ctx.sim.count(f"fault-server-{self.state}")
            st = {"e500": 500, "e503": 503, "auth": 401, "e429": 429}[self.state]
            return Response(st, {}, b"<html><a href='x'>alpha-9.9-py3-none-any.whl</a></html>", reason="No")
        parts = [p for p in rq.target.split("/") if p]
        if self.state == "garbage":
            self.ctx.sim.count("fault-server-garbage")
            return Response(200, {}, b'{"info": {"na')
        if parts[0] == "files":
            for n, vs in self.offers.items():
                for v, how in vs:
                    if parts[-1] == self.filename(n, v, how):
                        return Response(200, {}, self.wheel(n, v))
            return Response(404, {}, b"no", reason="Not Found")
        nm = parts[1]
        if self.strict and self.kind == "simple" and nm != key(nm):
            return Response(404, {}, b"not normalized", reason="Not Found")
        n = BY_KEY.get(key(nm))
        if n is None or n not in self.offers:
            if self.page404 or self.kind == "pypi":
                return Response(404, {}, b'{"message": "Not Found"}', reason="Not Found")
            return Response(200, {}, b"<html></html>")
        if self.kind == "simple":
            if self.slash and not rq.target.endswith("/"):
                return Response(301, {"Location": rq.target + "/"}, b"moved")
            rows = []
            for v, how in self.offers[n]:
                f = self.filename(n, v, how)
                pre = {"abs": f"{self.base}/files/", "path": "/files/", "relative": "../../files/"}[self.href]
                rp = f' data-requires-python="{html.escape(">=99")}"' if how == "requires" else ""
                frag = f"#sha256={hashlib.sha256(self.wheel(n, v)).hexdigest()}" if self.k % 2 else ""
                rows.append(f'<a href="{pre}{f}{frag}"{rp}>{f}</a><br/>')
            body = ("<!DOCTYPE html><html><head><title>Links</title></head><body><h1>Links</h1>\n" + "\n".join(rows) + "\n</body></html>").encode()
        elif len(parts) == 4:
            v = parts[2]
            body = json.dumps({"info": {"requires_dist": [f"from-{self.k}", f"at-{v.replace('.', '-')}"]}}).encode()
        else:
            rel = {}
            for v, how in self.offers[n]:
                f = self.filename(n, v, how)
                rel[v] = [] if how == "nofiles" else [
                    {"filename": f, "packagetype": "bdist_wheel", "yanked": how == "yanked", "requires_python": ">=99" if how == "requires" else None,
                     "url": f"{self.base}/files/{f}", "digests": {"sha256": hashlib.sha256(self.wheel(n, v)).hexdigest()}}]
            body = json.dumps({"info": {"name": n, "version": "1.0"}, "releases": rel}).encode()
        h = {}
        if self.conditional:
            h["ETag"] = '"%s"' % hashlib.md5(body).hexdigest()[:8]
            if rq.headers.get("if-none-match") == h["ETag"]:
                return Response(304, h, reason="Not Modified")
        return Response(200, h, body)

    def definition(self, salt=0):
        if self.kind == "fs":
            return {"type": "file-system", "path": str(self.dir)}
        if self.kind == "simple":
            return {"type": "simple", "url": f"{self.base}/simple" + ("/" if salt else "")}
        return {"type": "pypi", "url": f"{self.base}/pypi" + ("/" if salt else "")}


class Undefined(Exception):
    pass


class Model:
    def __init__(self, servers):
        self.servers = servers
        self.cfgs = {}  # context -> {"inheritance", "repos": {name: (server, bind_only)}, "bindings": {key: name | ("inline", server)}} or None
        self.parents = {}

    def chain(self, c):
        return self.parents[c]

    def lookup(self, c, n, lo, hi):
        """-> (answer, servers that have to be asked)"""
        levels = [c] + self.parents[c]
        asked = []

        def ask(k):
            asked.append(k)
            return self.servers[k].offered(n, lo, hi)

        def outer(i):
            inh = (self.cfgs.get(levels[i]) or {}).get("inheritance", "context")
            if levels[i] == "global" or inh == "none":
                return None
            return len(levels) - 1 if inh == "global" else i + 1

        i = 0
        while i is not None:
            cfg = self.cfgs.get(levels[i])
            if cfg:
                b = cfg["bindings"].get(key(n))
                if b is not None:
                    if isinstance(b, tuple):
                        return ask(b[1]), asked
                    j = i
                    while j is not None:
                        c2 = self.cfgs.get(levels[j])
                        if c2 and b in c2["repos"]:
                            return ask(c2["repos"][b][0]), asked
                        j = outer(j)
                    raise Undefined(b)
                for k, bind_only in cfg["repos"].values():
                    if not bind_only and (r := ask(k)):
                        return r, asked
            i = outer(i)
        return [], asked

    def used_servers(self, c):
        """servers whose definition is loaded together with that context"""
        out = set()
        for l in [c] + self.parents[c]:
            if cfg := self.cfgs.get(l):
                out |= {k for k, _ in cfg["repos"].values()} | {b[1] for b in cfg["bindings"].values() if isinstance(b, tuple)}
        return out


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    ctx.attach_fs()
    contain_current_env(ctx.root)
    servers = [Server(ctx, k, g.weighted([("simple", 4), ("pypi", 3), ("fs", 1)])) for k in range(1, g.int(2, 4) + 1)]
    servers.insert(0, None)
    ks = range(1, len(servers))

    def handle(rq):
        m = re.fullmatch(r"r(\d)\.test", rq.host)
        if not m:
            return Response(404, {}, b"?", reason="Not Found")
        return servers[int(m[1])].handle(rq)
    ctx.attach_net(handle)

    # ---- contexts
    home = ctx.root / "xdg/pkm"
    in_zoo, has_project = g.flip(), g.flip(0.7)
    has_group = has_project and g.flip()
    zoo_dir = ctx.root / "zoo"
    ep = make_env(ctx.root, "zoo/env" if in_zoo else "env")
    if in_zoo:
        (zoo_dir / "env-zoo.toml").write_text("[package_sharing]\nenabled = false\n" if g.flip() else "")
    places = {"global": home, "env": ep}
    if in_zoo:
        places["zoo"] = zoo_dir
    gd = ctx.root / "grp"
    if has_project:
        pd = gd / "prj" if has_group else ctx.root / "prj"
        pd.mkdir(parents=True)
        (pd / "pyproject.toml").write_text('[project]\nname = "proj"\nversion = "1.0"\n[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n')
        places["project"] = pd
        if has_group:
            (gd / "pyproject-group.toml").write_text('name = "grp"\nchildren = ["prj"]\n')
            places["group"] = gd
    m = Model(servers)
    have = [c for c in ORDER if c in places]
    for c in have:
        m.parents[c] = [o for o in have[have.index(c) + 1:] if not (c == "group" and o != "global")]
    rnames = ["one", "two", "main", "global", "x.y"]

    def binding_for(c):
        pool = [r for o in have for r in (m.cfgs.get(o) or {"repos": {}})["repos"]]
        return ("inline", g.pick(ks)) if g.flip(0.35) else g.pick(pool) if pool and g.flip(0.9) else g.pick(rnames)

    def spell(n):
        return g.pick(SPELL[n]) if g.flip() else n

    def write(c, cfg, spellings):
        out = []
        if cfg["inheritance"] != "context" or g.flip(0.3):
            out.append(f'inheritance = "{cfg["inheritance"]}"')
        for r, (k, bo) in cfg["repos"].items():
            out.append(f'[repos."{r}"]')
            out += [f"{a} = {json.dumps(v)}" for a, v in servers[k].definition(cfg["salt"]).items()]
            if bo or g.flip(0.2):
                out.append(f"bind-only = {'true' if bo else 'false'}")
        if cfg["bindings"]:
            out.append("[package-bindings]")
            for n, b in cfg["bindings"].items():
                if isinstance(b, tuple):
                    b = ", ".join(f"{a} = {json.dumps(v)}" for a, v in servers[b[1]].definition(0).items())
                    out.append(f'"{spellings[n]}" = {{ {b} }}')
                else:
                    out.append(f'"{spellings[n]}" = {json.dumps(b)}')
        p = places[c] / "etc/pkm/repositories.toml"
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text("\n".join(out) + "\n")

    for c in reversed(have):
        if c != "global" and g.flip(0.4):
            continue
        repos = {}
        for r in g.shuffle(rnames)[:g.weighted([(0, 1), (1, 3), (2, 3), (3, 1)])]:
            repos[r] = (g.pick(ks), g.flip(0.25))
        cfg = m.cfgs[c] = {"inheritance": "context" if c == "global" else g.weighted([("context", 6), ("global", 1), ("none", 1)]),
                           "repos": repos, "bindings": {}, "salt": g.int(0, 1)}
        for n in g.sample(NAMES, 0.3):
            cfg["bindings"][key(n)] = binding_for(c)
        write(c, cfg, {key(n): spell(n) for n in NAMES})

    # ---- the system under test
    def load(c):
        from pkm.api.pkm import pkm
        from pkm.api.environments.environments_zoo import EnvironmentsZoo
        from pkm.api.projects.project import Project
        from pkm.api.projects.project_group import ProjectGroup
        if c == "global":
            return pkm
        if c == "zoo":
            return EnvironmentsZoo.load(zoo_dir)
        if c == "group":
            return ProjectGroup.load(gd)
        if c == "env":
            return environment()
        p = Project.load(places["project"])
        p.attached_environment = environment()
        return p

    def environment():
        e = load_env(ep)
        del type(e).attached_repository
        return e

    state = {"faulty": False}

    def query():
        n = g.pick(NAMES)
        lo, hi = g.pick([(None, None), (None, None), (1, None), (None, 2), (1, 3), (2, 3)])
        spec = ",".join(([f">=1.{lo}"] if lo is not None else []) + ([f"<1.{hi}"] if hi is not None else []))
        return g.pick(have), n, lo, hi, f"{spell(n)} {spec}".strip(), g.flip(0.3)

    def ask(objs, q, must=None):
        c, n, lo, hi, text, deps = q
        from pkm.api.dependencies.dependency import Dependency
        ctx.event(f"lookup {c} {text}")
        try:
            want, asked = m.lookup(c, n, lo, hi)
        except Undefined as e:
            want, asked = None, []
        bad = [k for k in asked if servers[k].state != "up"] or [k for k in m.used_servers(c) if servers[k].state == "missing"]
        try:
            o = objs(c)
            env = environment()
            got = o.attached_repository.match(Dependency.parse(text) if g.flip() else text, env)
        except Exception as e:  # noqa
            ctx.event(f"lookup {c} {text}: {type(e).__name__}")
            ctx.probe("refused")
            if want is not None and not bad and not state["faulty"]:
                ctx.note("lookup-fails", f"{must or ''} {c}: {text!r} -> {e!r} ({type(e.__cause__).__name__}), want {want}, asked {asked}; {where()}")
            return
        vs = [str(p.version) for p in got]
        ctx.event(f"lookup {c} {text}: {vs}")
        if want is None:
            ctx.note("undefined-binding-answered", f"{c}: {text!r} -> {vs}; {where()}")
        elif vs != want:
            ctx.note("wrong-source", f"{must or ''} {c}: {text!r} -> {vs}, want {want}, asked {asked} of which bad {bad}; {where()}")
        else:
            ctx.probe("answered" if vs else "empty")
            if bad:
                ctx.probe("answered-from-memory")
        sdists = {v for s in servers[1:] for v, how in s.offers.get(n, ()) if how == "sdist"}
        if not ctx.noted and deps and got and str(got[0].version) not in sdists:
            p = got[0]
            v = str(p.version)
            try:
                d = sorted(x.package_name for x in p.dependencies(env.installation_target))
            except Exception as e:  # noqa
                if not bad and not state["faulty"]:
                    ctx.note("artifact-not-available", f"{must or ''} {c}: {text!r} {v}: {e!r} ({e.__cause__!r})")
                return
            ctx.probe("dependencies")
            if d != sorted([f"from-{v.split('.')[2].split('a')[0]}", f"at-{v.replace('.', '-')}"]):
                ctx.note("wrong-artifact", f"{c}: {text!r} {v} depends on {d}")

    def where():
        return f"{ {c: v for c, v in m.cfgs.items()} } states { {s.k: s.kind + ' ' + s.state for s in servers[1:]} } offers { {s.k: s.offers for s in servers[1:]} }"

    def mutate(o, c):
        """one change of the configuration through the context's repository management"""
        try:
            rm = o().repository_management
        except OSError:
            if not state["faulty"]:
                raise
            return False
        cfg = m.cfgs.get(c) or {"inheritance": "context", "repos": {}, "bindings": {}, "salt": 0}
        cfg = {**cfg, "repos": dict(cfg["repos"]), "bindings": dict(cfg["bindings"])}
        op = g.weighted([("add", 3), ("remove", 2), ("bind", 4), ("unbind", 2)])
        if op == "add":
            r, k, bo = g.pick(rnames), g.pick(ks), g.flip(0.3)
            if r in cfg["repos"]:
                op, cfg["repos"][r] = "replace", (k, bo)
            cfg["repos"][r] = (k, bo)
            d = servers[k].definition(g.int(0, 1))
            act = lambda: rm.add_repository(r, d.pop("type"), d, bo)
            ctx.event(f"{op} {c} {r} {k} {bo}")
        elif op == "remove":
            r = g.pick(list(cfg["repos"]) + ["one"])
            cfg["repos"].pop(r, None)
            cfg["bindings"] = {n: b for n, b in cfg["bindings"].items() if b != r}
            act = lambda: rm.remove_repository(r)
            ctx.event(f"remove {c} {r}")
        else:
            ns = g.sample(NAMES, 0.4) or [g.pick(NAMES)]
            b = binding_for(c) if op == "bind" else None
            for n in ns:
                cfg["bindings"].pop(key(n), None)
                if b is not None:
                    cfg["bindings"][key(n)] = b
            sp = [spell(n) for n in ns]

            def act():
                from pkm.api.repositories.repositories_configuration import RepositoryInstanceConfig
                if isinstance(b, tuple):
                    d = servers[b[1]].definition(0)
                    return rm.register_bindings(sp, RepositoryInstanceConfig(d.pop("type"), True, d))
                return rm.register_bindings(sp, b)
            ctx.event(f"bind {c} {sp} {b}")
        try:
            act()
        except Exception as e:  # noqa
            if not state["faulty"] and not any(s.state == "missing" for s in servers[1:]):
                ctx.note("configuration-change-fails", f"{c} {op}: {e!r}")
            return False
        m.cfgs[c] = cfg
        ctx.probe(f"config-{op}")
        return True

    def reread():
        """the configuration files are the truth after a failed change"""
        for c in have:
            p = places[c] / "etc/pkm/repositories.toml"
            if not p.exists():
                m.cfgs.pop(c, None)
                continue
            with fs._real_open(p, "rb") as fh:
                d = tomllib.load(fh)
            find = lambda a: next(s.k for s in servers[1:] if {x: str(y).rstrip("/") for x, y in a.items() if x != "bind-only"} == s.definition(0))
            m.cfgs[c] = {"inheritance": d.get("inheritance", "context"), "salt": 0,
                         "repos": {r: (find(a), a.get("bind-only", False)) for r, a in d.get("repos", {}).items()},
                         "bindings": {key(n): ("inline", find(b)) if isinstance(b, dict) else b for n, b in d.get("package-bindings", {}).items()}}

    procs = g.int(1, 3)
    for pi in range(procs):
        reread()
        if pi:
            for s in servers[1:]:
                if g.flip():
                    s.publish()
        nth = g.weighted([(1, 3), (2, 2), (3, 1)])
        plans = [[query() for _ in range(g.int(1, 4))] for _ in range(nth)]
        second = [query() for _ in range(g.int(1, 4))]
        shared = g.flip(0.7)

        def main():
            cache = {}

            def objs(c):
                if not shared:
                    return load(c)
                if c not in cache:
                    cache[c] = load(c)
                return cache[c]

            def fault_phase():
                if sc == "down":
                    for s in servers[1:]:
                        if g.flip(0.5):
                            s.state = g.pick(["missing"] if s.kind == "fs" else ["e500", "e503", "auth", "e429"] + (["garbage"] * 2 if s.kind == "pypi" else []))
                            if s.state == "missing":
                                s.dir.rename(s.dir.with_name(f"{s.dir.name}.away"))
                                ctx.sim.count("fault-missing-directory")
                            ctx.event(f"server {s.k} {s.state}")
                elif sc == "net":
                    ctx.net.faults_on(0.35, FAULTS_ALL, g.int(1, 6))
                    state["faulty"] = True
                elif sc == "disk":
                    ctx.fs.arm(g.int(1, 40), "error", g.int(0, 7), sticky=g.flip(0.3), only=lambda p, k: p.startswith("xdg") or "repositories.toml" in p)
                    state["faulty"] = True

            def heal():
                for s in servers[1:]:
                    if s.state == "missing":
                        s.dir.with_name(f"{s.dir.name}.away").rename(s.dir)
                    s.state = "up"
                ctx.net.faults_off()
                ctx.fs.disarm()
                state["faulty"] = False

            if g.flip(0.7):
                fault_phase()
            def caller(plan):
                for q in plan:
                    if ctx.noted:
                        return
                    ask(objs, q)
            ctx.threads([lambda p=p: caller(p) for p in plans])
            if sc in ("config", "disk"):
                for _ in range(g.int(1, 4)):
                    if ctx.noted:
                        return
                    c = g.pick(have)
                    ok = mutate(lambda: objs(c), c)
                    if not ok:
                        if ctx.noted:
                            return
                        heal()
                        return  # the user starts over
                    # contexts inside the changed one are loaded again
                    for o in have:
                        if c in m.parents[o]:
                            cache.pop(o, None)
                        if o == c:
                            continue
                    for q in g.sample(second, 0.5):
                        ask(objs, q, "after configuration change")
            heal()
            for p in plans + [second]:
                for q in p:
                    if ctx.noted:
                        return
                    ask(objs if g.flip() else load, q, "repositories are available again")
        st, v = ctx.proc(main, f"pkm{pi}")
        if st == "exc":
            raise v
        if ctx.noted:
            return
        for sk in list(ctx.net.open_socks):
            sk.closed = True
        ctx.net.open_socks = []
