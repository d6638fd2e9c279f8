"""B01: the source build cache under concurrent requests, failing build backends, disk errors, crashes and separate file systems."""
import io
import tarfile
import zipfile

from worlds import _procs
from worlds._pkgs import *

SCENARIOS = [("alone", 3), ("concurrent", 6), ("crash", 4), ("error", 3), ("nested", 2)]
QUICK_RUNS = 600
THOROUGH_RUNS = 40000
MAX_STEPS = 3_000_000
LINE_PREFIXES = tuple(f"pkm/src/pkm/{d}" for d in ("build", "api/distributions", "utils/archives", "utils/files"))
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm SourceBuildCache, SourceDistribution, external build front end (hook scripts executed as written), EnvironmentBuilder, Environment, "
        "wheel installation, dependency resolution and repositories for nested build requirements; tarfile, zipfile; scratch file system")
STUBS = "interpreter processes (hook scripts run in-process against a scripted build backend), thread scheduling, clock, process death"
ASSUMPTIONS = ["a crash keeps completed system calls (kill -9)", "build backends write only into the directory they are given"]
FAILS = ["raise", "exit", "no-file", "partial", "die", "garbage"]


class Item:
    def __init__(self, g, root, name, version, variant, fmt):
        self.name, self.version, self.tag = name, version, f"{name}-{version}-{variant}"
        self.hooks = g.weighted([("all", 4), ("no-prepare", 3), ("no-get", 2)])
        self.requires = []
        self.fmt = fmt
        self.norm = name.replace("-", "_")
        self.legacy = False
        self.variant = variant
        self.blob = "".join(f"line {i} {self.tag}\n" for i in range(g.pick([1, 50, 3000])))
        self.deps = g.sample(["dep-one>=1", "dep-two; python_version<'4'"], 0.4)

    def build(self, root):
        top = f"{self.name}-{self.version}"
        fl = {f"{top}/spec.json": json_bytes({"tag": self.tag, "name": self.name, "version": self.version, "norm": self.norm, "hooks": self.hooks,
                                              "deps": self.deps}),
              f"{top}/blob.txt": self.blob.encode(), f"{top}/src/{self.norm}/__init__.py": b"x = 1\n"}
        req = ", ".join(f'"{r}"' for r in self.requires)
        fl[f"{top}/pyproject.toml"] = (f'[project]\nname = "{self.name}"\nversion = "{self.version}"\n\n[build-system]\nrequires = [{req}]\n'
                                       'build-backend = "simbackend"\n').encode()
        d = root / f"archives{self.variant}"
        d.mkdir(exist_ok=True)
        self.path = d / f"{top}{self.fmt}"
        if self.fmt == ".zip":
            with zipfile.ZipFile(self.path, "w") as z:
                for n, c in fl.items():
                    z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), c)
        else:
            with tarfile.open(self.path, "w:gz" if self.fmt == ".tar.gz" else "w:bz2") as t:
                for n, c in fl.items():
                    ti = tarfile.TarInfo(n)
                    ti.size = len(c)
                    t.addfile(ti, io.BytesIO(c))


def json_bytes(o):
    import json
    return json.dumps(o).encode()


class Backend:
    """the scripted PEP 517 backend; runs inside the stand-in interpreter process"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.budget = 0
        self.only = None
        self.failed = []  # (time, tag, kind)
        self.kinds = FAILS
        self.built = []
        self.slow = False

    def __getattr__(self, name):
        if name not in ("build_wheel", "get_requires_for_build_wheel", "prepare_metadata_for_build_wheel"):
            raise AttributeError(name)
        cwd, interp = _procs.cwd_of.v
        with open(f"{cwd}/spec.json") as f:
            import json
            spec = json.load(f)
        if name == "prepare_metadata_for_build_wheel" and spec["hooks"] == "no-prepare":
            raise AttributeError(name)
        if name == "get_requires_for_build_wheel" and spec["hooks"] == "no-get":
            raise AttributeError(name)
        return lambda *a: self.hook(name, spec, cwd, interp, *a)

    def hook(self, name, spec, cwd, interp, *args):
        ctx, g = self.ctx, self.ctx.gen
        kind = None
        if name != "get_requires_for_build_wheel" or g.flip(0.2):
            if self.budget > 0 and (self.only is None or self.only == spec["tag"]) and g.flip(0.7):
                self.budget -= 1
                kind = g.pick(self.kinds)
                self.failed.append((ctx.sim.now, spec["tag"], kind))
                ctx.event(f"FAULT backend {kind} {spec['tag']}")
                ctx.probe(f"backend-{kind}")
        if self.slow and g.flip(0.5):
            ctx.sim.sleep(g.pick([1, 3, 10]))
        if name == "get_requires_for_build_wheel":
            if kind:
                raise RuntimeError("backend failed")
            return []
        if kind == "raise":
            raise RuntimeError("backend failed")
        if kind == "exit":
            raise SystemExit(3)
        if kind == "die":
            raise SystemExit(-9)
        out = Path(args[0])
        real = os.path.realpath(interp)
        stamp = f"{spec['tag']}|{Path(real).parent.parent.name}"
        self.built.append(stamp)
        norm, v = spec["norm"], spec["version"]
        md = f"Metadata-Version: 2.1\nName: {spec['name']}\nVersion: {v}\nSummary: {stamp}\n" + "".join(f"Requires-Dist: {d}\n" for d in spec["deps"]) + "\n"
        info = f"{norm}-{v}.dist-info"
        if name == "prepare_metadata_for_build_wheel":
            if kind == "no-file":
                return info
            (out / info).mkdir(parents=True)
            with open(out / info / "METADATA", "w") as f:
                if kind in ("partial", "garbage"):
                    f.write(md[:20])
                    f.flush()
                    raise RuntimeError("backend failed half way")
                f.write(md)
            return info
        with open(f"{cwd}/blob.txt") as f:
            blob = f.read()
        fl = {f"{norm}/__init__.py": f"STAMP = {stamp!r}\n".encode(), f"{norm}/blob.txt": blob.encode(), f"{info}/METADATA": md.encode(),
              f"{info}/WHEEL": b"Wheel-Version: 1.0\nGenerator: s\nRoot-Is-Purelib: true\nTag: py3-none-any\n"}
        rec = "".join("%s,sha256=%s,%d\n" % (n, base64.urlsafe_b64encode(hashlib.sha256(c).digest()).decode().rstrip("="), len(c)) for n, c in fl.items())
        fl[f"{info}/RECORD"] = (rec + f"{info}/RECORD,,\n").encode()
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, "w") as z:
            for n, c in fl.items():
                z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), c)
        b = bio.getvalue()
        fn = f"{norm}-{v}-py3-none-any.whl"
        if kind == "no-file":
            return fn
        with open(out / fn, "wb") as f:
            if kind in ("partial", "garbage"):
                f.write(b[:len(b) // 2])
                f.flush()
                raise RuntimeError("backend failed half way")
            for i in range(0, len(b), 30000):
                f.write(b[i:i + 30000])
        return fn


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.versions.version import Version
    bases = {}
    for b, mk in (("pyA", {}), ("pyB", {"release": "6"})):
        d = ctx.root / b / "bin"
        d.mkdir(parents=True)
        p = make_env(ctx.root, "tmpl") / "bin/python"
        import shutil
        shutil.copy(p, d / "python")
        bases[str(d / "python")] = mk
    envs = []

    def new_env(base=None):
        base = base or g.pick(["pyA", "pyA", "pyB"])
        k = len(envs)
        e = ctx.root / f"env{k}"
        envs.append((e, base))
        (e / PYDIR / "site-packages").mkdir(parents=True)
        (e / "bin").mkdir()
        (e / "bin/python").symlink_to(ctx.root / base / "bin/python")
        (e / "pyvenv.cfg").write_text("home = /nowhere\n")
        (e / "etc/pkm").mkdir(parents=True)
        return k
    items = []
    nvar = g.int(1, 2)
    nm = g.pick(["alpha", "my-pkg"])
    vs = ["1.0"] + (["2.0"] if g.flip(0.4) else [])
    for v in vs:
        for k in range(nvar):
            items.append(Item(g, ctx.root, nm, v, k, g.pick([".tar.gz", ".tar.gz", ".zip"])))
    if g.flip(0.3):
        items.append(Item(g, ctx.root, "zeta", "1.0", 0, ".tar.gz"))
    if sc == "nested":
        # build requirements that are themselves source distributions
        dep = Item(g, ctx.root, "builddep", "1.0", 0, ".tar.gz")
        dep.deps = []
        deps = [dep]
        if g.flip(0.5):
            d2 = Item(g, ctx.root, "deepdep", "1.0", 0, ".tar.gz")
            d2.deps = []
            d2.build(ctx.root)
            if g.flip(0.7):
                dep.requires.append(f"deepdep @ file://{d2.path}")
            else:
                items[0].requires.append(f"deepdep @ file://{d2.path}")
        dep.build(ctx.root)
        for i in items:
            if g.flip(0.8):
                i.requires.append(f"builddep @ file://{dep.path}")
    for i in items:
        i.build(ctx.root)
    for _ in range(g.int(1, 2)):
        new_env()
    home = ctx.root / "xdg/pkm"
    (home / "etc/pkm").mkdir(parents=True)
    (home / "etc/pkm/general.toml").write_text(f'[concurrency]\nmode = "{g.pick(["thread", "none"])}"\n')
    (home / "etc/pkm/repositories.toml").write_text("# none\n")
    contain_current_env(ctx.root)
    be = Backend(ctx)

    def handler(args, cwd, env):
        def script(interp, text):
            log = g.weighted([(b"", 5), (b"building...\n", 3), (b"caf\xe9 \xff\n", 1), (b"no newline", 1)])
            return _procs.run_build_script(interp, text, cwd, ("simbackend", be), log)
        return _procs.interpreter(args, cwd, env, lambda real: bases.get(real, {}), script)

    _procs.install(handler)
    ctx.attach_fs()
    if g.flip(0.5):
        ctx.fs.exdev = (f"{ctx.root}/tmp", str(home))

    def judge_wheel(item, base, p, when):
        try:
            with fs._real_open(p, "rb") as f:
                b = f.read()
            with zipfile.ZipFile(io.BytesIO(b)) as z:
                st = z.read(f"{item.norm}/__init__.py").decode()
                bl = z.read(f"{item.norm}/blob.txt").decode()
                z.testzip()
        except Exception as e:  # noqa
            ctx.note("broken-build-served", f"{when}: {item.tag} for {base}: {p}: {e!r}")
            return
        want = f"STAMP = {item.tag + '|' + base!r}\n"
        if st != want or bl != item.blob:
            ctx.note("foreign-build-served", f"{when}: {item.tag} for {base}: {st!r}")

    def request(dist, item, env, base, what, must=None, cache=None):
        from pkm.api.pkm import pkm
        from pkm.api.dependencies.dependency import Dependency
        cache = cache or pkm.source_build_cache
        f0 = len(be.failed)
        ctx.event(f"request {what} {item.tag} {base}")
        try:
            if what == "meta":
                md = dist.extract_metadata(env) if g.flip() and cache is pkm.source_build_cache else cache.get_or_build_meta(env, dist)
                if (md.package_name, str(md.package_version), md.summary) != (item.name, item.version, f"{item.tag}|{base}") \
                        or sorted(d.package_name for d in md.dependencies) != sorted(d.split(">")[0].split(";")[0] for d in item.deps):
                    ctx.note("wrong-metadata-served", f"{item.tag} for {base}: {md.package_name} {md.package_version} {md.summary} {md.dependencies}")
            elif what == "wheel":
                p = cache.get_or_build_wheel(env.installation_target, dist)
                judge_wheel(item, base, p, "returned")
                if g.flip(0.6):
                    ctx.sim.sleep(g.pick([1, 5, 12]))
                    judge_wheel(item, base, p, "a moment after being returned")
            else:
                ep = new_env(base)
                env2 = environment(ep)
                dist.install_to(env2.installation_target, Dependency.parse(item.name))
                st = snap(envs[ep][0]).get(f"{PYDIR}/site-packages/{item.norm}/__init__.py")
                if st is None or st[2] != f"STAMP = {item.tag + '|' + base!r}\n".encode():
                    ctx.note("foreign-build-served", f"installed {item.tag} for {base}: {st}")
            ctx.probe(f"served-{what}")
        except Exception as e:  # noqa
            ctx.event(f"failed {type(e).__name__}")
            ctx.probe("failed")
            if must or (len(be.failed) == f0 and not ctx.fs.fired):
                ctx.note("request-fails", f"{must or 'nothing failed'}: {what} {item.tag} for {base}: {traceback_of(e)}")
            return
        if what == "meta":
            return

    def environment(i):
        from pkm.api.environments.environment import Environment
        return Environment(envs[i][0])

    from pkm.api.distributions.source_distribution import SourceDistribution
    rounds = g.int(2, 3) if sc == "crash" else g.int(1, 2)
    be.kinds = [k for k in FAILS if g.flip(0.5)] or ["raise"]
    if g.flip(0.3):
        be.only = g.pick(items).tag
    for rd in range(rounds):
        be.budget = g.weighted([(0, 3), (1, 3), (3, 1), (9, 1)])
        be.slow = g.flip(0.6)
        nth = g.int(2, 4) if sc == "concurrent" else 1
        plans = [[(g.pick(items), g.int(0, len(envs) - 1 if len(envs) < 3 else 1), g.weighted([("wheel", 4), ("meta", 4), ("install", 2)]))
                  for _ in range(g.int(1, 3))] for _ in range(nth)]
        own = [g.flip(0.5) for _ in range(nth)]

        def main():
            from pkm.api.pkm import pkm
            from pkm.build.source_build_cache import SourceBuildCache
            shared_envs = {i: environment(i) for i in range(min(2, len(envs)))}
            while True:
                try:
                    pkm.source_build_cache
                    pkm.repository_loader
                    break
                except OSError:
                    if not ctx.fs.fired:
                        raise
                    ctx.fs.disarm()

            def caller(i):
                cache = SourceBuildCache(pkm.source_build_cache.workspace) if own[i] else None
                for item, ei, what in plans[i]:
                    if ctx.noted:
                        return
                    dist = SourceDistribution(PackageDescriptor(item.name, Version.parse(item.version)), item.path)
                    request(dist, item, shared_envs[ei] if g.flip(0.7) else environment(ei), envs[ei][1], what, None, cache)
                    if g.flip(0.3):
                        ctx.sim.sleep(g.pick([1, 4]))
            ctx.threads([lambda i=i: caller(i) for i in range(nth)])
            if ctx.noted or (sc == "crash" and rd < rounds - 1):
                return
            ctx.fs.disarm()
            be.budget = 0
            for item, ei, what in [x for pl in plans for x in pl]:
                dist = SourceDistribution(PackageDescriptor(item.name, Version.parse(item.version)), item.path)
                request(dist, item, shared_envs[ei], envs[ei][1], what, "faults stopped, same process")

        only = (lambda p, k: p.startswith("xdg/pkm/build-cache")) if g.flip(0.6) else (lambda p, k: p.startswith(("xdg", "tmp")))
        if sc == "error":
            ctx.fs.arm(g.int(1, 25), "error", g.int(0, 11), sticky=g.flip(0.2), only=only)
        elif sc == "crash" and rd < rounds - 1:
            ctx.fs.arm(g.int(1, 25), "crash", g.int(0, 11), only=only)
        st, v = ctx.proc(main, f"pkm{rd}")
        ctx.fs.disarm()
        if st == "exc":
            raise v
        if st == "crash":
            ctx.probe("crashed")
        if ctx.noted:
            return
    be.budget = 0

    def final():
        for item in items:
            for ei in range(min(2, len(envs))):
                for what in ("meta", "wheel"):
                    dist = SourceDistribution(PackageDescriptor(item.name, Version.parse(item.version)), item.path)
                    request(dist, item, environment(ei), envs[ei][1], what, "faults stopped, restarted process")
    st, v = ctx.proc(final, "restart")
    if st == "exc":
        raise v


def traceback_of(e):
    import traceback
    return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
