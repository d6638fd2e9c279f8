"""E01: environments and zoos are created, discovered and activated safely, whatever fails on the way."""
import json
import os
import shutil

from worlds import _procs
from worlds._pkgs import *

SCENARIOS = [("create", 5), ("zoo", 5), ("cache", 4), ("activate", 2), ("discover", 2)]
QUICK_RUNS = 5000
THOROUGH_RUNS = 200000
MAX_STEPS = 3_000_000
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm EnvironmentBuilder, Environment, EnvironmentIntrospection and its cache, EnvironmentsZoo, InstalledPythonsLocator, configuration files; "
        "scratch file system")
STUBS = "interpreter processes (answer introspection and version queries, fail to start, print garbage), disk faults, process death, process environment"
ASSUMPTIONS = ["a crash keeps completed system calls (kill -9)", "one pkm process at a time creates or deletes a given environment",
               "an interpreter replaced in place differs in size or modification time"]

KINDS = ["linux64", "linux32", "darwin", "windows", "windows-build"]


class Python:
    """an interpreter installed in the scratch tree"""

    def __init__(self, g, root, name, version, kind, links=False):
        self.version, self.kind = version, kind
        self.dir = root / "pythons" / name
        bindir = self.dir if kind.startswith("windows") else self.dir / "bin"
        bindir.mkdir(parents=True)
        self.real = bindir / ("python.exe" if kind.startswith("windows") else "python" + ".".join(version.split(".")[:2]))
        self.exe = self.real
        self.stamp(g)
        if not kind.startswith("windows"):
            (bindir / "python").symlink_to(self.real if g.flip(0.5) else self.real.name)
            if g.flip(0.5):
                self.exe = bindir / "python"
        elif g.flip(0.5):
            (bindir / "pythonw.exe").write_bytes(b"MZw" + version.encode())
        if kind == "windows-build":
            (bindir / "tcl/lib").mkdir(parents=True)
            (bindir / "tcl/lib/init.tcl").write_bytes(b"# tcl\n")

    def stamp(self, g):
        data = b"\x7fELF\x02\x01\x01" + bytes(9) + b"\x02\0\x3e\0\x01\0\0\0" + bytes(28) + b"\x40\0" + bytes(10)
        self.real.write_bytes(data + f"{self.dir.name} {self.version}".encode() + bytes(g.int(1, 99)))
        self.real.chmod(0o755)

    @property
    def vinfo(self):
        return [int(x) for x in self.version.split(".")]


def data_of(py, interp):
    """what the introspection of `py` run through the path `interp` prints"""
    d = _procs.interpreter_data(interp, lambda real: {"python_version": py.version, "python_version_tuple": py.version.split(".")})
    short = ".".join(py.version.split(".")[:2])
    text = json.dumps(d).replace("python3.12", f"python{short}")
    d = json.loads(text)
    d["sys"]["version_info"] = py.vinfo + ["final", 0]
    d["sys"]["implementation"]["version"] = py.vinfo + ["final", 0]
    if py.kind == "linux32":
        d["sys"]["maxsize"] = 2 ** 31 - 1
    elif py.kind == "darwin":
        d["sys"]["platform"] = "darwin"
    elif py.kind.startswith("windows"):
        d["sys"]["platform"] = "win32"
        d["os"]["name"] = "nt"
        d["sysconfig"]["is_python_build"] = py.kind == "windows-build"
        for k, v in d["sysconfig"]["paths"].items():
            d["sysconfig"]["paths"][k] = v.replace("/bin", "/Scripts").replace(f"/lib/python{short}", "/Lib")
    return d


class Pythons:
    def __init__(self, ctx):
        self.ctx = ctx
        self.all = []
        self.trouble = {}  # call number -> what happens
        self.calls = 0
        self.broken = {}  # real path -> trouble
        self.hits = 0
        _procs.install(self.handler)

    def add(self, name, version, kind="linux64"):
        p = Python(self.ctx.gen, self.ctx.root, name, version, kind)
        self.all.append(p)
        return p

    def of(self, path):
        real = os.path.realpath(path)
        for p in self.all:
            if os.path.realpath(p.real) == real:
                return p
        for p in self.all:  # a copied executable (windows)
            with open(real, "rb") as f, open(p.real, "rb") as f2:
                if f.read() == f2.read():
                    return p
        return None

    def handler(self, args, cwd, env):
        self.calls += 1
        t = self.trouble.get(self.calls) or self.broken.get(os.path.realpath(args[0]))
        if not os.path.exists(args[0]):
            raise FileNotFoundError(2, "No such file or directory", args[0])
        if t:
            self.hits += 1
            self.ctx.sim.count(f"fault-process-{t}")
            if t == "noexec":
                raise OSError(8, "Exec format error", args[0])
            if t == "denied":
                raise PermissionError(13, "Permission denied", args[0])
            if t == "nomem":
                raise OSError(12, "Cannot allocate memory")
            if t == "exit":
                return 1, b"", b"Fatal Python error\n"
            if t == "killed":
                return -9, b'{"sysconfig": {"pat', b""
            if t == "empty":
                return 0, b"", b""
            if t == "garbage":
                return 0, b"hello\n", b""
            if t == "binary":
                return 0, b"\xff\xfe\x00", b""
            if t == "badversion":
                return 0, b"a.b.c what\n\n", b""
        p = self.of(args[0])
        if p is None:
            raise OSError(8, "Exec format error", args[0])
        if args[1] == "-c":
            return 0, f"{p.version}\n{args[0]}\n".encode(), b""
        return 0, json.dumps(data_of(p, args[0])).encode() + b"\n", b""


PROC_TROUBLE = ["noexec", "denied", "nomem", "exit", "killed", "empty", "garbage", "binary"]


def tree_of(path):
    return {k: v for k, v in snap(path).items() if not k.endswith(".new")}


def complete(ctx, path, py, interp, what):
    """why the directory is not a complete environment of that interpreter (or None)"""
    t = tree_of(path)
    win = py.kind.startswith("windows")
    short = ".".join(py.version.split(".")[:2])
    need = ["Scripts", "Include", "Lib/site-packages"] if win else ["bin", "include", f"lib/python{short}/site-packages"]
    for d in need:
        if t.get(d, "?")[0] != "d":
            return f"no directory {d}"
    if win:
        for f in sorted(os.listdir(interp.parent)):
            if f in ("python.exe", "pythonw.exe") and t.get("Scripts/" + f, (None, None, None))[2] != (interp.parent / f).read_bytes():
                return f"Scripts/{f} is not the interpreter's"
        if py.kind == "windows-build" and t.get("tcl/lib/init.tcl", (0, 0, 0))[2] != b"# tcl\n":
            return "no init.tcl"
    else:
        for n in ("python", "python3", "python" + short):
            if os.path.realpath(path / "bin" / n) != os.path.realpath(interp):
                return f"bin/{n} is not the interpreter"
        if py.kind == "linux64" and os.path.realpath(path / "lib64") != os.path.realpath(path / "lib"):
            return "no lib64"
    # read as the site module of python does
    cfg = {}
    for line in t["pyvenv.cfg"][2].decode().splitlines():
        k, eq, v = line.partition("=")
        if eq:
            cfg[k.strip().lower()] = v.strip()
    if cfg.get("home") != str(interp.parent):
        return f"home is {cfg.get('home')} for python"
    if cfg.get("include-system-site-packages", "true").lower() == "true":
        return "not isolated from the system packages"
    return None


def usable(path):
    from pkm.api.environments.environment import Environment
    return Environment.is_venv_path(path)


def check_env(ctx, path, py, interp, what):
    bad = complete(ctx, path, py, interp, what)
    ctx.check(bad is None, "incomplete-environment", lambda: f"{what()}: {bad}")

    def load():
        from pkm.api.environments.environment import Environment
        e = Environment.load(path)
        return str(e.interpreter_version), str(e.installation_target.purelib), dict(e.markers)
    st, v = ctx.proc(load, "load")
    ctx.check(st == "ok", "environment-not-loadable", lambda: f"{what()}: {v!r}")
    ctx.check(v[0] == py.version, "wrong-interpreter-information", lambda: f"{what()}: version {v[0]} instead of {py.version}")
    ctx.check(v[1].startswith(str(path)) and os.path.isdir(v[1]), "wrong-interpreter-information", lambda: f"{what()}: purelib {v[1]}")
    ctx.check(v[2]["python_full_version"] == py.version, "wrong-interpreter-information", lambda: f"{what()}: markers {v[2]}")


def arm(ctx, g, pys, where, spawns=True):
    """one fault for the next operation"""
    k = g.weighted([("error", 5), ("crash", 5), ("process", 1.5 if spawns else 0)])
    if k == "process":
        pys.trouble = {pys.calls + g.int(1, 3): g.pick(PROC_TROUBLE)}
    else:
        ctx.fs.arm(g.int(1, 40), k, g.int(0, 7), sticky=g.flip(0.15), only=lambda r, kind: r.startswith(where))


def disarm(ctx, pys, h0):
    fired = ctx.fs.fired
    ctx.fs.disarm()
    hit = pys.hits > h0
    pys.trouble = {}
    return fired or ("process trouble" if hit else None)


def run(ctx):
    g = ctx.gen
    ctx.attach_fs()
    pys = Pythons(ctx)
    {"create": create, "zoo": zoo, "cache": cache, "activate": activate, "discover": discover}[ctx.scenario](ctx, g, pys)


def create(ctx, g, pys):
    kinds = [(k, 3 if k == "linux64" else 1) for k in KINDS]
    for n in range(g.int(1, 2)):
        pys.add(f"p{n}", g.pick(["3.8.10", "3.9.0", "3.12.3"]), g.weighted(kinds))
    for step in range(g.int(1, 4)):
        py = g.pick(pys.all)
        path = ctx.root / g.pick(["envs", "envs/deep er", "."]) / f"env{step}"
        again = False
        for attempt in range(3):
            faulty = attempt < 2 and g.flip(0.8)
            h0 = pys.hits
            if faulty:
                arm(ctx, g, pys, ("envs", f"env{step}"))

            def op():
                from pkm.api.environments.environment_builder import EnvironmentBuilder
                EnvironmentBuilder.create(path, py.exe)
            ctx.event(f"create {path.relative_to(ctx.root)} of {py.kind} {py.version}{' with faults' if faulty else ''}")
            before = os.path.lexists(path)
            st, v = ctx.proc(op, f"create{step}.{attempt}")
            fault = disarm(ctx, pys, h0)
            what = lambda: f"create {py.kind} {py.version} attempt {attempt}: {fault}: {st} {v!r}"  # noqa
            if usable(path) or st == "ok":
                ctx.check(usable(path), "created-but-unusable", what)
                check_env(ctx, path, py, py.exe, what)
                ctx.probe("complete" + ("-despite-fault" if fault else ""))
                break
            if before and isinstance(v, FileExistsError):
                shutil.rmtree(path)
                continue
            ctx.check(fault, "refused-without-fault", what)
            ctx.probe("interrupted")


def zoo(ctx, g, pys):
    from pkm.api.environments.environments_zoo import EnvironmentsZoo
    from pkm.api.versions.version_specifiers import VersionSpecifier
    for n in range(g.int(1, 3)):
        pys.add(f"p{n}", g.pick(["3.8.10", "3.9.0", "3.12.3", "3.11.2"]))
    by_version = {}
    for p in pys.all:
        by_version.setdefault(p.version, []).append(p)
    os.environ["PATH"] = os.pathsep.join(str(p.real.parent) for p in pys.all)
    import sys
    sys.executable = str(pys.all[0].real)
    # a fresh locator per process, as every pkm process has
    from pkm.api.pkm import pkm
    from pkm.api.environments.installed_pythons_locator import InstalledPythonsLocator
    zp = ctx.root / "zoo"
    have = {}  # name -> version: environments that have to exist

    def look():
        # nothing fails now: whatever is visible has to be usable
        if EnvironmentsZoo.is_valid(zp):
            def op():
                z = EnvironmentsZoo.load(zp)
                return [e.path for e in z.list()]
            st, v = ctx.proc(op, "list")
            ctx.check(st == "ok", "zoo-not-loadable", lambda: f"{v!r}")
            for d in (".zoo/bin", ".zoo/shared"):
                ctx.check((zp / d).is_dir(), "incomplete-zoo", lambda: f"no {d}")
            names = {p.name for p in v}
            missing = sorted(set(have) - names)
            ctx.check(not missing, "environment-lost", lambda: f"{missing}")
            for p in v:
                real = os.path.realpath(p / "bin/python")
                py = pys.of(real)
                ctx.check(py is not None, "incomplete-environment", lambda: f"{p.name}: interpreter {real}")
                want = have.get(p.name) or maybe.get(p.name)
                ctx.check(want is not None, "environment-out-of-nowhere", lambda: p.name)
                ctx.check(py.version == want, "wrong-interpreter-information", lambda: f"{p.name}: {py.version} instead of {want}")
                check_env(ctx, p, py, py.real, lambda: f"listed {p.name}")
            return names
        ctx.check(not have, "zoo-lost", lambda: f"{sorted(have)}")
        return set()

    maybe = {}  # name -> version: interrupted creations and deletions
    for step in range(g.int(2, 7)):
        kind = g.weighted([("create", 6), ("delete", 3), ("export", 1.5), ("load", 1)])
        name = g.pick(["a", "b", "c d"])
        version = g.pick(sorted(by_version))
        faulty = g.flip(0.6)
        h0 = pys.hits

        def op():
            z = EnvironmentsZoo.load(zp)
            if kind == "create":
                pkm.installed_pythons = InstalledPythonsLocator([])
                z.create_environment(name, VersionSpecifier.parse(f"=={version}"))
            elif kind == "delete":
                z.delete_environment(name)
            elif kind == "export":
                z.export_script(name, "tool")
        if kind == "export":
            if name not in have:
                continue
            (zp / name / "bin/tool").write_bytes(f"#!{step}\n".encode())
        if faulty:
            arm(ctx, g, pys, "zoo", spawns=kind == "create")
        ctx.event(f"{kind} {name} {version}{' with faults' if faulty else ''}")
        before = os.path.lexists(zp / name)
        st, v = ctx.proc(op, f"{kind}{step}")
        fault = disarm(ctx, pys, h0)
        what = lambda: f"{kind} {name}: {fault}: {st} {v!r}"  # noqa
        if st == "ok":
            if kind == "create":
                have[name] = version
                maybe.pop(name, None)
            elif kind == "delete":
                have.pop(name, None)
                maybe.pop(name, None)
                ctx.check(not os.path.lexists(zp / name), "deleted-but-there", what)
            elif kind == "export":
                ctx.check((zp / ".zoo/bin/tool").read_bytes() == f"#!{step}\n".encode(), "wrong-export", what)
            ctx.probe(kind + ("-despite-fault" if fault else ""))
        else:
            expected = kind == "create" and before and isinstance(v, FileExistsError) or kind == "delete" and not before
            ctx.check(fault or expected, "refused-without-fault", what)
            if kind == "create" and not before:
                maybe[name] = version
            elif kind == "delete" and name in have:
                maybe[name] = have.pop(name)
            ctx.probe(f"interrupted-{kind}" if fault else f"refused-{kind}")
        names = look()
        for n in list(maybe):
            if n in names:
                have[n] = maybe.pop(n)
            else:
                maybe.pop(n)
        # what is left of an interrupted operation can be removed
        for n in ("a", "b", "c d"):
            if n not in names and os.path.lexists(zp / n) and g.flip(0.5):
                shutil.rmtree(zp / n)


def cache(ctx, g, pys):
    """the information cached within an environment"""
    from pkm.api.environments.environment_builder import EnvironmentBuilder
    from pkm.api.environments.environment import Environment
    pys.add("p0", "3.9.0")
    pys.add("p1", "3.12.3")
    py = pys.all[0]
    path = ctx.root / "env"
    link = py.exe
    EnvironmentBuilder.create(path, link)
    n_real = 0
    for step in range(g.int(2, 7)):
        files = [p for p in path.rglob("*.json")]
        k = g.weighted([("nothing", 2), ("damage", 5), ("replace", 2), ("relink", 1.5), ("move", 1), ("copy", 1), ("fault", 3)])
        fault = None
        if k == "damage" and files:
            f = g.pick(files)
            data = f.read_bytes()
            d = g.pick(["truncated", "empty", "binary", "null", "list", "number", "string", "object", "zeros", "directory"])
            new = {"truncated": data[:g.int(0, len(data) - 1)], "empty": b"", "binary": b"\xff\xfe\x80" + data[:20], "null": b"null", "list": b"[1, 2]",
                   "number": b"17", "string": b'"text"', "object": b"{}", "zeros": bytes(len(data))}.get(d)
            if new is None:
                f.unlink()
                f.mkdir()
            else:
                f.write_bytes(new)
            ctx.sim.count(f"fault-cache-{d}")
            ctx.event(f"cache damaged: {d}")
            if d == "directory":
                f.rmdir()  # an administrator removes it
        elif k == "replace":
            old = py.version
            py.version = py.version.rpartition(".")[0] + "." + g.pick(["1", "7", "12"])
            if py.version != old:
                py.stamp(g)
                n_real += 1
                t = 1_700_000_000 + n_real * 60
                os.utime(py.real, (t, t))
            ctx.event("interpreter upgraded in place")
        elif k == "relink":
            other = g.pick([p for p in pys.all if p is not py])
            py = other
            for n in ("python", "python3"):
                (path / "bin" / n).unlink()
                (path / "bin" / n).symlink_to(py.exe)
            for p in list(path.glob("lib/python*")):
                short = ".".join(py.version.split(".")[:2])
                if p.name != f"python{short}":
                    p.rename(path / "lib" / f"python{short}")
            ctx.event("environment switched to another interpreter")
        elif k in ("move", "copy"):
            new = ctx.root / f"env-{step}"
            if k == "move":
                path.rename(new)
            else:
                shutil.copytree(path, new, symlinks=True)
            if (new / "lib64").is_symlink():
                (new / "lib64").unlink()
                (new / "lib64").symlink_to("lib")
            path = new
            ctx.event("environment moved")

        def op():
            e = Environment.load(path)
            return str(e.interpreter_version), str(e.installation_target.purelib), e.markers["python_full_version"]
        h0 = pys.hits
        if k == "fault":
            if g.flip(0.6):
                for p in path.rglob("*.json"):
                    p.unlink()
            if g.flip(0.3):
                pys.trouble = {pys.calls + 1: g.pick(PROC_TROUBLE)}
            else:
                ctx.fs.arm(g.int(1, 8), g.pick(["error", "crash"]), g.int(0, 7), sticky=g.flip(0.2))
            ctx.event("load with faults")
        st, v = ctx.proc(op, f"load{step}")
        fault = disarm(ctx, pys, h0)
        what = lambda: f"step {step} after {k}: {st} {v!r}"  # noqa
        if st != "ok":
            ctx.check(fault, "damaged-cache-refused", what)
            ctx.probe("load-failed-on-fault")
            continue
        ctx.check(v[0] == py.version and v[2] == py.version, "wrong-interpreter-information", lambda: f"{what()} instead of {py.version}")
        ctx.check(v[1].startswith(str(path) + "/") and os.path.isdir(v[1]), "wrong-interpreter-information", what)
        ctx.probe(f"loaded-after-{k}")
        # it is used again by the next process
        c0 = pys.calls
        st, v2 = ctx.proc(op, f"reload{step}")
        ctx.check(st == "ok" and v2 == v, "cache-differs", lambda: f"{what()} then {v2!r}")
        if pys.calls == c0:
            ctx.probe("cache-used")


def activate(ctx, g, pys):
    from pkm.api.environments.environments_zoo import EnvironmentsZoo
    ep = [load_env(make_env(ctx.root, f"env{i}")) for i in range(2)]
    z = [EnvironmentsZoo.load(ctx.root / "zoo")]

    class Boom(Exception):
        pass
    for rnd in range(g.int(1, 4)):
        env = {"HOME": "/h"}
        for k in ("PATH", "VIRTUAL_ENV"):
            v = g.pick([None, "", "/x", "/a:/b"])
            if v is not None:
                env[k] = v
        use_os = g.flip(0.3)
        if use_os:
            for k in ("PATH", "VIRTUAL_ENV"):
                os.environ.pop(k, None)
            os.environ.update(env)
            target = os.environ
        else:
            target = env
        keys = ("PATH", "VIRTUAL_ENV", "HOME")
        old = {k: target.get(k) for k in keys}
        depth = g.int(1, 4)
        raising = g.flip(0.4)
        log = []

        def nest(d):
            if d == 0:
                if raising:
                    raise Boom()
                return
            o = g.pick(ep + z)
            b4 = {k: target.get(k) for k in keys}
            scripts = str(o.path / ("bin" if o in ep else ".zoo/bin"))
            acts = g.pick([[], [], ["PATH"], ["VIRTUAL_ENV"], ["PATH", "VIRTUAL_ENV"]])
            how = g.pick(["del", "set", "empty"])
            log.append((type(o).__name__, acts, how))
            try:
                with o.activate(target) if not use_os or g.flip(0.5) else o.activate():
                    ctx.check(target["PATH"].split(os.pathsep)[0] == scripts, "not-activated", lambda: f"{log}: {target['PATH']}")
                    if o in ep:
                        ctx.check(target.get("VIRTUAL_ENV") == str(o.path), "not-activated", lambda: f"{log}")
                    nest(d - 1)
                    for k in acts:
                        if o not in ep and k == "VIRTUAL_ENV":
                            continue
                        if how == "del":
                            target.pop(k, None)
                        else:
                            target[k] = "" if how == "empty" else "/changed"
            finally:
                now = {k: target.get(k) for k in keys}
                ctx.check(now == b4, "not-restored", lambda: f"{log}: {b4} became {now}")
        st = None
        try:
            nest(depth)
        except Boom:
            st = "boom"
        except Exception as e:  # noqa
            st = repr(e)
        ctx.check(st == ("boom" if raising else None), "exception-changed", lambda: f"{log} {st}")
        now = {k: target.get(k) for k in keys}
        ctx.check(now == old, "not-restored", lambda: f"{log}: {old} became {now}")
        ctx.probe("restored" + ("-after-exception" if raising else ""))


def discover(ctx, g, pys):
    from pkm.api.environments.installed_pythons_locator import InstalledPythonsLocator
    import sys
    good = []
    parts, search = [], []
    for n in range(g.int(1, 5)):
        p = pys.add(f"p{n}", f"3.{8 + n}.{g.int(0, 9)}")
        (parts if n == 0 or g.flip(0.7) else search).append(p.real.parent)
        if n and g.flip(0.5):
            pys.broken[os.path.realpath(p.real)] = t = g.pick(PROC_TROUBLE + ["badversion"])
            ctx.event(f"{p.version} is broken: {t}")
        else:
            good.append(p)
    sys.executable = str(g.pick(good).real)
    if g.flip(0.3):
        f = ctx.root / "a-file"
        f.write_bytes(b"")
        parts.append(f)
    if g.flip(0.3):
        parts.append(ctx.root / "missing")
    if g.flip(0.3):
        d = ctx.root / "loops"
        d.mkdir()
        (d / "python").symlink_to("python")
        parts.append(d)
    if g.flip(0.3):
        d = ctx.root / "dirs"
        (d / "python3").mkdir(parents=True)
        (d / "python3.9").write_bytes(b"not executable")
        parts.append(d)
    if g.flip(0.2):
        search.append(ctx.root / "missing-too")
    g.rng.shuffle(parts) if hasattr(g, "rng") else None
    os.environ["PATH"] = os.pathsep.join(map(str, parts))

    def op():
        return [(str(i.interpreter), str(i.version)) for i in InstalledPythonsLocator([str(s) for s in search]).all_installed]
    st, v = ctx.proc(op, "discover")
    ctx.check(st == "ok", "discovery-failed", lambda: f"{v!r}")
    want = sorted((os.path.realpath(p.real), p.version) for p in good)
    ctx.check(sorted(v) == want, "interpreters-missed", lambda: f"{v} instead of {want}")
    ctx.probe("discovered" + ("-despite-broken" if pys.hits else ""))
