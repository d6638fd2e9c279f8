"""C01: a configuration file always holds its complete previous or complete new content, whatever interrupts a save."""
import copy
import json
import os
import re
from pathlib import Path

from sim import fs
from worlds._pkgs import contain_current_env

SCENARIOS = [("crash", 6), ("error", 6), ("full", 3), ("readers", 3), ("api", 6), ("defaults", 1)]
QUICK_RUNS = 1500
THOROUGH_RUNS = 120000
MAX_STEPS = 1_500_000
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm ConfigFile classes and their TOML/INI/CSV/JSON/WHEEL/METADATA codecs, ProjectGroup, RepositoryManagement, Project.bump_version, DistInfo, "
        "PthLink, Pkm default configuration; file system calls on a private scratch tree")
STUBS = "clock, thread scheduler, process death (simulated incarnations)"
ASSUMPTIONS = ["a crash keeps completed system calls (kill -9, not power loss)",
               "values are representable in the file format (no control characters, no '%' in ini files, no ':' or '\"' subtleties outside what the writers support)"]
LINE_PREFIXES = ("pkm/src/pkm/config/config", "pkm/src/pkm/utils/files", "pkm/src/pkm/api/packages/package_metadata", "pkm/src/pkm/api/distributions")

WORDS = ["alpha", "beta", "gamma", "delta x", "it's", "back\\slash", "a#b", "[x]", "naïve", "tail ", "k = v", "日本", "a,b", "e.g.", "\"quoted\"", "{y}"]
NAMES = ["alpha", "beta", "gamma-x", "delta_y", "eps.ilon", "zeta"]


def word(g):
    return g.pick(WORDS)


def text(g, n=4):
    return " ".join(word(g).strip() for _ in range(g.int(1, n))) + f" {g.int(0, 999)}"


def version(g):
    return ".".join(str(g.int(0, 30)) for _ in range(3)) + g.pick(["", "", "", "rc1", ".post2", ".dev3"])


def dep(g):
    return g.pick(NAMES) + g.pick(["", f" >={g.int(0, 9)}.{g.int(0, 9)}", f" ~={g.int(1, 9)}.{g.int(0, 9)}", " >=1.0, <2.5"]) + \
        g.pick(["", "", '; python_version >= "3.6"', '; sys_platform == "linux" and python_version < "4"'])


def table(g, n=4, val=text):
    return {f"{g.pick(NAMES)}{i}".replace(".", "_"): val(g) for i in range(g.int(0, n))}


def some(g, d, p=0.6):
    return {k: v() for k, v in d.items() if g.flip(p)}


def raw_pyproject(g):
    p = {"name": g.pick(NAMES), "version": version(g)}
    p.update(some(g, {
        "description": lambda: text(g, 9), "keywords": lambda: [word(g) for _ in range(g.int(0, 4))],
        "authors": lambda: [{"name": "Jane Doe", "email": "j@x.org"} for _ in range(g.int(1, 2))],
        "classifiers": lambda: [text(g) for _ in range(g.int(0, 6))], "urls": lambda: table(g),
        "requires-python": lambda: f">={g.int(3, 4)}.{g.int(0, 9)}", "dependencies": lambda: [dep(g) for _ in range(g.int(0, 5))],
        "optional-dependencies": lambda: {f"extra{i}": [dep(g) for _ in range(g.int(0, 3))] for i in range(g.int(0, 3))},
        "readme": lambda: {"file": "README.md"}, "license": lambda: {"text": text(g)},
        "entry-points": lambda: {f"grp{i}": {f"n{j}": f"m{j}.x:f" for j in range(g.int(1, 3))} for i in range(g.int(0, 2))},
        "scripts": lambda: {f"s{j}": f"mod.s{j}:main" for j in range(g.int(0, 3))},
        "unknown-key": lambda: {"deep": [1, 2, {"x": True}]}}))
    r = {"project": p, "build-system": {"requires": [dep(g)], "build-backend": "pkm.api.buildsys"}}
    tool = {"pkm": some(g, {"project": lambda: {"packages": ["src/a", "src/b c"]}, "distribution": lambda: {"type": "lib"},
                            "application": lambda: {"containerized": g.flip(), "dependencies": [dep(g)], "dependency-overwrites": {"alpha": "alpha >=1"},
                                                    "exposed-packages": ["x"]}})}
    for i in range(g.int(0, 3)):
        tool[f"other{i}"] = {"num": g.int(-5, 10 ** 6), "flag": g.flip(), "lst": [word(g) for _ in range(g.int(0, 5))], **table(g)}
    if g.flip(0.3):
        tool["aot"] = {"item": [{"a": word(g), "n": i} for i in range(g.int(1, 4))]}
    r["tool"] = tool
    return r


def raw_group(g):
    return {**({"name": text(g)} if g.flip() else {}), "children": [f"projects/p {i}" for i in range(g.int(0, 6))]}


def raw_repos(g):
    return {"repos": {f"repo{i}": {"type": g.pick(["pypi", "simple", "git"]), "bind-only": g.flip(), "url": f"https://x{g.int(0, 99)}.test/a?b=c#d", **table(g, 2)}
                      for i in range(g.int(0, 4))},
            "inheritance": g.pick(["context", "global", "none"]),
            "package-bindings": {n.replace(".", "-"): g.pick(["repo1", {"type": "git", "url": "git+x"}]) for n in g.sample(NAMES)}}


def raw_general(g):
    return {"concurrency": {"mode": g.pick(["proc", "thread", "none"])}, "interpreters": {"search-paths": [f"/opt/py {i}" for i in range(g.int(0, 4))]}}


def raw_envs(g):
    return {"attached-env": {"path": f"/e/{word(g).strip()}"}}


def raw_zoo(g):
    return {"package_sharing": {"enabled": g.flip(), "exclude": [g.pick(NAMES) for _ in range(g.int(0, 5))]}}


def raw_entrypoints(g):
    return {f"grp.{i}": {f"Name{j}": f"pkg.mod{j}:obj.attr" for j in range(g.int(1, 12))} for i in range(g.int(0, 4))}


def raw_wheel(g):
    return {"Wheel-Version": "1.0", "Generator": f"gen ({g.int(0, 99)}.{g.int(0, 9)})", "Root-Is-Purelib": "true" if g.flip() else "false", "Tag": "py3-none-any"}


def raw_pyvenv(g):
    return {"home": f"/usr/lib/py {g.int(0, 999)}/bin", "version": f"3.{g.int(6, 13)}.{g.int(0, 9)}",
            "include-system-site-packages": "true" if g.flip() else "false", "extra": "x y"}


def raw_record(g):
    import base64
    rows = []
    for i in range(g.int(0, 60)):
        h = "" if g.flip(0.2) else "sha256=" + base64.urlsafe_b64encode(bytes([g.int(0, 255) for _ in range(32)])).decode().rstrip("=")
        rows.append({"file": f"pkg/{g.pick(['m', 'a, b', 'quo\"te', 'sp ace', 'ünï'])}{i}.py", "hash_signature": h, "length": str(g.int(0, 9999)) if h else ""})
    return {"records": rows}


def raw_metadata(g):
    r = {"Metadata-Version": "2.1", "Name": g.pick(NAMES), "Version": version(g),
         "Requires-Dist": [dep(g) for _ in range(g.int(0, 6))], "Requires-Python": ">=3.6"}
    r.update(some(g, {"Summary": lambda: text(g, 20), "Description": lambda: "\n".join(["# Title", "", *(text(g) for _ in range(g.int(1, 40))), "From: not a header", "end"]),
                      "Classifier": lambda: [f"Topic :: X{i} :: {'y' * g.int(1, 120)}" for i in range(g.int(1, 6))],
                      "Author": lambda: g.pick(["Jane Doe", "Ünal Ñ", "Doe, J."]), "Author-email": lambda: "Jane Doe <j@x.org>",
                      "Project-URL": lambda: [f"home, https://x.test/{'p' * g.int(1, 140)}"],
                      "License": lambda: g.pick(["MIT", "Apache 2.0"])}))
    return r


def raw_info(g):
    return {"containerized": g.flip(), "store_mode": g.pick(["EDITABLE", "COPY", "AUTO"]), "compatibility_tag": f"cp3{g.int(6, 13)}"}


def raw_fetch(g):
    return {"etag": f"\"{g.int(0, 10 ** 9)}\""}


def js(x):
    if isinstance(x, dict):
        r = {str(k): js(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])) if v is not None}
        return {k: v for k, v in r.items() if v != {}}
    if isinstance(x, (list, tuple)):
        return [js(i) for i in x]
    if isinstance(x, (bool, int, float)) or x is None:
        return x
    return re.sub(r"^([\w.-]+) ?\*", r"\1", str(x))  # "name *" and "name" are the same dependency


def canon(x):
    return json.dumps(js(x), ensure_ascii=False, sort_keys=True)


def contains(whole, part):
    """every leaf of part is in whole"""
    if isinstance(part, dict):
        return isinstance(whole, dict) and all(contains(whole.get(k), v) for k, v in part.items() if v not in ({}, None, ""))
    if isinstance(part, list):
        return isinstance(whole, list) and len(whole) == len(part) and all(contains(w, p) for w, p in zip(whole, part))
    if isinstance(part, str) and isinstance(whole, str):
        return whole.replace(" ", "") == part.replace(" ", "") or whole.replace(" ", "").replace("'", '"') == part.replace(" ", "").replace("'", '"')
    return whole == part


HAND_TOML = '''# hand written, keep me
  # indented comment

[project]
name = "alpha"   # the name
version = '1.2.3'
description = """multi
line text"""
dependencies = [
    "beta >=1.0",  # why
    # nothing
    'gamma-x',
]
urls.home = "https://x.test"   # dotted
"quoted key" = 1
readme = { file = "README.md" }

[project.optional-dependencies]
test = ["zeta"]

[build-system]
requires = ["pkm"]
build-backend = "pkm.api.buildsys"

[[tool.x.item]]
a = 1
[[tool.x.item]]
a = 2

[tool.pkm.distribution]
type = "lib"
# the end
'''


def kinds():
    from pkm.api.distributions.distinfo import EntrypointsConfiguration, WheelFileConfiguration, RecordsFileConfiguration
    from pkm.api.environments.environment_builder import PyVEnvConfiguration
    from pkm.api.environments.environments_zoo import EnvironmentZooConfiguration
    from pkm.api.packages.package_installation_info import PackageInstallationInfo
    from pkm.api.packages.package_metadata import PackageMetadata
    from pkm.api.pkm import PkmGeneralConfiguration
    from pkm.api.projects.environments_config import EnvironmentsConfiguration
    from pkm.api.projects.project_group import PyProjectGroupConfiguration
    from pkm.api.projects.pyproject_configuration import PyProjectConfiguration
    from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration
    return {"pyproject.toml": (PyProjectConfiguration, raw_pyproject), "pyproject-group.toml": (PyProjectGroupConfiguration, raw_group),
            "etc/pkm/repositories.toml": (RepositoriesConfiguration, raw_repos), "etc/pkm/general.toml": (PkmGeneralConfiguration, raw_general),
            "etc/pkm/environments.toml": (EnvironmentsConfiguration, raw_envs), "env-zoo.toml": (EnvironmentZooConfiguration, raw_zoo),
            "d/entry_points.txt": (EntrypointsConfiguration, raw_entrypoints), "d/WHEEL": (WheelFileConfiguration, raw_wheel),
            "pyvenv.cfg": (PyVEnvConfiguration, raw_pyvenv), "d/RECORD": (RecordsFileConfiguration, raw_record),
            "d/METADATA": (PackageMetadata, raw_metadata), "d/INSTALLATION_MODE": (PackageInstallationInfo, raw_info)}


class Subject:
    """one file, the operations that save it, and how to read it back"""

    def __init__(self, ctx, base, name, cls, raw):
        self.ctx = ctx
        self.g = ctx.gen
        self.path = base / name
        self.name = name
        self.cls = cls
        self.raw = raw
        self.allowed = [None]  # canonical contents the file may have now; None: the file does not exist
        self.obj = None

    def fresh(self):
        """(canonical, object) of new random content"""
        r = self.raw(self.g)
        o = self.cls.from_config(copy.deepcopy(r))
        c = o.to_config()
        if not contains(js(c), js(r)):
            self.ctx.note("content-lost-in-memory", f"{self.name}: {r} became {js(c)}")
        return canon(c), o

    def prepare(self):
        """-> (canonical, function that saves)"""
        c, o = self.fresh()
        how = self.g.pick(["new", "edit", "edit", "reuse"])
        if how == "new" or not self.path.exists():
            return c, lambda: o.save(self.path)
        if how == "reuse" and self.obj is not None:
            t = self.obj
        else:
            t = self.cls.load(self.path)
            self.obj = t
        if self.g.flip(0.2):
            return canon(t.to_config()), lambda: t.save()  # saved without a change
        for k in self.cls.__config_schema__:
            if self.g.flip(0.5):
                setattr(t, k, copy.deepcopy(getattr(o, k)))
        return canon(t.to_config()), lambda: t.save()

    def read(self):
        if not self.path.exists():
            return None
        return canon(self.cls.load(self.path).to_config())


def api_subjects(ctx, base):
    """operations of the public api that save configuration, as (name, path, read, operations)"""
    g = ctx.gen

    class Mark:
        name = "REQUESTED"

        def __init__(self):
            from pkm.api.distributions.distinfo import DistInfo
            self.path = base / "x-1.0.dist-info/REQUESTED"
            fs._real_makedirs(self.path.parent, exist_ok=True) if hasattr(fs, "_real_makedirs") else os.makedirs(self.path.parent, exist_ok=True)
            self.di = DistInfo.load(self.path.parent)
            self.allowed = [None]

        def prepare(self):
            from pkm.api.dependencies.dependency import Dependency
            if self.g_remove():
                return None, self.di.unmark_as_user_requested
            d = Dependency.parse(dep(g))
            return str(d), lambda: self.di.mark_as_user_requested(d)

        def g_remove(self):
            return g.flip(0.2)

        def read(self):
            if not self.di.is_user_requested():
                return None
            d = self.di.load_user_requested_dependency()
            return str(d)

    class Info:
        name = "INSTALLATION_MODE(api)"

        def __init__(self):
            from pkm.api.distributions.distinfo import DistInfo
            self.path = base / "y-1.0.dist-info/INSTALLATION_MODE"
            os.makedirs(self.path.parent, exist_ok=True)
            self.di = DistInfo.load(self.path.parent)
            self.allowed = [None]

        def prepare(self):
            from pkm.api.packages.package_installation_info import PackageInstallationInfo
            i = PackageInstallationInfo.from_config(raw_info(g))
            return canon(i.to_config()), lambda: self.di.save_installation_info(i)

        def read(self):
            i = self.di.load_installation_info()
            return None if i is None else canon(i.to_config())

    class Pth:
        name = "pth"

        def __init__(self):
            self.path = base / "links.pth"
            self.allowed = [None]

        def prepare(self):
            from pkm.api.distributions.pth_link import PthLink
            ls = [Path(f"/shared/{word(g).strip()}/{i}") for i in range(g.int(0, 30))]
            im = [f"mod{i}" for i in range(g.int(0, 3))]
            return canon([im, ls]), lambda: PthLink(self.path, ls, im).save()

        def read(self):
            from pkm.api.distributions.pth_link import PthLink
            if not self.path.exists():
                return None
            x = PthLink.load(self.path)
            return canon([x.imports, x.links])

    class Group:
        name = "group.add/remove"

        def __init__(self):
            self.path = base / "grp/pyproject-group.toml"
            os.makedirs(self.path.parent, exist_ok=True)
            self.allowed = [None]
            self.known = []

        def prepare(self):
            from pkm.api.projects.project_group import ProjectGroup
            gr = ProjectGroup.load(self.path.parent)
            now = [str(c) for c in gr.config.children]
            if now and g.flip(0.4):
                v = g.pick(now)
                return canon([c for c in now if c != v]), lambda: gr.remove(self.path.parent / v)
            n = f"p{len(self.known)} x"
            self.known.append(n)
            return canon(now + [n]), lambda: gr.add(Path(n))

        def read(self):
            from pkm.api.projects.project_group import ProjectGroup
            return canon([str(c) for c in ProjectGroup.load(self.path.parent).config.children]) if self.path.exists() else None

    class Bump:
        name = "bump_version"

        def __init__(self):
            self.path = base / "prj/pyproject.toml"
            os.makedirs(self.path.parent, exist_ok=True)
            v = f"1.{g.int(0, 9)}.0"
            with open(self.path, "w") as f:
                f.write(HAND_TOML.replace("1.2.3", v))
            self.allowed = [self.read()]

        def prepare(self):
            from pkm.api.projects.project import Project
            p = Project.load(self.path.parent)
            x = json.loads(self.read())
            rel = [int(i) for i in str(p.version).split(".")]
            k = g.int(0, 2)
            rel = rel[:k] + [rel[k] + 1] + [0] * (2 - k)
            x[0] = ".".join(map(str, rel))
            return json.dumps(x), lambda: p.bump_version(["major", "minor", "patch"][k])

        def read(self):
            from pkm.api.projects.project import Project
            p = Project.load(self.path.parent)
            c = p.config.to_config()
            ver = str(c["project"].pop("version"))
            with fs._real_open(self.path, encoding="utf-8") as f:
                t = f.read()
            return json.dumps([ver, canon(c), t.count("#"), "# hand written, keep me" in t])

    class Repos:
        name = "add/remove repository"

        def __init__(self):
            self.dir = base / "env"
            self.path = self.dir / "etc/pkm/repositories.toml"
            self.allowed = [None]
            self.n = 0
            self.loaded = None
            if g.flip():
                os.makedirs(self.path.parent)
                with open(self.path, "w") as f:
                    f.write('[repos.r0]\ntype = "simple"\nurl = "https://r0.test/"\n\n[package-bindings]\nalpha = "r0"\n'
                            'beta = { type = "simple", url = "https://b.test/" }\n')
                self.allowed = [self.read()]

        def manager(self):
            from pkm.api.repositories.repository_management import EnvRepositoryManagement

            class E:
                path = self.dir
                zoo = None

            from pkm.api.pkm import pkm
            return EnvRepositoryManagement(E, pkm.repository_loader)

        def state(self, c):
            return canon({"repos": c["repos"], "bind": c.get("package-bindings") or {}, "inherit": c.get("inheritance")})

        def prepare(self):
            m = self.manager()
            now = json.loads(canon(m.configuration.to_config()))
            now.setdefault("repos", {})
            if g.flip():
                m.attached_repo  # the configuration is in use when it is changed
                ctx.probe("repositories-in-use")
            if now["repos"] and g.flip(0.3):
                v = g.pick(sorted(now["repos"]))
                now["repos"].pop(v)
                now["package-bindings"] = {k: r for k, r in (now.get("package-bindings") or {}).items() if r != v}
                return self.state(now), lambda: m.remove_repository(v)
            if now["repos"] and g.flip(0.3):
                now.setdefault("package-bindings", {})
                v, pk = g.pick(sorted(now["repos"])), g.pick(["alpha", "beta", "zeta"])
                now["package-bindings"][pk] = v
                return self.state(now), lambda: m.register_bindings([pk], v)
            self.n += 1
            a = {"url": f"https://r{self.n}.test/x"}
            bo = g.flip()
            now["repos"][f"r{self.n}"] = {"type": "simple", "bind-only": bo, **a}
            return self.state(now), lambda: m.add_repository(f"r{self.n}", "simple", dict(a), bo)

        def read(self):
            if not self.path.exists():
                return None
            from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration
            c = json.loads(canon(RepositoriesConfiguration.load(self.path).to_config()))
            c.setdefault("repos", {})
            return self.state(c)

    return [Mark, Info, Pth, Group, Bump, Repos]


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    contain_current_env(ctx.root)
    ctx.attach_fs()
    base = ctx.root / "w"
    os.makedirs(base)
    if sc == "defaults":
        return run_defaults(ctx)
    subjects = []
    if sc == "api":
        subjects = [k() for k in api_subjects(ctx, base) if g.flip(0.4)] or [g.pick(api_subjects(ctx, base))()]
    else:
        ks = kinds()
        for n in g.sample(sorted(ks), 0.2) or [g.pick(sorted(ks))]:
            s = Subject(ctx, base, n, *ks[n])
            if n == "pyproject.toml" and g.flip(0.4):
                with open(s.path, "w", encoding="utf-8") as f:
                    f.write(HAND_TOML)
                s.allowed = [s.read()]
            elif g.flip(0.2):
                os.makedirs(s.path.parent, exist_ok=True)
                os.makedirs(base / "real", exist_ok=True)
                os.symlink(base / "real" / s.path.name, s.path)
            subjects.append(s)

    def verify(s, where):
        try:
            c = s.read()
        except Exception as e:  # noqa
            ctx.note("not-loadable", f"{s.name} {where}: {e!r} content {peek(s.path)!r}")
            return
        if c not in s.allowed:
            ctx.note("wrong-content", f"{s.name} {where}: loaded {c} allowed {s.allowed} content {peek(s.path)!r}")
            return
        s.allowed = [c]

    def peek(p):
        try:
            with fs._real_open(p, "rb") as f:
                return f.read()[:1500]
        except OSError as e:
            return str(e)

    def others_untouched(skip):
        for s in subjects:
            if s is not skip:
                verify(s, "other file")

    steps = g.int(2, 6)
    n = 0
    while n < steps and not ctx.noted:
        batch = g.int(1, 3)
        crash = sc == "crash" or (sc == "api" and g.flip(0.4))

        def proc(n=n):
            for k in range(batch):
                s = g.pick(subjects)
                want, save = s.prepare()
                last = k == batch - 1
                if sc == "readers":
                    readers(s, want, save)
                    continue
                if last or sc == "error":
                    only = None
                    if crash:
                        ctx.fs.arm(g.int(1, 14), "crash", g.int(0, 11), only=only)
                    else:
                        ctx.fs.arm(g.int(1, 14), "error", g.int(0, 7), sticky=sc == "full", only=only)
                before = list(s.allowed)
                s.allowed = before + [want]
                ctx.event(f"save {s.name}")
                try:
                    save()
                except OSError as e:
                    ctx.event(f"save failed {e!r}")
                    ctx.probe(f"failed-{s.name}")
                    if not ctx.fs.fired:
                        ctx.note("save-failed-without-fault", f"{s.name}: {e!r}")
                else:
                    ctx.probe(f"saved-{s.name}")
                    s.allowed = [want]
                ctx.fs.disarm()
                verify(s, "after the save")
                others_untouched(s)
                if ctx.noted:
                    return

        def readers(s, want, save):
            """others load the file while it is being saved"""
            before = list(s.allowed)
            seen = before + [want]
            done = []

            def writer():
                save()
                done.append(1)

            def loader():
                for _ in range(g.int(1, 3)):
                    d = bool(done)
                    try:
                        c = s.read()
                    except FileNotFoundError:
                        if None in before and not d:
                            continue
                        raise
                    except Exception as e:  # noqa
                        ctx.note("not-loadable", f"{s.name} while being saved: {e!r}")
                        return
                    if c not in ([want] if d else seen):
                        ctx.note("wrong-content", f"{s.name} while being saved: {c} allowed {seen} saved before the load: {d}")
            ctx.threads([writer] + [loader] * g.int(1, 2))
            s.allowed = [want]
            verify(s, "after the save")

        st, v = ctx.proc(proc, f"p{n}")
        ctx.fs.disarm()
        if st == "exc":
            raise v
        if st == "crash":
            ctx.probe("crashed")

            def look():
                for s in subjects:
                    s.obj = None
                    verify(s, "after the crash")
            st, v = ctx.proc(look, f"look{n}")
            if st == "exc":
                raise v
        n += 1

    def final():
        """without faults every save works and is visible"""
        for s in subjects:
            want, save = s.prepare()
            try:
                save()
            except Exception as e:  # noqa
                ctx.note("save-failed-without-fault", f"{s.name} at the end: {e!r}")
                return
            s.allowed = [want]
            verify(s, "at the end")
    if not ctx.noted:
        st, v = ctx.proc(final, "final")
        if st == "exc":
            raise v


def run_defaults(ctx):
    """the default configuration files appear completely or not at all"""
    g = ctx.gen
    home = ctx.root / "xdg/pkm"
    good = {}

    def get(which):
        from pkm.api.pkm import pkm
        if which == "general":
            return canon(pkm.config.to_config())
        return canon(sorted(pkm.repository_loader.global_repo_config.to_config().items()))

    def attempt(which, thr):
        if thr:
            res = []
            ctx.threads([lambda: res.append(get(which))] * 2)
            return res[0]
        return get(which)

    from pkm.utils.resources import ResourcePath  # noqa
    for k in range(g.int(1, 3)):
        which = g.pick(["general", "repos"])
        ctx.fs.arm(g.int(1, 12), g.pick(["crash", "error"]), g.int(0, 11), only=lambda p, k: p.startswith("xdg"))

        def body():
            try:
                attempt(which, False)
            except Exception as e:  # noqa
                if not ctx.fs.fired:
                    ctx.note("defaults-not-loadable", repr(e))
        st, v = ctx.proc(body, f"p{k}")
        ctx.fs.disarm()
        if st == "exc":
            raise v

    def final():
        from pkm.api.pkm import pkm
        from pkm.config import toml
        for which, res, path in (("general", "default_pkm_general.toml", home / "etc/pkm/general.toml"),
                                 ("repos", "default_pkm_repositories.toml", home / "etc/pkm/repositories.toml")):
            try:
                attempt(which, g.flip())
            except Exception as e:  # noqa
                ctx.note("defaults-not-loadable", f"{which}: {e!r}")
                return
            with ResourcePath("pkm.resources", res).use() as p:
                with fs._real_open(p) as f, fs._real_open(path) as f2:
                    if f.read() != f2.read():
                        ctx.note("defaults-torn", which)
    st, v = ctx.proc(final, "final")
    if st == "exc":
        raise v
