"""J01: adding, updating and removing the dependencies of a project keeps its file, its environment and its lock in step, or changes nothing."""
import json
import os
import tomllib

from sim import fs
from worlds import i05
from worlds._pkgs import contain_current_env, load_env, make_env, snap
from worlds.i05 import NAMES, SPELL, Req, Universe, gen_req, key, ver

SCENARIOS = [("history", 5), ("io", 5), ("crash", 3)]
QUICK_RUNS = 500
THOROUGH_RUNS = 20000
MAX_STEPS = 3_000_000
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm_cli PrjController.install_dependencies/uninstall_dependencies, pkm Project (configuration, lock, editable wheel build, installation), "
        "ProjectRepositoryManagement with its project and lock repositories, file-system repository, resolver, InstallationPlan, SitePackages, TOML layer")
STUBS = "interpreter introspection data, wheels of a generated universe, clock, thread scheduler, disk faults, process crashes"
ASSUMPTIONS = ["one pkm process at a time works on a project", "packages never disappear from the repository", "final releases only",
               "an operation that was interrupted is repeated before the environment is judged", "a crash keeps completed system calls (kill -9)"]
GROUPS = [None, "docs", "test"]
APP = "My-App"


def prepare():
    """the terminal is replaced by one that swallows everything"""
    import sys
    import types

    class Silent:
        def __getattr__(self, name):
            return lambda *a, **k: None

    for name in ("questionary", "pkm_cli.display.display"):
        m = types.ModuleType(name)
        m.Display = Silent()
        sys.modules[name] = m
    import pkm_cli.controllers.prj_controller  # noqa: F401


MARKERS = {"": True, 'sys_platform == "linux"': True, 'sys_platform == "win32"': False}


def applies(r):
    return r.applies if r.__class__ is Declared else MARKERS[r.marker]


def line(r):
    """the requirement as a user writes it"""
    return r.text() if r.__class__ is Declared or not r.marker else f"{r.text()}; {r.marker}"


def gen(g, n):
    r = gen_req(g, n, 0.15)
    r.marker = g.weighted([("", 8), ('sys_platform == "linux"', 1), ('sys_platform == "win32"', 1)])
    return r


class Declared(Req):
    """a declared requirement: its text as it is in the file, and what it allows"""

    def __init__(self, text):
        from pkm.api.dependencies.dependency import Dependency
        from pkm.api.versions.version import Version
        d = Dependency.parse(text)
        self.spelled, self.extra, self._text = d.package_name, bool(d.extras), text
        self.name = next(n for n in NAMES if key(n) == d.package_name_key)
        self.allowed = {v for v in (1, 2, 3, 4) if d.version_spec.allows_version(Version.parse(ver(v)))}
        self.parsed = d
        self.applies = not d.env_marker or "win32" not in str(d.env_marker)

    def allows(self, v):
        return v in self.allowed

    def text(self):
        return self._text


def run(ctx):
    from pkm.api.dependencies.dependency import Dependency
    g = ctx.gen
    ctx.attach_fs()
    contain_current_env(ctx.root)
    sc = ctx.scenario
    prj_dir = ctx.root / "proj"
    os.makedirs(prj_dir / "src/my_app")
    (prj_dir / "src/my_app/__init__.py").write_text("X = 1\n")
    ep = make_env(prj_dir, ".venv")
    names = NAMES[:g.int(2, 5)]
    i05.TEXT.clear()
    i05.TEXT.update(enumerate(g.pick(i05.VERSIONS), 1))
    u = Universe(g, names)
    repo_dir = ctx.root / "repo"
    os.makedirs(repo_dir)
    built = {(n, v): u.wheel(n, v, ctx.root / "wheels") for n in u.pk for v in u.pk[n]}
    by_key = {key(n): n for n in names}
    other = g.pick(["", "# keep me\n[tool.other]\nvalue = [1, 2]\n"])
    declared = {grp: {} for grp in GROUPS}
    for grp in GROUPS:
        for n in names:
            if g.flip(0.15 if grp else 0.2):
                declared[grp][n] = gen(g, n)
    lists = {grp: [line(r) for r in declared[grp].values()] for grp in GROUPS}
    text = f'[project]\nname = "{APP}"\nversion = "0.1.0"\ndescription = "demo"\n' + \
           (f"dependencies = {json.dumps(lists[None])}\n" if lists[None] or g.flip() else "") + \
           ("[project.optional-dependencies]\n" + "".join(f"{grp} = {json.dumps(lists[grp])}\n" for grp in GROUPS[1:] if lists[grp])) + \
           '[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n' + other
    pyproject = prj_dir / "pyproject.toml"
    pyproject.write_text(text)
    lock_file = prj_dir / "etc/pkm/packages-lock.toml"
    os.makedirs(lock_file.parent)
    (prj_dir / "etc/pkm/repositories.toml").write_text(f'inheritance = "none"\n[repos.wheels]\ntype = "file-system"\npath = "{repo_dir}"\n')
    cfg = ctx.root / "xdg/pkm/etc/pkm/general.toml"
    cfg.parent.mkdir(parents=True)
    cfg.write_text(f'[concurrency]\nmode = "{g.pick(["none", "thread"])}"\n')
    base = snap(ep)
    foreign_lock = {}
    if g.flip(0.3):  # locked by somebody with another kind of environment
        n = g.pick(names)
        foreign_lock = {(n, v) for v in [g.pick(sorted(u.pk[n]))]}
        lock_file.write_text("".join(f'[[lock]]\nenv_markers_hash = "another"\npackage = {{ name = "{n}", version = "{ver(v)}" }}\n' for n, v in foreign_lock))

    def publish():
        for n in names:
            for v in u.versions(n):
                p, path = built[n, v]
                if not (repo_dir / p.filename).exists():
                    fs._real_open(repo_dir / p.filename, "wb").write(fs._real_open(path, "rb").read())

    def project():
        from pkm.api.projects.project import Project
        from pkm_cli.controllers.prj_controller import PrjController
        prj = Project.load(prj_dir)
        prj.attached_environment = load_env(ep)
        return prj, PrjController(prj)

    def observe():
        inst, rq, app = {}, {}, None
        env = load_env(ep)
        for p in env.site_packages.installed_packages():
            if p.name_key == key(APP):
                app = p
                continue
            n = by_key[p.name_key]
            inst[n] = {ver(i): i for i in (1, 2, 3, 4)}[str(p.version)]
            if p.user_request is not None:
                rq[n] = p.user_request
        return env, inst, rq, app

    def read_declared(why):
        """{group: {name: text}} of the project file, everything else must be as it was"""
        raw = fs._real_open(pyproject, "rb").read()
        try:
            t = tomllib.loads(raw.decode())
        except ValueError as e:
            ctx.fail("project-file-broken", f"{why}: {e}: {raw[:300]}")
        pr = t.get("project", {})
        def others(doc):
            """what the document says apart from the dependencies; defaults may be spelled out"""
            p = {k: v for k, v in doc["project"].items() if k not in ("dependencies", "optional-dependencies") and (k, v) != ("requires-python", "*")}
            tool = {k: v for k, v in doc.get("tool", {}).items() if (k, v) != ("pkm", {"distribution": {"type": "lib"}})}
            return {**doc, "project": p, "tool": tool}
        rest, rest0 = others(t), others(tomllib.loads(text))
        ctx.check(rest == rest0, "project-file-changed", lambda: f"{why}: {rest} instead of {rest0}")
        out = {}
        for grp in GROUPS:
            lst = pr.get("dependencies", []) if grp is None else pr.get("optional-dependencies", {}).get(grp, [])
            out[grp] = {}
            for x in lst:
                d = Declared(x)
                ctx.check(d.name not in out[grp], "declared-twice", lambda: f"{why}: {lst}")
                out[grp][d.name] = d
        ctx.check(set(pr.get("optional-dependencies", {})) <= set(GROUPS), "group-invented", lambda: f"{why}: {pr}")
        return out

    def same(a, b):
        """is the declaration a of the file what the request b says"""
        d = Dependency.parse(line(b))
        return a.parsed.package_name_key == d.package_name_key and a.parsed.version_spec == d.version_spec and \
            sorted(a.parsed.extras or []) == sorted(d.extras or []) and applies(a) == applies(b) and bool(a.parsed.env_marker) == bool(d.env_marker)

    def differs(have, want, inst):
        for grp in GROUPS:
            if set(have[grp]) != set(want[grp]):
                return f"group {grp}: declared are {[d.text() for d in have[grp].values()]}, expected {[line(r) for r in want[grp].values()]}"
            for n, r in want[grp].items():
                if r.__class__ is Req and not r.lo and r.hi == i05.INF and r.ne is None and getattr(r, "added", False):
                    # requested without a version, a specific version was chosen
                    m = have[grp][n].parsed.env_marker
                    if inst is not None and applies(r) and not have[grp][n].allows(inst.get(n)) or have[grp][n].extra != r.extra or \
                            bool(m) != bool(r.marker) or applies(have[grp][n]) != applies(r):
                        return f"{line(r)} was recorded as {have[grp][n].text()}, installed is {inst.get(n) if inst else None}"
                elif not same(have[grp][n], r):
                    return f"{line(r)} became {have[grp][n].text()}"

    def roots_of(decl, grp):
        return [r for r in list(decl[None].values()) + (list(decl[grp].values()) if grp else []) if applies(r)]

    def read_lock(env):
        if not lock_file.exists():
            return set(), set()
        try:
            t = tomllib.loads(fs._real_open(lock_file, "rb").read().decode())
        except ValueError as e:
            ctx.fail("lock-broken", str(e))
        # the format of an entry is not of interest here, it is read through a fresh lock
        from pkm.resolution.packages_lock import PackagesLock
        lock = PackagesLock.load(lock_file)
        mine = {(d.name_key, str(d.version)) for d in lock.env_specific_locks(env)}
        return mine, len(t.get("lock", [])) - len(lock.env_specific_locks(env))

    hurt = set()

    def observe_hurt(prev):
        _, inst, _, app = observe()
        tree = snap(ep)
        for n in prev:
            p = n in inst and built[n, inst[n]][0]
            if not p or any(r not in tree for r in p.expected(ep)):
                hurt.add(n)
        if had_app and app is None:
            hurt.add(APP)

    had_app = False
    group = None  # the group that the project was installed with
    inst = {}
    for step in range(g.int(2, 6)):
        for n in names:
            if g.flip(0.25) and u.published[n] < len(u.pk[n]):
                u.published[n] += 1
        publish()
        kind = g.weighted([("install", 5), ("update", 3), ("uninstall", 3), ("sync", 2)])
        if kind == "uninstall" and not any(declared[grp] for grp in GROUPS):
            kind = "install"
        grp = g.weighted([(None, 4), ("docs", 1), ("test", 1)]) if kind != "uninstall" else None
        pool = sorted({n for gg in GROUPS for n in declared[gg]}) if kind in ("uninstall", "update") and g.flip(0.85) else names
        targets = g.shuffle(list(pool or names))[:g.weighted([(1, 5), (2, 3)])]
        rs = []
        for n in targets:
            r = gen(g, n)
            r.added = True
            rs.append(r)
        what = f"step {step} {kind} {[line(r) for r in rs] if kind != 'sync' else ''} group {grp}"
        want = {gg: dict(declared[gg]) for gg in GROUPS}
        if kind == "uninstall":
            for gg in GROUPS:
                want[gg] = {n: r for n, r in want[gg].items() if n not in targets}
        elif kind != "sync":
            want[grp].update({r.name: r for r in rs})
        new_group = grp if kind != "uninstall" else group
        ctx.event(what)
        before, prev = snap(ep), dict(inst)
        files_before = [fs._real_open(f, "rb").read() if f.exists() else None for f in (pyproject, lock_file)]
        solvable = kind == "uninstall" or u.solvable(roots_of(want, grp)) is not None
        memory = {}

        def op():
            prj, ctl = project()
            if kind == "uninstall":
                ctl.uninstall_dependencies([r.spelled for r in rs])
            elif kind == "sync":
                ctl.install_project(grp)
            else:
                deps0 = [str(d) for d in prj.config.project.dependencies or []]
                try:
                    ctl.install_dependencies([Dependency.parse(line(r)) for r in rs], grp, kind == "update")
                except Exception:
                    memory["lost"] = None if (now := [str(d) for d in prj.config.project.dependencies or []]) == deps0 else (deps0, now)
                    raise

        armed = sc != "history" and g.flip(0.7)
        for attempt in range(3):
            faulty = armed and attempt < 2
            memory.clear()
            if faulty:
                ctx.fs.arm(g.int(1, 220), "error" if sc == "io" else "crash", g.int(0, 7),
                           only=lambda r, k: r.startswith("proj/"))
            st, v = ctx.proc(op, f"op{step}.{attempt}")
            fired = ctx.fs.fired if faulty else None
            ctx.fs.disarm()
            if memory.get("lost"):
                ctx.fail("declaration-kept-after-failure", f"{what} failed with {v!r}: the dependencies were {memory['lost'][0]}, are {memory['lost'][1]}")
            if st == "ok":
                break
            if st == "exc" and not isinstance(v, Exception):
                raise v
            if fired:
                ctx.probe(f"interrupted-{kind}-{sc}")
                have = read_declared(f"{what} was interrupted ({fired})")
                x, y = differs(have, declared, None), differs(have, want, None)
                ctx.check(not x or not y, "declaration-mixed", lambda: f"{what} was interrupted ({fired}): {x}; {y}")
                read_lock(load_env(ep))
                if sc == "crash":
                    observe_hurt(prev)
                continue
            ctx.check(not solvable, "satisfiable-refused", lambda: f"{what}: {v!r} / {v.__cause__!r}, installed {prev}, declared "
                                                                   f"{ {gg: [line(r) for r in declared[gg].values()] for gg in GROUPS} }")
            if attempt == 0:
                d = fs.diff(before, snap(ep))
                ctx.check(not d, "refused-but-changed", lambda: f"{what}: {d}")
                for f, b in zip((pyproject, lock_file), files_before):
                    ctx.check((fs._real_open(f, "rb").read() if f.exists() else None) == b, "refused-but-changed", lambda: f"{what}: {f.name}")
            ctx.probe("refused")
            break
        if st != "ok":
            continue
        ctx.check(solvable, "impossible-accepted", lambda: f"{what} succeeded, installed {observe()[1]}")
        env, inst, rq, app = observe()
        have = read_declared(what)
        x = differs(have, want, inst)
        ctx.check(not x, "wrong-declaration", lambda: f"{what}: {x}")
        declared, group = have, new_group

        def check(n, ok, sig, detail):
            ctx.check(ok, f"killed-update-{sig}" if n in hurt or APP in hurt else sig, detail)

        if kind == "update" and attempt == 0:
            for r in rs:
                best = max((v for v in u.versions(r.name) if r.allows(v)), default=None)
                free = best is not None and r.name in prev and applies(r) and not u.deps(r.name, best, True) and \
                    not any(d.name == r.name for n in u.pk if n != r.name for v in u.pk[n] for d in u.deps(n, v, True)) and \
                    not any(applies(d) and (not d.allows(best)) for gg in (None, grp) for n, d in want[gg].items() if n == r.name)
                if free and prev[r.name] != best:
                    ctx.probe("update-judged")
                ctx.check(not free or inst.get(r.name) == best, "not-updated",
                          lambda: f"{what}: {r.name} stays at {inst.get(r.name)} (before: {prev[r.name]}), {best} is available")
        if kind != "uninstall" or had_app:
            check(APP, app is not None, "project-not-installed", lambda: what)
            check(APP, app.user_request is not None, "project-not-requested", lambda: what)
            if kind != "uninstall":
                ctx.check(sorted(app.user_request.extras or []) == ([grp] if grp else []), "wrong-project-request", lambda: f"{what}: {app.user_request}")
            had_app = True
            req = [r.removeprefix("lib/python3.12/site-packages/") for r in snap(ep) if r.endswith(".pth")]
            ctx.check(any(str(prj_dir / "src") in fs._real_open(ep / "lib/python3.12/site-packages" / r).read() for r in req), "project-not-importable", lambda: f"{what}: {req}")
            if group and key(group) not in {key(e) for e in app.user_request.extras or []}:
                group = None
            bad, needed = u.problems(inst, roots_of(declared, group))
            for n, sig, t in bad:
                check(n, False, f"dependency-{sig}", lambda: f"{what}: {t}, installed {inst}, declared "
                                                              f"{ {gg: [line(r) for r in declared[gg].values()] for gg in GROUPS} } group {group}")
            if kind == "uninstall":
                ctx.check(set(inst) <= needed, "not-needed-remains", lambda: f"{what}: {sorted(set(inst) - needed)} remain, needed {sorted(needed)}, installed {inst}, "
                          f"project {[str(d) for d in app.dependencies(env.installation_target, app.user_request.extras)]} as {app.user_request}, declared "
                          f"{ {gg: [line(r) for r in declared[gg].values()] for gg in GROUPS} }")
        for n in rq:
            ctx.check(False, "request-invented", lambda: f"{what}: {rq[n]} was never requested by itself")
        if kind != "sync":
            mine, foreign = read_lock(env)
            now = {(key(n), ver(v)) for n, v in inst.items()} | ({(key(APP), "0.1.0")} if app else set())
            ctx.check(mine == now, "lock-differs", lambda: f"{what}: the lock has {sorted(mine)}, installed are {sorted(now)}")
            ctx.check(foreign == len(foreign_lock), "foreign-lock-changed", lambda: f"{what}: {foreign} entries of other environments instead of {foreign_lock}")
        tree = snap(ep)
        for n, v in inst.items():
            for rel, e in built[n, v][0].expected(ep).items():
                t = tree.get(rel)
                check(n, t is not None and t[2] == e[1], "files-of-another-version", lambda: f"{what}: {n} {v}: {rel} is {t}")
        hurt.clear()
        ctx.probe(f"done-{kind}")
