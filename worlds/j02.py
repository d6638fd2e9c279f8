"""J02: a project group is what its file says, changes of it are exact and all or nothing, and every project finds its group."""
import os
import tomllib
from pathlib import Path

from sim import fs
from worlds._pkgs import contain_current_env, load_env, make_env

SCENARIOS = [("history", 5), ("io", 4), ("crash", 3)]
QUICK_RUNS = 1500
THOROUGH_RUNS = 60000
MAX_STEPS = 3_000_000
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm ProjectGroup and its configuration, Project.group/attached_environment, project and group repositories, TOML layer, wheel and source builds of the "
        "children; file system calls on a private scratch tree")
STUBS = "interpreter introspection data, clock, disk faults, process crashes"
ASSUMPTIONS = ["one pkm process at a time changes a group", "no project is listed by two groups and no group contains itself",
               "a crash keeps completed system calls (kill -9)"]
NAMES = ["alpha", "Beta.B", "ga_mma", "delta", "eps-1"]


def key(name):
    return name.lower().replace(".", "-").replace("_", "-")


class Node:
    def __init__(self, kind, path, name):
        self.kind, self.path, self.name = kind, path, name
        self.parent = None  # the group that lists it
        self.listed = []  # children of a group in order
        self.version = None
        self.env = None
        self.loose = []  # below it, listed nowhere


def run(ctx):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.projects.project import Project
    from pkm.api.projects.project_group import ProjectGroup
    g = ctx.gen
    ctx.attach_fs()
    contain_current_env(ctx.root)
    sc = ctx.scenario
    work = ctx.root / "work"
    os.makedirs(work)
    if alias := g.flip(0.2):
        os.symlink(work, ctx.root / "alias")
    names, counter = list(NAMES), [0]
    everything = []

    def make_project(path):
        n = Node("project", path, names.pop(g.int(0, len(names) - 1)))
        n.version = g.pick(["1.0.0", "0.2.1", "2.0.0"])
        (path / "etc/pkm").mkdir(parents=True)
        src = path / "src" / n.name.lower().replace(".", "_").replace("-", "_")
        src.mkdir(parents=True)
        (src / "__init__.py").write_text("X = 1\n")
        n.text = f'[project]\nname = "{n.name}"\nversion = "{n.version}"\ndescription = "demo"\n'
        make_env(path, ".venv")
        if g.flip(0.2):
            n.env = make_env(path, "other-env")
            (path / "etc/pkm/environments.toml").write_text(f'[attached-env]\npath = "{n.env}"\n')
        n.build = '[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n'
        everything.append(n)
        return n

    def make_group(path, depth):
        counter[0] += 1
        n = Node("group", path, f"g{counter[0]}" if g.flip() else None)
        (path / "etc/pkm").mkdir(parents=True)
        if g.flip(0.4):
            n.env = make_env(path, "env")
            (path / "etc/pkm/environments.toml").write_text(f'[attached-env]\npath = "{n.env}"\n')
        everything.append(n)
        for i in range(g.int(0, 3)):
            sub = path / g.pick([f"c{i}", f"d/c{i}"])
            if depth < 2 and g.flip(0.35):
                c = make_group(sub, depth + 1)
            elif names:
                c = make_project(sub)
            else:
                continue
            if g.flip(0.8):
                n.listed.append(c)
                c.parent = n
            else:
                n.loose.append(c)
        return n

    def spell(path, base):
        """one way to write the path of a child"""
        rel = os.path.relpath(path, base)
        return g.pick([rel, rel, f"./{rel}", str(path), f"{rel}/", f"x/../{rel}"])

    root = make_group(work / "top", 0)
    if names and g.flip(0.3):  # a project outside of every group's directory
        p = make_project(work / "outside")
        if g.flip():
            root.listed.append(p)
            p.parent = root
    groups = [n for n in everything if n.kind == "group"]
    pinned = set()
    for n in everything:
        if n.kind == "project":
            t = n.text
            below = n.parent and n.path.is_relative_to(n.parent.path)
            if n.parent and (not below or g.flip(0.15)):  # names its group
                t += f'[tool.pkm.project]\ngroup = "{os.path.relpath(n.parent.path, n.path)}/pyproject-group.toml"\n'
                pinned.add(n)
            (n.path / "pyproject.toml").write_text(t + n.build)
        else:
            t = (f'name = "{n.name}"\n' if n.name else "") + g.pick(["", "# a comment\n"])
            t += "children = [" + ", ".join(f'"{spell(c.path, n.path)}"' for c in n.listed) + "]\n" if n.listed or g.flip() else ""
            if n.parent and g.flip(0.2):
                t += f'parent = "{n.parent.path}/pyproject-group.toml"\n'
                pinned.add(n)
            n.other = g.pick(["", "[other]\nkept = [1]\n"])
            (n.path / "pyproject-group.toml").write_text(t + n.other)

    def gname(n):
        return n.name or n.path.name

    def view(p):
        """the path under which somebody opens it"""
        k = g.int(0, 5)
        if alias and k < 3:
            return ctx.root / "alias" / p.relative_to(work)
        return p / ".." / p.name if k == 3 else p

    def recursive(n):
        return [p for c in n.listed for p in ([c] if c.kind == "project" else recursive(c))]

    def parents(n):
        return [n.parent] + parents(n.parent) if n.parent else []

    def same(a, b):
        return os.path.realpath(a) == os.path.realpath(b)

    def check_group(grp, n, what):
        want = [c.path for c in n.listed]
        have = [c.path for c in grp.children]
        ctx.check(len(want) == len(have) and all(map(same, want, have)), "wrong-children", lambda: f"{what}: {have}, expected {want}")
        for c, m in zip(grp.children, n.listed):
            ctx.check(isinstance(c, Project) == (m.kind == "project"), "wrong-child-kind", lambda: f"{what}: {c} {m.path}")
            ctx.check(key(c.name) == key(m.name) if m.kind == "project" else c.config.name == gname(m), "wrong-child-name", lambda: f"{what}: {m.path}")
        want = [p.path for p in recursive(n)]
        have = [p.path for p in grp.project_children_recursive]
        ctx.check(len(want) == len(have) and all(map(same, want, have)), "wrong-projects", lambda: f"{what}: {have}, expected {want}")
        ctx.check(grp.config.name == gname(n), "wrong-name", lambda: f"{what}: {grp.config.name}")

    def check_upwards(obj, up, n, what):
        """obj's group is `up`"""
        if n.parent is None:
            ctx.check(up is None, "foreign-group", lambda: f"{what}: {up.path}")
            return
        ctx.check(up is not None and same(up.path, n.parent.path), "group-not-found", lambda: f"{what}: {up and up.path}, expected {n.parent.path}")
        chain = parents(n)
        ctx.check(same(up.root.path, chain[-1].path) if up.root else len(chain) == 1, "wrong-root",
                  lambda: f"{what}: the root of {up.path} is {up.root and up.root.path}, expected {chain[-1].path}")
        for m in chain:
            ctx.check(up is not None and same(up.path, m.path), "wrong-parent", lambda: f"{what}: {up and up.path}, expected {m.path}")
            up = up.parent
        ctx.check(up is None, "wrong-parent", lambda: f"{what}: {up.path} above the topmost group")

    def observe(why):
        for n in everything:
            if n.kind == "group":
                grp = ProjectGroup.load(view(n.path))
                check_group(grp, n, f"{why}: {n.path}")
                check_upwards(grp, grp.parent, n, f"{why}: {n.path}")
                continue
            prj = Project.load(view(n.path))
            check_upwards(prj, prj.group, n, f"{why}: {n.path}")
            want = n.env or (n.parent and n.parent.env) or n.path / ".venv"
            ctx.check(same(prj.attached_environment.path, want), "wrong-environment", lambda: f"{why}: {n.path}: {prj.attached_environment.path}, expected {want}")
            prj.attached_environment = env = load_env(want)
            (Path(want) / "etc/pkm").mkdir(parents=True, exist_ok=True)
            (Path(want) / "etc/pkm/repositories.toml").write_text('inheritance = "none"\n')
            repo = prj.attached_repository
            visible = {key(p.name): p for p in (recursive(n.parent) if n.parent else [])}
            for m in everything:
                if m.kind != "project" or not g.flip(0.4):
                    continue
                spec, fits = g.pick([("", True), (f"=={m.version}", True), (">=9", False), ("<0.1", False)])
                found = [(p.name, str(p.version)) for p in repo.match(Dependency.parse(f"{g.pick([m.name, m.name.upper()])} {spec}"), env)]
                k = key(m.name)
                want = [(m.name, m.version)] if fits and (k in visible or m is n) else []
                ctx.check([(key(a), b) for a, b in found] == [(key(a), b) for a, b in want], "wrong-sibling",
                          lambda: f"{why}: {n.path} looks for {m.name} {spec}: {found}, expected {want}")

    def children_in_file(n, why):
        raw = fs._real_open(n.path / "pyproject-group.toml", "rb").read()
        try:
            t = tomllib.loads(raw.decode())
        except ValueError as e:
            ctx.fail("group-file-broken", f"{why}: {e}: {raw[:300]}")
        ctx.check(t.get("name") == n.name and ("other" in t) == bool(n.other) and t.get("other", {"kept": [1]}) == {"kept": [1]} and
                  ("parent" in t) == (n in pinned), "group-file-changed", lambda: f"{why}: {t}")
        return [os.path.realpath(n.path / c) for c in t.get("children", [])]

    observe("initially")
    for step in range(g.int(1, 5)):
        n = g.pick(groups)
        kind = g.weighted([("add", 4), ("remove", 4), ("build", 1)])
        free = [m for m in everything if m.parent is None and m is not root and n not in [m] and m not in parents(n) and m.path.is_relative_to(n.path)]
        if kind == "add":
            again = n.listed and g.flip(0.15)
            pool = n.listed if again else free
            if not pool:
                continue
            m = g.pick(pool)
            want = n.listed if again else n.listed + [m]
        elif kind == "remove":
            pool = [c for c in n.listed if c not in pinned]
            if not pool:
                continue
            m = g.pick(pool)
            want = [c for c in n.listed if c is not m]
        else:
            m, want = None, n.listed
        what = f"step {step} {kind} {m and m.path} at {n.path}"
        ctx.event(what)
        how = g.int(0, 2)
        memory = {}
        before = children_in_file(n, what)
        after = [os.path.realpath(c.path) for c in want]

        def op():
            grp = ProjectGroup.load(n.path)
            if g.flip():
                check_group(grp, n, f"before {what}")
            if kind == "add":
                if how and m.kind == "project":
                    arg = Project.load(m.path)
                else:
                    arg = m.path if how == 1 else Path(spell(m.path, n.path))
            try:
                if kind == "add":
                    grp.add(arg)
                elif kind == "remove":
                    grp.remove((m.name if m.kind == "project" else gname(m)) if how == 1 else m.path)
                else:
                    grp.build_all()
            finally:
                memory["file"] = [os.path.realpath(p) for p in grp.config.resolved_children]
                memory["grp"] = grp

        armed = sc != "history" and g.flip(0.8)
        for attempt in range(3):
            faulty = armed and attempt < 2
            memory.clear()
            if faulty:
                ctx.fs.arm(g.int(1, g.pick([10, 40]) if kind != "build" else 300), "error" if sc == "io" else "crash", g.int(0, 7), only=lambda r, k: r.startswith("work/"))
            st, v = ctx.proc(op, f"op{step}.{attempt}")
            fired = ctx.fs.fired if faulty else None
            ctx.fs.disarm()
            if st == "exc" and not isinstance(v, Exception):
                raise v
            now = children_in_file(n, what)
            if st == "ok":
                break
            ctx.check(fired, "refused", lambda: f"{what}: {v!r}")
            ctx.probe(f"interrupted-{kind}-{sc}")
            ctx.check(now in (before, after), "children-mixed", lambda: f"{what}: interrupted ({fired}): {now}, before {before}")
            if st == "exc" and memory:
                ctx.check(memory["file"] == now, "memory-differs-from-file", lambda: f"{what} failed with {v!r}: the group says {memory['file']}, the file {now}")
            if now == after != before:
                # was done although it was reported as interrupted, repeating must not do anything
                n.listed = want
                if kind == "remove":
                    m.parent = None
                    break
                if kind == "add":
                    m.parent = n
        else:
            continue
        n.listed = want
        if kind == "add":
            m.parent = n
        elif kind == "remove":
            m.parent = None
        ctx.check(now == after, "wrong-file", lambda: f"{what}: {now}, expected {after}")
        if st == "ok":
            ctx.probe(f"done-{kind}")
            check_group(memory["grp"], n, f"after {what}")
            if kind == "build":
                for p in recursive(n):
                    d = p.path / "dist" / p.version
                    have = sorted(x.name.split("-")[-1].split(".", 1)[-1] if x.name.endswith(".whl") else x.name[-7:] for x in d.iterdir() if not x.name.startswith(".")) if d.exists() else None
                    ctx.check(have == [".tar.gz", "whl"], "not-built", lambda: f"{what}: {p.path}: {have}")
        observe(f"after {what}")
