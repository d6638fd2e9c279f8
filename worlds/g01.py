"""G01: packages of version control urls are always built from complete checkouts of the requested revision."""
from worlds import _procs
from worlds._git import Git, Remote
from worlds._pkgs import *

SCENARIOS = [("plain", 3), ("net", 3), ("killed", 5), ("disk", 4), ("crash", 4)]
QUICK_RUNS = 900
THOROUGH_RUNS = 60000
MAX_STEPS = 3_000_000
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm GitRepository and its git client, Dependency/UrlVersion, Project and ProjectGroup loading, pkm wheel builder, WheelDistribution, process monitoring; "
        "scratch file system")
STUBS = "the git program and the remote repositories (scripted: clone/checkout/fetch/pull/reset with index locks, partial work trees when killed), clock, disk faults, process death"
ASSUMPTIONS = ["a crash keeps completed system calls (kill -9)", "one pkm process uses the workspace at a time", "tags do not move and the default branch keeps its name",
               "nobody edits the checkouts"]

HOST = "https://git.example.org"


class Project:
    """the history of one remote project"""

    def __init__(self, g, name, url):
        self.g, self.name, self.url = g, name, url
        self.norm = name.lower().replace("-", "_").replace(".", "_")
        self.n = 0
        self.remote = Remote(self.tree())

    def tree(self):
        g = self.g
        self.n += 1
        stamp = f"{self.url} {self.n}"
        t = {"pyproject.toml": (f'[project]\nname = "{self.name}"\nversion = "1.{self.n}.0"\ndescription = "{stamp}"\n'
                                'readme = "text"\nlicense = {text = "MIT"}\n'
                                '\n[build-system]\nrequires = []\nbuild-backend = "pkm.api.buildsys"\n').encode(),
             f"src/{self.norm}/__init__.py": f"REV = {stamp!r}\n".encode()}
        for i in range(g.int(0, 4)):
            t[f"src/{self.norm}/{g.pick(['', 'sub/', 'deep/er/'])}m{i}.py"] = f"# {g.pick(['same', stamp])}\n".encode() * g.pick([1, 30])
        if g.flip(0.3):
            t["README.md"] = stamp.encode()
        return t

    def evolve(self):
        g, r = self.g, self.remote
        k = g.weighted([("commit", 5), ("branch", 2), ("tag", 2), ("rewind", .7), ("delete", .4)])
        b = g.pick(sorted(r.branches))
        if k == "commit":
            r.branches[b] = r.add(self.tree())
        elif k == "branch":
            r.branches[g.pick(["dev", "feature/x", "v1", "V1", "fix"])] = r.add(self.tree())
        elif k == "tag":
            t = f"t{len(r.tags)}"
            r.tags[t] = g.pick(list(r.commits))
        elif k == "rewind":
            r.branches[b] = g.pick(list(r.commits))
        elif b != "main":
            del r.branches[b]


def run(ctx):
    g = ctx.gen
    ctx.attach_fs()
    sc = ctx.scenario
    projects = []
    name = g.pick(["alpha", "my-proj", "Upper"])
    layouts = g.pick([["/g/a.git"], ["/g/a.git", "/g/a.git/dev"], ["/g/a", "/g/a/v1"], ["/g/a.git", "/h/a.git"], ["/g/a.git", "/G/a.git"], ["/x", "/x/dev", "/x/feature/x"]])
    for p in layouts:
        projects.append(Project(g, name, HOST + p))
    if g.flip(0.3):
        projects.append(Project(g, name, "https://git.example.org:8443" + layouts[0]))
    for p in projects:
        for _ in range(g.int(0, 3)):
            p.evolve()
    git = Git(ctx, {p.url: p.remote for p in projects})
    contain_current_env(ctx.root)

    def handler(args, cwd, env):
        if args[0].endswith("git"):
            return git.handler(args, cwd, env)
        return _procs.interpreter(args, cwd, env, lambda real: {}, lambda interp, text: (1, b"", b"no such script"))
    _procs.install(handler)
    import shutil
    shutil.which = lambda cmd, *a, **k: "/usr/bin/git" if cmd == "git" else None
    ws = ctx.root / "workspace"
    steps = g.int(2, 6)
    targets = []
    for step in range(steps):
        p = g.pick(projects)
        for q in projects:
            if g.flip(0.5):
                q.evolve()
        r = p.remote
        if targets and g.flip(0.6):
            p, ref = g.pick(targets)
            r = p.remote
        else:
            ref = g.weighted([(None, 4), (g.pick(sorted(r.branches)), 4), (g.pick(sorted(r.tags) or [None]), 2), (g.pick(list(r.commits)), 1),
                              ("missing", .3)])
            targets.append((p, ref))
        mode = g.weighted([("copy", 4), ("editable", 2)])
        text = f"{name} @ git+{p.url}{f'@{ref}' if ref else ''}"
        ep = make_env(ctx.root, f"env{step}")
        retrieved = []

        def op():
            from pkm.api.dependencies.dependency import Dependency
            from pkm.api.packages.package_installation_info import StoreMode
            from pkm.repositories.git_repository import GitRepository
            d = Dependency.parse(text)
            env = load_env(ep)
            found = GitRepository(ws).match(d, env)
            if len(found) != 1:
                raise LookupError(f"{len(found)} packages found")
            retrieved.append(1)
            pkg = found[0]
            if pkg.name != name:
                raise AssertionError(f"descriptor {pkg.descriptor}")
            pkg.install_to(env.installation_target, user_request=d, store_mode=StoreMode.COPY if mode == "copy" else StoreMode.AUTO)

        for attempt in range(3):
            faulty = attempt < 2 and sc != "plain" and g.flip(0.75)
            git.offline = False
            git.plan.clear()
            git.spawn_fails.clear()
            f0 = git.faults
            if faulty:
                if sc == "net":
                    if g.flip(0.4):
                        git.offline = True
                    else:
                        git.plan[git.ops + g.int(1, 50)] = "net"
                elif sc == "killed":
                    git.plan[git.ops + g.int(1, 50)] = g.pick(["git", "both", "parent"])
                elif sc == "disk":
                    if g.flip(0.15):
                        git.spawn_fails.add(git.commands + g.int(1, 3))
                    else:
                        ctx.fs.arm(g.int(1, 200), "error", g.int(0, 7), sticky=g.flip(0.2), only=lambda r, k: r.startswith("workspace"))
                else:
                    ctx.fs.arm(g.int(1, 250), "crash", g.int(0, 7), only=lambda r, k: r.startswith(("workspace", "env")))
            want = r.commits.get(r.resolve(ref) if ref else r.branches["main"])
            del retrieved[:]
            ctx.event(f"{text} {mode}{' with faults' if faulty else ''}")
            st, v = ctx.proc(op, f"op{step}.{attempt}")
            fired = ctx.fs.fired
            ctx.fs.disarm()
            git.plan.clear()
            faults = fired or git.faults > f0
            if st == "exc" and isinstance(v, AssertionError) or st == "exc" and not isinstance(v, Exception):
                raise v
            what = lambda: f"step {step} attempt {attempt}: {text} {mode} ({fired or ''} {git.faults - f0} git faults)"  # noqa
            if st == "ok":
                ctx.check(want is not None, "missing-revision-found", what)
                tree = snap(ep)
                got = {}
                if mode == "copy":
                    top = f"{PYDIR}/site-packages/"
                    got = {x[len(top):]: t[2] for x, t in tree.items() if x.startswith(top + p.norm + "/") and t[0] == "f" and not is_pyc(x)}
                else:
                    pth = [t[2].decode() for x, t in tree.items() if x.endswith(".pth")]
                    ctx.check(len(pth) == 1, "editable-links", lambda: f"{what()}: {pth}")
                    src = Path(pth[0].strip())
                    ctx.check(src.is_dir(), "editable-target-missing", lambda: f"{what()}: {src}")
                    got = {str(x.relative_to(src)): fs.real_read(x) if hasattr(fs, "real_read") else x.read_bytes() for x in sorted(src.rglob("*"))
                           if x.is_file() and "__pycache__" not in x.parts}
                expect = {x[4:]: c for x, c in want.items() if x.startswith("src/")}
                bad = sorted(set(got) ^ set(expect)) or [x for x in got if got[x] != expect[x]]
                ctx.check(not bad, "wrong-content", lambda: f"{what()}: files {bad}; {got.get(p.norm + '/__init__.py')} instead of {expect[p.norm + '/__init__.py']}")
                ctx.probe(f"done-{mode}" + ("-despite-fault" if faults else ""))
                break
            if faults:
                ctx.probe(f"interrupted-{sc}")
                if g.flip(0.3):
                    for q in projects:
                        q.evolve()
                if st == "crash" and sc == "killed":
                    ctx.sim.sleep(100)  # an orphaned git finishes
                ep2 = ep
                import shutil as sh
                sh.rmtree(ep2, ignore_errors=True)
                make_env(ctx.root, f"env{step}")
                continue
            ctx.check(want is None, "refused-without-fault", lambda: f"{what()}: {st} {v!r} {v.__cause__!r}")
            ctx.probe("refused-missing")
            break
