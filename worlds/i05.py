"""I05: over any history of install, update and uninstall requests the environment follows the user's requests."""
import itertools
from pathlib import Path

from sim import fs
from worlds._pkgs import Pkg, load_env, make_env, snap

SCENARIOS = [("history", 5), ("io", 4), ("crash", 3)]
QUICK_RUNS = 700
THOROUGH_RUNS = 30000
MAX_STEPS = 3_000_000
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm PackageInstallationTarget.plan_installation/install/uninstall, InstallationPlan, dependency resolver, SitePackages, DistInfo, "
        "WheelDistribution; file system calls on a private scratch tree; thread pool tasks")
STUBS = "repository (local wheels of a generated universe), interpreter introspection data, clock, thread scheduler, disk faults, process crashes"
ASSUMPTIONS = ["packages never disappear from the repository", "final releases only",
               "a request that failed part-way is repeated before the environment is judged",
               "a crash keeps completed system calls (kill -9)"]

NAMES = ["aa", "Bb-Pkg", "c.c", "dd", "ee_e", "FF"]
SPELL = {"aa": ["aa", "AA"], "Bb-Pkg": ["Bb-Pkg", "bb_pkg", "bb.pkg", "BB-PKG"], "c.c": ["c.c", "c-c", "C_C"], "dd": ["dd"],
         "ee_e": ["ee_e", "ee-e", "EE.e"], "FF": ["ff", "FF"]}
EXTRA = "ex"
INF = 99


# the texts of the model's versions 1, 2, 3, ...
VERSIONS = [["1.0", "2.0", "3.0", "4.0"], ["1.0", "1.0.0.1", "1.0.1", "1.1"], ["0.9", "1.10", "1!0.9", "1!1.10"], ["1.0.9", "1.0.10", "1.2", "1.2.0.3"],
            ["2021.12", "2022.2", "2022.10", "2022.10.1"]]
TEXT = {}


def ver(v):
    return TEXT.get(v, f"{v}.0")


def key(n):
    return n.lower().replace("-", "_").replace(".", "_")


class Req:
    """a requirement of the model: versions lo <= v < hi except ne"""

    def __init__(self, name, lo=0, hi=INF, ne=None, extra=False, spelled=None):
        self.name, self.lo, self.hi, self.ne, self.extra = name, lo, hi, ne, extra
        self.spelled = spelled or name

    def allows(self, v):
        return self.lo <= v < self.hi and v != self.ne

    def text(self):
        if self.lo and self.hi == self.lo + 1:
            sp = f"=={ver(self.lo)}"
        else:
            c = ([f">={ver(self.lo)}"] if self.lo else []) + ([f"<{ver(self.hi)}"] if self.hi != INF else []) + \
                ([f"!={ver(self.ne)}"] if self.ne is not None else [])
            sp = ",".join(c)
        return f"{self.spelled}{f'[{EXTRA}]' if self.extra else ''}{' ' + sp if sp else ''}"


def gen_req(g, name, extra=0.0):
    lo, hi, ne = g.weighted([((0, INF, None), 7), ((1, INF, None), 2), ((2, INF, None), 2), ((0, 2, None), 1), ((0, 3, None), 2),
                             ((1, 2, None), .5), ((2, 3, None), .8), ((3, 4, None), .3), ((0, INF, 2), 1), ((3, INF, None), .5)])
    return Req(name, lo, hi, ne, g.flip(extra), g.pick(SPELL[name]))


class Universe:
    def __init__(self, g, names):
        self.pk = {}  # name -> {version: [(req, extra only?, applicable?)]}
        self.published = {}
        for n in names:
            self.pk[n] = {}
            vs = g.sample([1, 2, 3, 4]) or [1]
            for v in sorted(vs):
                deps = []
                for m in names:
                    if g.flip(0.22) and (m != n or g.flip(0.1)):
                        deps.append((gen_req(g, m, 0.15), g.flip(0.2), not g.flip(0.1)))
                        if g.flip(0.05):
                            deps.append((gen_req(g, m, 0.1), False, True))
                self.pk[n][v] = deps
            self.published[n] = max(1, g.int(1, len(vs)))

    def versions(self, n):
        return sorted(self.pk[n])[:self.published[n]]

    def deps(self, n, v, extra):
        return [d for d, ex, ap in self.pk[n][v] if ap and (not ex or extra)]

    def wheel(self, n, v, directory):
        p = Pkg(n, ver(v))
        p.files[f"{p.norm}/__init__.py"] = f"v = {v}\n".encode()
        p.files[f"{p.norm}/only{v}.py"] = f"# {n} {v}\n".encode()
        for d, ex, ap in self.pk[n][v]:
            m = ([f'extra == "{EXTRA}"'] if ex else []) + (['sys_platform == "win32"'] if not ap else [])
            p.requires.append(d.text() + (f" ; {' and '.join(m)}" if m else ""))
        return p, p.write(directory)

    def problems(self, chosen, roots):
        """what is wrong with {name: version} for these roots"""
        out, seen, todo = [], set(), list(roots)
        while todo:
            r = todo.pop()
            v = chosen.get(r.name)
            if v is None:
                out.append((r.name, "missing", f"{r.text()} is required but not installed"))
                continue
            if not r.allows(v):
                out.append((r.name, "not-allowed", f"{r.text()} is required but {r.name} {v} is installed"))
            if (r.name, r.extra) in seen:
                continue
            seen.add((r.name, r.extra))
            if v in self.pk[r.name]:
                todo += self.deps(r.name, v, r.extra)
        return out, {n for n, _ in seen}

    def solvable(self, roots, fixed=()):
        """is there a choice of published versions satisfying the roots"""
        def go(chosen, todo, seen):
            todo = list(todo)
            while todo:
                r = todo.pop()
                if r.name in chosen:
                    if not r.allows(chosen[r.name]):
                        return None
                    if (r.name, r.extra) in seen:
                        continue
                    seen = seen | {(r.name, r.extra)}
                    todo += self.deps(r.name, chosen[r.name], r.extra)
                    continue
                for v in reversed(self.versions(r.name)):
                    if r.allows(v) and (x := go({**chosen, r.name: v}, todo + [r], seen)) is not None:
                        return x
                return None
            return chosen
        return go({}, roots, frozenset())


def make_repository(u, directory):
    from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact
    from pkm.api.repositories.repository import AbstractRepository

    class Local(AbstractPackage):
        def __init__(self, pkg, path):
            super().__init__(pkg.descriptor(), [PackageArtifact(pkg.filename)])
            self._path = path

        def _retrieve_artifact(self, artifact):
            return self._path

    built = {(n, v): u.wheel(n, v, directory) for n in u.pk for v in u.pk[n]}
    keys = {key(n): n for n in u.pk}

    def build():
        memo = {}

        class Repo(AbstractRepository):
            def _do_match(self, dependency, env):
                n = keys.get(dependency.package_name_key)
                if n is None:
                    return []
                if n not in memo:
                    memo[n] = [Local(*built[n, v]) for v in reversed(u.versions(n))]
                return [p for p in memo[n] if dependency.version_spec.allows_version(p.version)]

        return Repo("universe")

    return build, {k: b[0] for k, b in built.items()}


def run(ctx):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.packages.package import PackageDescriptor
    g = ctx.gen
    ctx.attach_fs()
    sc = ctx.scenario
    ep = make_env(ctx.root, "env")
    names = NAMES[:g.int(2, 6)]
    TEXT.clear()
    TEXT.update(enumerate(g.pick(VERSIONS), 1))
    u = Universe(g, names)
    repo, built = make_repository(u, ctx.root / "wheels")
    by_key = {key(n): n for n in names}
    requests = {}  # name -> Req, what the user asked for so far
    base = snap(ep)

    cfg = ctx.root / "xdg/pkm/etc/pkm/general.toml"
    cfg.parent.mkdir(parents=True)
    cfg.write_text(f'[concurrency]\nmode = "{g.pick(["none", "thread"])}"\n')

    def observe():
        """{name: version}, {name: request text} as a fresh process sees it"""
        env = load_env(ep)
        inst, rq = {}, {}
        for p in env.site_packages.installed_packages():
            n = by_key[p.name_key]
            assert n not in inst, "two versions"
            inst[n] = {ver(i): i for i in (1, 2, 3, 4)}[str(p.version)]
            if p.user_request is not None:
                rq[n] = p.user_request
        return inst, rq

    hurt = set()  # packages which lost their files or their metadata because the process was killed while updating them

    def observe_hurt(prev):
        inst, _ = observe()
        tree = snap(ep)
        for n in prev:
            p = n in inst and built[n, inst[n]]
            if not p or any(r not in tree for r in p.expected(ep)):
                hurt.add(n)
                ctx.probe("killed-while-updating")

    def check(n, ok, sig, detail):
        ctx.check(ok, f"killed-update-{sig}" if n in hurt else sig, detail)

    def judge(why, removed=None, prev=None):
        inst, rq = observe()
        for n, r in requests.items():
            check(n, n in inst, "requested-missing", lambda: f"{why}: {r.text()} was requested, installed are {inst}")
            check(n, r.allows(inst[n]), "requested-not-allowed", lambda: f"{why}: {r.text()} was requested, installed is {inst[n]}")
            check(n, n in rq, "request-forgotten", lambda: f"{why}: {r.text()} is not recorded")
            d = Dependency.parse(r.text())
            check(n, key(rq[n].package_name) == key(n) and rq[n].version_spec == d.version_spec and (rq[n].extras or []) == (d.extras or []),
                  "request-changed", lambda: f"{why}: {r.text()} is recorded as {rq[n]}")
        for n in rq:
            check(n, n in requests, "request-invented", lambda: f"{why}: {rq[n]} is recorded but was not requested ({[r.text() for r in requests.values()]})")
        bad, needed = u.problems(inst, requests.values())
        for n, sig, text in bad:
            check(n, False, f"dependency-{sig}", lambda: f"{why}: {text}, installed {inst}, requests {[r.text() for r in requests.values()]}")
        if removed is not None:
            ctx.check(set(inst) <= needed, "not-needed-remains", lambda: f"{why}: {sorted(set(inst) - needed)} remain, needed {sorted(needed)}")
            for n in needed:
                check(n, prev.get(n, inst[n]) == inst[n], "version-changed-by-uninstall", lambda: f"{why}: {n} {prev[n]} -> {inst[n]}")
        tree = snap(ep)
        for n, v in inst.items():
            p = built[n, v]
            for rel, e in p.expected(ep).items():
                t = tree.get(rel)
                check(n, t is not None and t[2] == e[1], "files-of-another-version", lambda: f"{why}: {n} {v}: {rel} is {t}")
        for r in tree:
            if r.endswith(".py") and r not in base and not any(r in built[n, v].expected(ep) for n, v in inst.items()):
                owner = next(n for n in names if f"/{built[n, min(u.pk[n])].norm}/" in r)
                check(owner, False, "files-remain", lambda: f"{why}: {r} with {inst}")
        hurt.clear()
        return inst

    def operate(kind, rs, upd):
        def op():
            env = load_env(ep, repo=repo())
            if kind == "uninstall":
                return env.uninstall([r.spelled for r in rs])
            # requests are given the way the command line gives them
            env.install([Dependency.parse(r.text()) for r in rs], updates=upd, **({"user_requested": False} if kind == "provide" else {}))
        return op

    inst = {}
    for step in range(g.int(2, 7)):
        # the repository grows
        for n in names:
            if g.flip(0.25) and u.published[n] < len(u.pk[n]):
                u.published[n] += 1
        kind = g.weighted([("install", 5), ("update", 3), ("uninstall", 3), ("provide", 0.7)])
        if kind == "provide" and not set(names) - set(requests):
            kind = "install"
        pool = sorted(inst) if kind != "install" and inst and g.flip(0.85) else names
        targets = g.shuffle(list(pool))[:g.weighted([(1, 5), (2, 3), (3, 1)])]
        if kind == "provide":  # needed by somebody else (e.g., a build), not requested by the user
            targets = [n for n in names if n not in requests][:2]
        rs = [gen_req(g, n, 0.2) for n in targets]
        if kind == "update" and g.flip(0.5):
            rs = [requests.get(r.name, r) for r in rs]
        upd = None
        if kind == "update":
            upd = [r.spelled for r in rs]
            if g.flip(0.25):
                upd.append(g.pick(SPELL[g.pick(names)]))
        what = f"step {step} {kind} {[r.text() for r in rs]}{f' updates {upd}' if upd else ''}"
        ctx.event(what)
        before, prev = snap(ep), dict(inst)
        op = operate(kind, rs, upd)
        armed = sc != "history" and g.flip(0.7)
        if kind == "uninstall":
            after_requests = {n: r for n, r in requests.items() if n not in targets}
            solvable = True
        else:
            after_requests = {**requests, **{r.name: r for r in rs}}
            solvable = u.solvable(list(after_requests.values())) is not None
            roots = after_requests
            if kind == "provide":
                after_requests = requests
        for attempt in range(3):
            faulty = armed and attempt < 2
            if faulty:
                ctx.fs.arm(g.int(1, 160), "error" if sc == "io" else "crash", g.int(0, 7), only=lambda r, k: r.startswith("env/"))
            st, v = ctx.proc(op, f"op{step}.{attempt}")
            fired = ctx.fs.fired if faulty else None
            ctx.fs.disarm()
            if st == "ok":
                break
            if st == "exc" and not isinstance(v, Exception):
                raise v
            if fired:
                ctx.probe(f"interrupted-{kind}-{sc}")
                if sc == "crash" and kind != "uninstall":
                    observe_hurt(prev)
                _, rq = observe()
                for n, r in requests.items():
                    if n not in targets and not (sc == "crash"):
                        ctx.check(n in rq, "request-lost-by-failure", lambda: f"{what} failed ({fired}): {r.text()} is not recorded any more")
                continue
            # nothing was injected into this attempt
            ctx.check(not solvable, "satisfiable-refused", lambda: f"{what}: {v!r} / {v.__cause__!r}, installed {prev}, requests {[r.text() for r in requests.values()]}")
            if attempt == 0:
                d = fs.diff(before, snap(ep))
                ctx.check(not d, "refused-but-changed", lambda: f"{what}: {d}")
            ctx.probe("refused")
            break
        if st != "ok":
            continue
        ctx.check(solvable, f"{'killed-update-' if hurt else ''}impossible-accepted", lambda: f"{what} succeeded, installed {observe()[0]}")
        requests = after_requests
        inst = judge(what, targets if kind == "uninstall" else None, prev)
        if kind == "uninstall":
            gone = {by_key[key(x)] for x in v}
            expect = {n for n in targets if n in prev and n not in inst}
            if attempt == 0:
                ctx.check(gone == expect, "wrong-removal-report", lambda: f"{what}: reported {v}, removed were {sorted(expect)}")
        elif kind == "provide":
            for n, sig, text in u.problems(inst, roots.values())[0]:
                ctx.fail(f"provided-{sig}", f"{what}: {text}, installed {inst}")
        if kind in ("install", "update") and len(rs) == 1 and not armed and (targets[0] not in prev or upd and len(upd) == 1):
            # nothing else has to change for this version
            n = targets[0]
            fit = [v for v in u.versions(n) if not u.problems({**prev, n: v}, roots.values())[0]]
            if fit:
                ctx.probe("newest-fitting")
                ctx.check(inst[n] >= max(fit), "older-than-possible", lambda: f"{what}: {n} is at {inst[n]}, {max(fit)} fits {prev}, requests "
                                                                              f"{[r.text() for r in roots.values()]}")
        ctx.probe(f"done-{kind}")
        if kind == "update":
            for r in rs:
                if prev.get(r.name) is not None and inst[r.name] != prev[r.name]:
                    ctx.probe("updated")
