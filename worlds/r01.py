"""R01: dependency resolution of generated package universes, executed several times with different timings of the background look-ups."""
from worlds._pkgs import *

SCENARIOS = [("plain", 6), ("extras", 3), ("conflict", 4), ("failing", 3), ("names", 2), ("malformed", 2), ("override", 1), ("post", 0.4)]
QUICK_RUNS = 4000
THOROUGH_RUNS = 200000
MAX_STEPS = 1_500_000
LINE_PREFIXES = tuple(f"pkm/src/pkm/{d}" for d in ("resolution/dependency_resolver", "utils/promises", "utils/dicts"))
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm dependency resolver (pubgrub solver, prefetching), AbstractRepository, Dependency/marker/version parsing and algebra, Promise, thread pool"
STUBS = "package objects and their metadata (generated), interpreter introspection data, clock, thread scheduler"
ASSUMPTIONS = ["a reference search over the generated universe decides solvability and judges solutions",
               "the look-up of a package either always fails or always succeeds within one comparison"]
VERSIONS = ["1.0", "1.1", "1.2.1", "2.0", "2.1", "3.0"]


def vt(v):
    return tuple(int(x) for x in (v.split("a")[0]).split(".")) + ((-1,) if "a" in v else (0,))


def _pad(a, b):
    n = max(len(a), len(b))
    return a + (0,) * (n - len(a)), b + (0,) * (n - len(b))


def rel(v):
    return tuple(int(x) for x in v.split("a")[0].split(".post")[0].split("."))


def allows(spec, v):
    """the reference for the specifiers generated here (release versions only, plus pre releases beyond every bound)"""
    if not spec:
        return True
    if ".post" in v:  # pkm only allows them where no range is given (test_version_specifiers.py, test_allows)
        return spec.startswith("!=") and not spec.endswith(".*")
    for part in spec.split(","):
        for op in ("==", "!=", "~=", ">=", "<=", ">", "<"):
            if part.startswith(op):
                arg = part[len(op):]
                break
        if arg.endswith(".*"):
            p = rel(arg[:-2])
            hit = rel(v)[:len(p)] == p
            if hit != (op == "=="):
                return False
            continue
        a, b = _pad(rel(v), rel(arg))
        if op == "~=":
            ok = a >= b and rel(v)[:len(rel(arg)) - 1] == rel(arg)[:-1]
        else:
            ok = {"==": a == b, "!=": a != b, ">=": a >= b, "<=": a <= b, ">": a > b, "<": a < b}[op]
        if not ok:
            return False
    return True


class Dep:
    def __init__(self, g, names, sc):
        self.name = g.pick(names)
        v = g.pick(VERSIONS)
        w = g.pick(VERSIONS)
        lo, hi = sorted([v, w], key=rel)
        self.spec = g.weighted([("", 4), (f">={v}", 4), (f"<{v}", 2 if v != "1.0" else 0.1), (f"=={v}", 2), (f"!={v}", 1), (f"<={v}", 1), (f">{v}", 1),
                                (f">={lo},<{hi}" if lo != hi else f"=={lo}", 3), (f"~={v}", 1), (f"=={v.split('.')[0]}.*", 1),
                                (f"!={v.split('.')[0]}.*", 0.5)])
        self.extras = None
        self.marker = None
        self.when = lambda extras: True
        if sc in ("extras", "override"):
            if g.flip(0.4):
                self.extras = g.sample(["ex", "two"], 0.6) or ["ex"]
            if g.flip(0.4):
                e = g.pick(["ex", "two"])
                self.marker = f"extra == '{e}'"
                self.when = lambda extras, e=e: e in (extras or ())
        if self.marker is None and g.flip(0.15):
            t = g.flip()
            self.marker = g.pick(["python_version >= '3.5'", "sys_platform == 'linux'"] if t else ["python_version < '3'", "sys_platform == 'win32'"])
            self.when = lambda extras, t=t: t

    def text(self, spelling):
        return f"{spelling(self.name)}{'[' + ','.join(self.extras) + ']' if self.extras else ''}{(' ' + self.spec) if self.spec else ''}" \
               f"{'; ' + self.marker if self.marker else ''}"


class Universe:
    def __init__(self, g, sc):
        n = g.int(2, 6)
        self.names = ["alpha", "be-ta", "gamma", "del-ta", "eps", "zeta"][:n]
        self.versions = {}
        self.deps = {}
        self.malformed = set()
        self.incompatible = set()  # versions that cannot be installed into this environment
        k = {"conflict": 4, "extras": 2}.get(sc, 3)
        for nm in self.names:
            vs = g.sample(VERSIONS, 0.5) or [g.pick(VERSIONS)]
            if g.flip(0.1):
                vs = vs + ["9.0a1"]
            if sc == "post" and g.flip():
                vs = vs + [f"{vs[-1].split('a')[0]}.post1"] if "a" not in vs[-1] else vs
            if g.flip(0.05):
                vs = []
            self.versions[nm] = vs
            for v in vs:
                others = [x for x in self.names if x != nm]
                self.deps[nm, v] = [Dep(g, others, sc) for _ in range(g.int(0, 2 if g.flip(0.7) else k))]
                if sc == "extras" and g.flip(0.15):  # pkg[two] needs pkg[ex]
                    d = Dep(g, [nm], "plain")
                    d.spec, d.extras, d.marker, d.when = "", ["ex"], "extra == 'two'", lambda extras: "two" in (extras or ())
                    self.deps[nm, v].append(d)
                if sc in ("plain", "names") and g.flip(0.06):
                    self.incompatible.add((nm, v))
                if sc == "malformed" and g.flip(0.25):
                    self.malformed.add((nm, v))
        self.root = [Dep(g, self.names, sc) for _ in range(g.int(1, 3))]
        for d in self.root:
            if d.marker and "extra" in d.marker:
                d.marker, d.when = None, lambda extras: True
        self.overrides = {}
        if sc == "override":
            d = Dep(g, self.names, "override")
            d.marker, d.when = None, lambda extras: True
            self.overrides[d.name] = d

    def listed(self, nm):
        vs = self.versions[nm]
        rest = [v for v in vs if "a" not in v]
        return [v for v in rest or vs if (nm, v) not in self.incompatible]

    def eff(self, d):
        return self.overrides.get(d.name, d)

    def wants(self, nm, v, extras):
        return [self.eff(d) for d in self.deps[nm, v] if d.when(extras)]

    def solve(self, root):
        """reference search: an assignment {name: version} or None"""
        def go(assign, todo, seen):
            while todo:
                nm, extras, spec = todo[-1]
                if nm in assign:
                    if not allows(spec, assign[nm]):
                        return None
                    todo = todo[:-1]
                    if (nm, extras) not in seen:
                        seen = seen | {(nm, extras)}
                        todo = todo + [(d.name, tuple(d.extras or ()), d.spec) for d in self.wants(nm, assign[nm], extras)]
                    continue
                for v in self.listed(nm):
                    if (nm, v) in self.malformed or not allows(spec, v):
                        continue
                    s = go({**assign, nm: v}, todo, seen)
                    if s is not None:
                        return s
                return None
            return assign
        return go({}, [x for d in root if d.when(()) for x in ((d.name, (), d.spec), (d.name, tuple(d.extras or ()), d.spec))], frozenset())

    def violated(self, root, assign):
        """a dependency the assignment breaks, or None; and packages selected without need"""
        todo = [("<request>", self.eff(d)) for d in root if d.when(())]
        seen = set()
        while todo:
            who, d = todo.pop()
            if d.name not in assign:
                return f"{who} needs {d.name} {d.spec}, which is not selected", None
            v = assign[d.name]
            if not allows(d.spec, v):
                return f"{who} needs {d.name} {d.spec}, selected {v}", None
            for ex in ((), tuple(d.extras or ())):
                if (d.name, ex) not in seen:
                    seen.add((d.name, ex))
                    todo += [(f"{d.name} {v}{list(ex)}", e) for e in self.wants(d.name, v, ex)]
        return None, set(assign) - {n for n, _ in seen}


def spelling_for(g, sc):
    if sc != "names":
        return lambda n: n

    def f(n):
        return g.pick([n, n.replace("-", "_"), n.title(), n.replace("-", "."), n.upper()])
    return f


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    u = Universe(g, sc)
    sp = spelling_for(g, sc)
    texts = {k: [d.text(sp) for d in ds] for k, ds in u.deps.items()}
    root_texts = [d.text(sp) for d in u.root]
    over_texts = {k: d.text(sp) for k, d in u.overrides.items()}
    real_names = {n: sp(n) if sc == "names" else n for n in u.names}
    broken = {n for n in u.names if sc == "failing" and g.flip(0.3)}
    ep = make_env(ctx.root)
    contain_current_env(ctx.root)
    max_workers = g.pick([1, 2, 8])
    ctx.event(f"universe {root_texts} {[(k, v) for k, v in texts.items()]} broken {sorted(broken)} malformed {sorted(u.malformed)}")
    root = [u.eff(d) for d in u.root if d.when(())]
    expect = u.solve(root)
    outcomes = []

    class Boom(OSError):
        pass

    def execute(timing):
        from pkm.api.dependencies.dependency import Dependency
        from pkm.api.packages.package import Package, PackageDescriptor
        from pkm.api.repositories.repository import AbstractRepository
        from pkm.api.versions.version import Version
        from pkm.resolution.dependency_resolver import resolve_dependencies
        from pkm.resolution.pubgrub import UnsolvableProblemException
        from pkm.api.pkm import pkm
        from concurrent.futures import ThreadPoolExecutor
        if max_workers != 8:
            pkm.threads = ThreadPoolExecutor(max_workers)
        active = [0]

        class P(Package):
            def __init__(self, name, version, deps, bad=False, fits=True):
                self._d = PackageDescriptor(name, Version.parse(version))
                self._deps, self._bad, self._fits = deps, bad, fits

            @property
            def descriptor(self):
                return self._d

            def dependencies(self, target, extras=None):
                if self._bad:
                    raise ValueError("malformed metadata")
                return [d for d in (Dependency.parse(t) for t in self._deps) if d.is_applicable_for(target.env, extras)]

            def is_compatible_with(self, env):
                return self._fits

            def install_to(self, *a, **k):
                raise AssertionError

        req = P("the-request", "0", root_texts)
        key = PackageDescriptor.package_name_key
        by_key = {key(n): n for n in u.names}

        class R(AbstractRepository):
            def __init__(self):
                super().__init__("sim")

            def _do_match(self, dependency, env):
                if key(dependency.package_name) == "the_request":
                    return [req]
                n = by_key.get(key(dependency.package_name))
                if n is None:
                    return []
                active[0] += 1
                if active[0] > 1:
                    ctx.probe("concurrent-lookups")
                try:
                    w = timing(n)
                    if w:
                        ctx.sim.sleep(w)
                    if n in broken:
                        ctx.event(f"FAULT look-up of {n} fails")
                        ctx.probe("lookup-failed")
                        raise Boom(f"look-up of {n} failed")
                finally:
                    active[0] -= 1
                ps = [P(real_names[n], v, texts[n, v], (n, v) in u.malformed, (n, v) not in u.incompatible) for v in reversed(u.versions[n])]
                return [p for p in ps if dependency.version_spec.allows_version(p.version)]

        env = load_env(ep)
        try:
            sol = resolve_dependencies(Dependency.parse("the-request"), env.installation_target, R(),
                                       {k: Dependency.parse(t) for k, t in over_texts.items()} if over_texts else None)
        except UnsolvableProblemException:
            outcomes.append(("unsolvable",))
            return
        except Boom as e:
            outcomes.append(("lookup", str(e)))
            return
        except Exception as e:  # noqa
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = [f.name for f in tb if "/pkm/" in f.filename][-1:]
            outcomes.append(("error", type(e).__name__, str(e)[:300], where))
            return
        got = {}
        dup = []
        for p in sol:
            k = key(p.name)
            if k == "the_request":
                continue
            n = by_key.get(k)
            if n in got:
                dup.append(f"{p.name} {p.version} and {n} {got[n]}")
            got[n] = str(p.version)
        outcomes.append(("solved", tuple(sorted(got.items())), tuple(dup)))

    n = 3 if g.flip(0.3) else 2
    for k in range(n):
        waits = {nm: (0 if k == 0 and g.flip(0.3) else g.pick([0, 0, 0.1, 1, 7, 30])) for nm in u.names}

        def main():
            execute(lambda nm: waits[nm])
        st, v = ctx.proc(main, f"resolver{k}")
        if st == "exc":
            raise v
    ctx.probe(f"outcome-{outcomes[0][0]}")
    o = outcomes[0]
    if any(x != o for x in outcomes):
        ctx.fail("outcome-depends-on-timing", f"{outcomes}")
    if o[0] == "error":
        ctx.fail(f"resolver-breaks-{o[1]}", f"{o}; a solution is {expect}; request {root_texts}, universe {texts}")
    if o[0] == "lookup" and not broken:
        ctx.fail("failure-without-cause", f"{o}")
    if o[0] == "unsolvable" and expect is not None and not broken:
        ctx.fail("solution-not-found", f"{expect} solves request {root_texts}, universe {texts}, malformed {u.malformed}")
    if o[0] == "solved":
        if o[2]:
            ctx.fail("package-selected-twice", f"{o[2]}; request {root_texts}, universe {texts}")
        a = dict(o[1])
        for nm, v in a.items():
            if v not in u.versions.get(nm, ()) or (nm, v) in u.incompatible:
                ctx.fail("unknown-version-selected", f"{nm} {v}")
        bad, extra = u.violated(root, a)
        if bad:
            ctx.fail("dependency-violated", f"{bad}; solution {a}; request {root_texts}, universe {texts}, malformed {u.malformed}")
