"""S01: shared package storage never breaks an environment that uses it, and keeps only what is used."""
import itertools
import json
import shutil

from worlds import _procs
from worlds._pkgs import *

SCENARIOS = [("plain", 5), ("io", 4), ("crash", 5), ("concurrent", 3)]
QUICK_RUNS = 2000
THOROUGH_RUNS = 60000
MAX_STEPS = 4_000_000
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm SharedPackagesRepository, EnvironmentsZoo, Environment.install/uninstall with planning and resolution, WheelDistribution, PthLink, DistInfo, "
        "InstalledPackage; file system calls on a private scratch tree")
STUBS = "artifact retrieval (local wheels), interpreters (introspection data), clock, thread scheduler, disk faults, process death"
ASSUMPTIONS = ["a crash keeps completed system calls (kill -9)", "no file is claimed by two packages",
               "unused packages are not cleaned up while another operation is running",
               "a package whose update or removal was interrupted may be incomplete in that environment until the operation is repeated"]

NAMES = ["alpha", "Beta-Pkg", "ga.mma"]


def norm_key(n):
    return n.lower().replace("-", "_").replace(".", "_")


class Wheel(Pkg):
    """a wheel of a package version with its own tag"""
    tag = "py3-none-any"

    @property
    def filename(self):
        return f"{self.norm}-{self.version}-{self.tag}.whl"


def make_world(g, ctx):
    """{(name, version): [wheels]}"""
    out = {}
    names = NAMES if g.flip(0.7) else ["alpha", "alpha-x", "ga.mma"]
    for n in names[:g.int(1, 3)]:
        for v in g.sample(["1.0", "2.0", "2.5"] if g.flip(0.8) else ["1.0", "2.5", "2.5+l"]) or ["1.0"]:
            ws = []
            tags = g.weighted([(["py3-none-any"], 6), (["py2.py3-none-any"], 2), (["py3-none-any", "cp312-cp312-linux_x86_64"], 2),
                               (["cp39-cp39-linux_x86_64", "cp312-cp312-linux_x86_64"], 1), (["py3-none-any", "py312-none-any"], 1)])
            reqs = []
            for m in names:
                if m != n and (m, "1.0") in out and g.flip(0.3):
                    reqs.append(f"{m} >=0.5" + (' ; extra == "x"' if g.flip(0.4) else ""))
            for t in tags:
                p = gen_pkg(g, n, v, ns="shared_ns", data=True)
                w = Wheel(n, v, p.purelib)
                w.__dict__.update(p.__dict__)
                w.tag = t
                if len(tags) > 1:
                    w.files[f"{w.norm}/__init__.py"] = f"# {n}-{v} init of {t}\n".encode()
                if g.flip(0.08):
                    w.files[f"{w.norm}-hook.pth"] = b"import os\n"
                w.requires = list(reqs) + (['nothing ; extra == "none"'] if g.flip(0.3) else [])
                w.requires = [r for r in w.requires]
                ws.append((w, w.write(ctx.root / "wheels")))
            out[n, v] = ws
    return out


def base_repository(world):
    from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact
    from pkm.api.repositories.repository import AbstractRepository

    class Local(AbstractPackage):
        def __init__(self, ws):
            super().__init__(ws[0][0].descriptor(), [PackageArtifact(w.filename) for w, _ in ws])
            self._paths = {w.filename: p for w, p in ws}

        def _retrieve_artifact(self, artifact):
            return self._paths[artifact.file_name]

    memo = {}

    class Repo(AbstractRepository):
        def _do_match(self, dependency, env):
            out = []
            for (n, v), ws in reversed(list(world.items())):
                if norm_key(n) == norm_key(dependency.package_name):
                    p = memo.setdefault((n, v), Local(ws))
                    if dependency.version_spec.allows_version(p.version):
                        out.append(p)
            return out

    return Repo("base")


class Env:
    def __init__(self, g, zp, name):
        self.path = make_env(zp, name, g.weighted([("same", 4), ("link", 1), ("dir", 1)]))
        self.lib64 = "same" if not (self.path / "lib64").exists() else "link" if (self.path / "lib64").is_symlink() else "dir"
        self.version = g.weighted([((3, 12, 3), 4), ((3, 9, 1), 1)])
        self.name = name
        self.tainted = set()

    def load(self, zoo):
        e = load_env(self.path, lib64=self.lib64, zoo=zoo)
        d = e._introspection._data if hasattr(e._introspection, "_data") else None
        return e if d is None else set_version(e, d, self.version)

    def allowed(self, tag):
        cp = f"cp{self.version[0]}{self.version[1]}"
        return tag.startswith(("py3-", "py2.py3-")) or tag.startswith(cp) or tag.startswith("py312-") and self.version >= (3, 12)

    # ---- what python sees
    def view(self):
        tree = snap(self.path)
        sites = ["lib/python3.12/site-packages"]
        if env_plat(self.path) == "lib64":
            sites.append("lib64/python3.12/site-packages")
        path = []  # directories python imports from
        for s in sites:
            path.append({r[len(s) + 1:]: v for r, v in tree.items() if r.startswith(s + "/")})
        links = []
        for s in sites:
            for r, v in sorted(tree.items()):
                if r.startswith(s + "/") and r.endswith(".pth") and "/" not in r[len(s) + 1:]:
                    for line in v[2].decode().splitlines():
                        line = line.strip()
                        if line and not line.startswith(("#", "import ", "import\t")):
                            p = Path(line)
                            if line.startswith(str(self.path.parent) + "/") and p.is_dir():
                                links.append(str(p))
                                path.append(snap(p))
        linked = {}
        for entries in path[len(sites):]:
            for r, v in entries.items():
                if not r.endswith(".pth"):  # only processed within site directories
                    linked.setdefault(r, v)
        for s in sites:
            for r, v in linked.items():
                tree.setdefault(f"{s}/{r}", v)
        return tree, links

    def installed(self):
        """{name key: (version, user request)} as a fresh process sees it"""
        out = {}
        for p in self.load(None).site_packages.installed_packages():
            out[norm_key(p.name)] = (str(p.version), str(p.user_request) if p.user_request else None)
        return out


def set_version(e, d, v):
    d["sys"]["version_info"] = [*v, "final", 0]
    d["sys"]["implementation"]["version"] = [*v, "final", 0]
    d["platform"]["python_version"] = ".".join(map(str, v))
    d["platform"]["python_version_tuple"] = [str(x) for x in v]
    return e


def run(ctx):
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.environments.environments_zoo import EnvironmentsZoo
    from pkm.repositories.shared_pacakges_repo import SharedPackagesRepository
    g = ctx.gen
    ctx.attach_fs()
    sc = ctx.scenario
    zp = ctx.root / "zoo"
    cfg = ctx.root / "xdg/pkm/etc/pkm/general.toml"
    cfg.parent.mkdir(parents=True)
    cfg.write_text(f'[concurrency]\nmode = "{g.pick(["none", "thread"])}"\n')
    contain_current_env(ctx.root)

    def introspect(args, cwd, env):
        def scripts(interp, text):
            return 1, b"", b"no such script"
        rc, out, err = _procs.interpreter(args, cwd, env, lambda real: {}, scripts)
        if rc == 0 and out.startswith(b"{"):
            d = json.loads(out)
            e = Path(args[0]).parent.parent
            d["sysconfig"]["paths"]["platlib"] = f"{e}/{env_plat(e)}/python3.12/site-packages"
            out = json.dumps(d).encode()
        return rc, out, err
    _procs.install(introspect)
    EnvironmentsZoo.load(zp)
    (ctx.root / "alias").symlink_to(zp)
    world = make_world(g, ctx)
    by_key = {}
    for n, v in world:
        by_key.setdefault(norm_key(n), n)
    envs = [Env(g, zp, f"e{i}") for i in range(g.int(2, 3))]
    if g.flip(0.15):
        ctx.fs.exdev = (f"{ctx.root}/tmp", f"{ctx.root}/zoo")

    def problems(e, key, version, view):
        """what is wrong with the installed package (None if nothing)"""
        variants = [w for w, _ in world[by_key[key], version] if e.allowed(w.tag)]
        if not variants:
            return "no artifact of it fits the environment"
        res = []
        for w in variants:
            t = dict(view)
            site = w.site_rel(e.path)
            for r, x in view.items():  # spelling of the metadata directory
                parts = r.split("/")
                for i, s in enumerate(parts):
                    if s.endswith(".dist-info") and norm_key(s[:-10]) == norm_key(w.info_dir[:-10]):
                        t["/".join(parts[:i] + [w.info_dir] + parts[i + 1:])] = x
                        if i == 3:
                            t["/".join(site.split("/") + [w.info_dir] + parts[i + 1:])] = x
            bad = verify_files(w, e.path, t)
            if not bad:
                return None
            res.append(f"{w.tag}: {bad[:3]}")
        return "; ".join(res)

    def judge(why, skip=()):
        used = set()
        state = {}
        for e in envs:
            view, links = e.view()
            inst = e.installed()
            state[e.name] = inst
            for k, (v, req) in inst.items():
                used.add((by_key[k], v))
                if k in e.tainted:
                    continue
                bad = problems(e, k, v, view)
                ctx.check(bad is None, "incomplete-package", lambda: f"{why}: {k} {v} in {e.name} (python {e.version}): {bad}")
                if any("/shared/" in x for x in links):
                    ctx.probe("shared-checked")
        return state, used

    def cleanup(e):
        """the operations that were interrupted are repeated without faults"""
        for k in sorted(e.tainted):
            def op():
                env = e.load(EnvironmentsZoo.load(zp))
                env.uninstall([by_key[k]], force=True)
            if k in e.installed():
                st, v = ctx.proc(op, f"repair-{k}")
                ctx.check(st == "ok" and k not in e.installed(), "not-removable", lambda: f"{k} in {e.name}: {st} {v!r}")
        e.tainted.clear()

    def solvable(e, texts):
        """is there a choice of versions that satisfies these requests in that environment"""
        spec = {}
        for t in texts:
            head, _, v = t.partition("==")
            head = head.strip().replace(" ", "")
            spec[norm_key(head.replace("[x]", ""))] = ("[x]" in head, v.strip())
        names = sorted(by_key)
        options = [[None] + [v for n, v in world if norm_key(n) == k and any(e.allowed(w.tag) for w, _ in world[n, v])
                             and (k not in spec or not spec[k][1] or v.split("+")[0] == spec[k][1].split("+")[0])] for k in names]
        for choice in itertools.product(*options):
            c = dict(zip(names, choice))
            ok, seen, todo = True, set(), [(k, x) for k, (x, _) in spec.items()]
            while todo and ok:
                k, x = todo.pop()
                if c.get(k) is None:
                    ok = False
                elif (k, x) not in seen:
                    seen.add((k, x))
                    todo += [(norm_key(r.split()[0]), False) for r in world[by_key[k], c[k]][0][0].requires if "extra" not in r or x and '"x"' in r]
            if ok:
                return True
        return False

    def install_op(e, text):
        def op():
            zoo = EnvironmentsZoo.load(zp)
            env = e.load(zoo)
            repo = SharedPackagesRepository(zp / ".zoo/shared", base_repository(world))
            env.install([Dependency.parse(text)], repo)
        return op

    def uninstall_op(e, n):
        def op():
            e.load(EnvironmentsZoo.load(zp)).uninstall([n])
        return op

    def gen_op(e, inst):
        k = g.weighted([("install", 5), ("uninstall", 2 if inst else 0)])
        if k == "install":
            n = g.pick(sorted(set(by_key.values())))
            vs = [v for m, v in world if m == n]
            text = n + g.weighted([("", 4), (f" =={g.pick(vs)}", 3)])
            if g.flip(0.15):
                text = text.replace(n, f"{n}[x]", 1)
            if not any(e.allowed(w.tag) for v in vs if ("==" not in text or text.endswith("==" + v)) for w, _ in world[n, v]):
                return None
            return k, n, text, install_op(e, text)
        n = by_key[g.pick(sorted(inst))]
        return k, n, n, uninstall_op(e, n)

    state, _ = judge("at start")
    for step in range(g.int(2, 8)):
        faulty = sc in ("io", "crash") and g.flip(0.6)
        clean = g.flip(0.25)
        if clean:
            zoo_path = ctx.root / "alias" if g.flip(0.3) else zp

            def op():
                EnvironmentsZoo.load(zoo_path).clean_unused_shared()
            jobs = [(None, "clean", None, str(zoo_path.name), op)]
        elif sc == "concurrent" and g.flip(0.7):
            jobs = []
            for e in g.sample(envs) or envs:
                o = gen_op(e, state[e.name])
                if o:
                    jobs.append((e, *o))
        else:
            e = g.pick(envs)
            o = gen_op(e, state[e.name])
            jobs = [(e, *o)] if o else []
        if not jobs:
            continue
        what = "+".join(f"{k} {t} {e.name if e else ''}" for e, k, n, t, op in jobs)
        ctx.event(what + (" with faults" if faulty else ""))
        if faulty:
            ctx.fs.arm(g.int(1, 25 if clean else 260), "crash" if sc == "crash" else "error", g.int(0, 7), sticky=g.flip(0.15) and not ctx.fs.exdev,
                       only=lambda r, k: r.startswith("zoo"))
        results = {}
        if len(jobs) == 1:
            results[0] = ctx.proc(jobs[0][4], f"op{step}")
        else:
            def body(i):
                def f():
                    try:
                        results[i] = ("ok", jobs[i][4]())
                    except Exception as x:  # noqa
                        results[i] = ("exc", x)
                return f

            def both():
                ctx.threads([body(i) for i in range(len(jobs))])
            st, v = ctx.proc(both, f"op{step}")
            if st != "ok":
                raise v if st == "exc" else AssertionError(st)
            ctx.probe("concurrent")
        fired = ctx.fs.fired
        ctx.fs.disarm()
        before = state
        for i, (e, k, n, t, op) in enumerate(jobs):
            st, v = results[i]
            why = f"step {step} {k} {t} in {e.name if e else 'zoo'} ({fired}): {st} {v!r}"
            if st != "ok":
                from pkm.resolution.pubgrub import UnsolvableProblemException
                if isinstance(v, UnsolvableProblemException):
                    ctx.probe("unsolvable")
                    rq = {m: y[1] for m, y in before[e.name].items() if y[1]}
                    if k == "install":
                        rq[norm_key(n)] = t
                        ctx.check(not solvable(e, rq.values()), "satisfiable-refused", lambda: f"{why} requests {rq} {[(k, v[0][0].requires) for k, v in world.items()]}")
                    continue
                ctx.check(fired, "refused-without-fault", lambda: why + "".join(__import__("traceback").format_exception(v)[-6:]))
                ctx.probe(f"interrupted-{k}")
                if e:
                    # which packages were there and may have been under update or removal
                    now = e.installed()
                    for m in before[e.name]:
                        if k == "uninstall" or st == "crash" and (m == norm_key(n) or now.get(m) != before[e.name][m] or any(
                                norm_key(r.split()[0]) == m for x, ws in world.items() for w, _ in ws for r in w.requires)):
                            e.tainted.add(m)
        state, used = judge(what + f" -> {[r[0] for r in results.values()]} {fired}")
        for i, (e, k, n, t, op) in enumerate(jobs):
            st, v = results[i]
            if st == "ok" and e:
                inst = state[e.name]
                if k == "install":
                    x = inst.get(norm_key(n))
                    ctx.check(x is not None, "not-installed", lambda: f"{what}: {inst}")
                    ctx.check(x[1] is not None, "request-not-recorded", lambda: f"{what}: {inst}")
                    ctx.check("==" not in t or x[0].split("+")[0] == t.split("==")[1].strip().split("+")[0], "wrong-version", lambda: f"{what}: {inst}")
                    for m, y in inst.items():
                        if m != norm_key(n) and m not in before[e.name]:
                            ctx.check(y[1] is None, "request-invented", lambda: f"{what}: {m} {y}")
                    need, todo = set(), [(k, "[x]" in (y[1] or "")) for k, y in inst.items() if y[1] is not None]
                    while todo:
                        m, ex = todo.pop()
                        if m in inst and (m, ex) not in need:
                            need.add((m, ex))
                            todo += [(norm_key(r.split()[0]), False) for r in world[by_key[m], inst[m][0]][0][0].requires
                                     if "extra" not in r or ex and '"x"' in r]
                    for m in inst:
                        ctx.check(m in before[e.name] or (m, True) in need or (m, False) in need, "not-needed-installed", lambda: f"{what}: {m}: {inst}")
                    w = next(w for w, _ in world[by_key[norm_key(n)], x[0]] if e.allowed(w.tag))
                    for r in w.requires:
                        if "extra" not in r or '"x"' in r and "[x]" in t:
                            ctx.check(norm_key(r.split()[0]) in inst, "dependency-missing", lambda: f"{what}: {r} of {n} {x[0]}: {inst}")
                else:
                    x = inst.get(norm_key(n))
                    ctx.check(x is None or x[1] is None, "still-requested", lambda: f"{what}: {x}")
                ctx.probe(k)
        busy = {e.name for e, *_ in jobs if e}
        for e in envs:
            if e.name not in busy:
                ctx.check(state[e.name] == before[e.name], "other-environment-changed",
                          lambda: f"{what}: {e.name} had {before[e.name]} and has {state[e.name]}")
        if clean and results[0][0] == "ok":
            ctx.probe("cleaned")
            left = {}
            for r, v in snap(zp / ".zoo/shared").items():
                if v[0] == "f":
                    for (n, ver) in world:
                        if (n, ver) not in used and f"# {n}-{ver} ".encode() in v[2]:
                            left[r] = (n, ver)
            ctx.check(not left, "unused-content-kept", lambda: f"{what}: {dict(list(left.items())[:3])} {state}")
        for e in envs:
            if e.tainted:
                cleanup(e)
                state[e.name] = e.installed()
