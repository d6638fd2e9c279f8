"""I03: uninstall removes exactly the package's own files and can be repeated after any interruption."""
import re

from worlds._pkgs import *

SCENARIOS = [("plain", 3), ("io", 4), ("crash", 5), ("install-crash", 4), ("install-io", 1), ("update", 5), ("concurrent", 3)]
QUICK_RUNS = 2500
THOROUGH_RUNS = 80000
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm InstalledPackage.uninstall, Package.update_at, WheelDistribution/CopyTransaction/DistInfo/SitePackages; file system calls on a private scratch tree"
STUBS = "interpreter introspection data (fixed), clock, thread scheduler, disk faults, process crashes"
ASSUMPTIONS = ["a crash keeps completed system calls (kill -9), no power loss", "no file is claimed by two packages",
               "an interrupted installation is repeated with the same version"]


def is_own_pyc(rel, owned):
    if not is_pyc(rel):
        return False
    d, _, f = rel.rpartition("/")
    m = re.fullmatch(r"(.+?)\.[^.]+(\.opt-[^.]+)?\.pyc", f)
    return bool(m) and f"{d[:-len('__pycache__')]}{m.group(1)}.py" in owned


def owned_by(pkg, env, tree):
    exp = set(pkg.expected(env))
    i = pkg.info_rel(env) + "/"
    return {r for r, v in tree.items() if (v[0] != "d" or r.startswith(i)) and (r in exp or r.startswith(i) or is_own_pyc(r, exp))} | \
        ({i[:-1]} if i[:-1] in tree else set())


def without(tree, pkg, env):
    """-> (tree that must remain, directories that may or may not remain)"""
    own = owned_by(pkg, env, tree)
    rest = {r: v for r, v in tree.items() if r not in own}
    # directories whose last content was the package's
    cand = set()
    for r in own | set(pkg.expected(env)):
        parts = r.split("/")
        for k in range(1, len(parts)):
            cand.add("/".join(parts[:k]))
            cand.add("/".join(parts[:k]) + "/__pycache__")
    site = pkg.site_rel(env) + "/"
    maybe = {d for d in cand if not d.startswith(site)}
    for d in sorted(cand, key=lambda x: -x.count("/")):
        if rest.get(d, ("",))[0] == "d" and not any(r.startswith(d + "/") for r in rest):
            if d.startswith(site):
                del rest[d]
            else:
                # an optional directory counts as absent for its parents
                del rest[d]
    return rest, maybe


def compare(ctx, sig, want, maybe, got, why):
    d = fs.diff({r: v for r, v in want.items() if r not in maybe}, {r: v for r, v in got.items() if r not in maybe or v[0] != "d"})
    ctx.check(not d, sig, lambda: f"{why}: {d}")


class LocalPackage:
    """makes pkm packages (AbstractPackage) backed by a local wheel"""

    def __new__(cls, pkg, path):
        from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact

        class Local(AbstractPackage):
            def __init__(self):
                super().__init__(pkg.descriptor(), [PackageArtifact(pkg.filename)])

            def _retrieve_artifact(self, artifact):
                return path

        return Local()


def use_environment(g, env, pkg):
    """what happens to an environment while it is used"""
    env = Path(env)
    outside = env.parent / "outside"
    outside.mkdir(exist_ok=True)
    with fs._real_open(outside / "precious.py", "wb") as fh:
        fh.write(b"precious")

    def put(p, c):
        p.parent.mkdir(parents=True, exist_ok=True)
        if not p.exists():
            with fs._real_open(p, "wb") as fh:
                fh.write(c)

    for rel in sorted(pkg.expected(env)):
        p = env / rel
        k = g.weighted([("none", 12), ("edit", 1), ("delete", 1), ("link", 1), ("pyc", 2), ("neighbour", 1), ("rmtree", 0.4), ("subdir", .5), ("sibling", 1.5)])
        if not p.parent.is_dir():
            continue
        if k == "edit":
            p.unlink(missing_ok=True)
            put(p, b"edited")
        elif k == "delete":
            p.unlink(missing_ok=True)
        elif k == "link":
            p.unlink(missing_ok=True)
            p.symlink_to(outside / g.pick(["precious.py", "nothing"]))
        elif k == "pyc" and p.suffix == ".py":
            put(p.parent / f"__pycache__/{p.stem}.{g.pick(['cpython-312.opt-1', 'pypy39', 'cpython-311.opt-2'])}.pyc", b"pyc")
        elif k == "neighbour":
            put(p.parent / g.pick(["mine.py", "__pycache__/mine.cpython-312.pyc", "__pycache__/notes.txt"]), b"mine")
        elif k == "sibling":  # a module of the user whose name starts with the one of the package's
            n = p.stem + g.pick(["2", "_local", "x"])
            put(p.parent / f"{n}.py", b"mine")
            put(p.parent / f"__pycache__/{n}.cpython-312.pyc", b"mine")
        elif k == "subdir":
            put(p.parent / "users/own.txt", b"mine")
        elif k == "rmtree" and p.parent.name == pkg.norm or k == "rmtree" and pkg.norm in p.parent.parts:
            shutil_rmtree(p.parent)


def shutil_rmtree(p):
    for r, ds, fl in os.walk(p, topdown=False):
        for f in fl:
            os.unlink(f"{r}/{f}")
        for d in ds:
            q = f"{r}/{d}"
            os.unlink(q) if os.path.islink(q) else os.rmdir(q)
    os.rmdir(p)


def run(ctx):
    g = ctx.gen
    ctx.attach_fs()
    sc = ctx.scenario
    lib64 = g.weighted([("same", 5), ("dir", 2), ("link", 2)])
    ep = make_env(ctx.root, "env", lib64)
    if g.flip(0.25):
        ctx.fs.exdev = (f"{ctx.root}/tmp", f"{ctx.root}/env")
    pkgs = [gen_pkg(g, n, g.pick(["1.0", "2.3.4", "1.0a1"]), ns="shared_ns")
            for n in ["alpha", "Beta-Pkg", "ga.mma"][:g.int(2, 3) if sc == "concurrent" else g.int(1, 3)]]
    t = pkgs[0]
    others = pkgs[1:]
    paths = {p.name: p.write(ctx.root / "wheels") for p in pkgs}
    # user content that exists before
    for rel in g.sample([f"{t.site_rel(ep)}/user.py", f"{t.site_rel(ep)}/shared_ns/user.py", "share/doc/user.txt", "keep/a.txt"]):
        (ep / rel).parent.mkdir(parents=True, exist_ok=True)
        with fs._real_open(ep / rel, "wb") as fh:
            fh.write(b"user")
    if g.flip(0.2):
        (ep / t.site_rel(ep) / "emptydir").mkdir()

    def ok(res):
        st, v = res
        if st != "ok":
            raise v if st == "exc" else AssertionError(st)
        return v

    def installer(*pl):
        def f():
            env = load_env(ep, lib64=lib64)
            for p in pl:
                wheel(p, paths[p.name]).install_to(env.installation_target, request_of(p))
        return f

    how = g.weighted([("direct", 3), ("force", 1), ("plan", 2)])

    def uninstall():
        env = load_env(ep, lib64=lib64)
        q = env.site_packages.installed_package(t.name)
        if q is None:
            return False
        if how == "direct":
            q.uninstall()
        elif how == "force":
            env.installation_target.force_remove(t.name)
        else:
            env.installation_target.uninstall([t.name])
        return True

    def intact(tree, why):
        for p in others:
            for s, d in verify_files(p, ep, tree) + [x for x in verify_record(p, ep, tree, set()) if x[0] != "record-foreign"]:
                ctx.fail("other-package-" + s, f"{why}: {d}")
        x = snap(ctx.root / "outside") if (ctx.root / "outside").exists() else None
        ctx.check(x is None or x.get("precious.py", ("",))[0] == "f", "outside-file-removed", why)

    order = g.shuffle(pkgs)
    est = 10 * len(t.entries()) + 60
    if sc in ("plain", "io", "crash"):
        ok(ctx.proc(installer(*order), "setup"))
        use_environment(g, ep, t)
        before = snap(ep)
        want, maybe = without(before, t, ep)
        if sc != "plain":
            for attempt in range(g.int(1, 2)):
                ctx.fs.arm(g.int(1, est), "error" if sc == "io" else "crash", g.int(0, 7),
                           only=(lambda r, k: r.startswith("env/")) if g.flip(0.6) else None)
                st, v = ctx.proc(uninstall, "uninstall")
                ctx.fs.disarm()
                if st == "exc" and not isinstance(v, Exception):
                    raise v
                ctx.probe(f"{sc}-{st}" if ctx.fs.fired else "not-hit")
                mid = snap(ep)
                intact(mid, f"interrupted uninstall ({st} {ctx.fs.fired})")
                for r in want:
                    ctx.check(mid.get(r) == want[r], "foreign-removed", lambda: f"{r} after interrupted uninstall ({st} {ctx.fs.fired})")
                if st == "ok":
                    break
        st, v = ctx.proc(uninstall, "uninstall-again")
        ctx.check(st == "ok", "uninstall-impossible", lambda: f"{v!r} after {ctx.fs.fired}")
        after = snap(ep)
        compare(ctx, "wrong-tree", want, maybe, after, f"after uninstall (found {v}, fault {ctx.fs.fired})")
        intact(after, "after uninstall")
    elif sc in ("install-crash", "install-io"):
        ok(ctx.proc(installer(*others), "setup"))
        before = snap(ep)
        fresh = True
        for attempt in range(g.int(1, 2)):
            fresh = not snap(ep).get(t.info_rel(ep))
            ctx.fs.arm(g.int(1, 2 * est), "crash" if sc == "install-crash" else "error", g.int(0, 7),
                       only=(lambda r, k: r.startswith("env/")) if g.flip(0.7) else None)
            st, v = ctx.proc(installer(t), "install")
            ctx.fs.disarm()
            ctx.probe(f"install-{st}")
            if st == "ok":
                break
        mid = snap(ep)
        intact(mid, f"interrupted installation {ctx.fs.fired}")
        listed = ok(ctx.proc(lambda: load_env(ep, lib64=lib64).site_packages.installed_package(t.name) is not None, "list"))
        if listed and fresh:
            for s, d in verify_files(t, ep, mid):
                ctx.fail("incomplete-installed-" + s, f"{ctx.fs.fired}: {d}")
        if not listed or g.flip():
            st, v = ctx.proc(installer(t), "reinstall")
            ctx.check(st == "ok", "reinstall-fails", lambda: f"{v!r} after {ctx.fs.fired}")
            after = snap(ep)
            for s, d in verify_files(t, ep, after):
                ctx.fail("reinstalled-" + s, f"{ctx.fs.fired}: {d}")
            for s, d in verify_record(t, ep, after, set()):
                if s != "record-foreign":
                    ctx.fail("reinstalled-" + s, f"{ctx.fs.fired}: {d}")
            intact(after, "reinstalled")
        st, v = ctx.proc(uninstall, "uninstall")
        ctx.check(st == "ok" and v, "uninstall-impossible", lambda: f"{v!r} after {ctx.fs.fired}")
        final = snap(ep)
        _, maybe = without(snap_union(before, t, ep), t, ep)
        compare(ctx, "wrong-tree", {k: v for k, v in before.items() if k not in maybe}, maybe, final, f"after uninstall (fault {ctx.fs.fired})")
        intact(final, "after uninstall")
    elif sc == "update":
        ok(ctx.proc(installer(*others), "setup"))
        base = snap(ep)
        ok(ctx.proc(installer(t), "setup2"))
        t2 = gen_pkg(g, t.name, "3.0", ns="shared_ns")
        w2 = t2.write(ctx.root / "wheels")
        if g.flip(0.15):
            t2.tamper = "content"
            w2bad = t2.write(ctx.root / "wheels-bad")
            t2.tamper = None
        else:
            w2bad = None
        before = snap(ep)
        req2 = request_of(t2) if g.flip() else None

        def update(w=w2):
            env = load_env(ep, lib64=lib64)
            LocalPackage(t2, w).update_at(env.installation_target, req2)

        kind = g.pick(["none", "error", "crash", "crash"])
        st = "ok"
        if kind != "none" or w2bad:
            if not w2bad:
                ctx.fs.arm(g.int(1, 3 * est), kind, g.int(0, 7), only=(lambda r, k: r.startswith("env/")) if g.flip(0.7) else None)
            st, v = ctx.proc(lambda: update(w2bad or w2), "update")
            ctx.fs.disarm()
            mid = snap(ep)
            ctx.probe(f"update-{st}")
            intact(mid, f"interrupted update {ctx.fs.fired}")
            if st == "exc":
                d = fs.diff(before, mid)
                ctx.check(not d, "failed-update-not-undone", lambda: f"{v!r} {ctx.fs.fired}: {d}")
            elif st == "crash":
                for p in (t, t2):
                    inf = mid.get(p.info_rel(ep) + "/RECORD")
                    if inf and p is t2:
                        for s, d in verify_files(p, ep, mid):
                            ctx.fail("incomplete-installed-" + s, f"{ctx.fs.fired}: {d}")
        st2, v = ctx.proc(update, "update-again")
        ctx.check(st2 == "ok", "update-impossible", lambda: f"{v!r} after {st} {ctx.fs.fired}")
        after = snap(ep)
        for s, d in verify_files(t2, ep, after) + [x for x in verify_record(t2, ep, after, set()) if x[0] != "record-foreign"]:
            ctx.fail("updated-" + s, f"{st} {ctx.fs.fired}: {d}")
        intact(after, "after update")
        left = [r for r in owned_by(t, ep, after) if r not in t2.expected(ep) and not is_own_pyc(r, set(t2.expected(ep)))]
        ctx.check(not left, "old-version-files-left", lambda: f"{st} {ctx.fs.fired}: {left}")

        def marks():
            env = load_env(ep, lib64=lib64)
            return [(str(q.version), q.user_request) for q in env.site_packages.installed_packages() if q.name_key == t.descriptor().name_key]
        m = ok(ctx.proc(marks, "list"))
        ctx.check(len(m) == 1 and m[0][0] == t2.version, "listing", m)
        if st != "crash":
            ctx.check(m[0][1] == (req2 or request_of(t)), "request-lost", lambda: f"{m} {st} {ctx.fs.fired}")
        st3, v = ctx.proc(uninstall, "uninstall")
        ctx.check(st3 == "ok" and v, "uninstall-impossible", lambda: f"{v!r} after {ctx.fs.fired}")
        final = snap(ep)
        maybe = without(snap_union(base, t, ep), t, ep)[1] | without(snap_union(base, t2, ep), t2, ep)[1]
        # directories outside the site directory of one of the versions are not followed up
        compare(ctx, "wrong-tree", {k: v for k, v in base.items() if k not in maybe}, maybe, final, f"after update and uninstall (fault {ctx.fs.fired})")
        intact(final, "after uninstall")
    else:
        inst = others[-1]
        rest = others[:-1]
        ok(ctx.proc(installer(*[p for p in order if p is not inst]), "setup"))
        before = snap(ep)
        results = {}
        gone = [t] + [p for p in rest if g.flip()]
        with_install = g.flip(0.8)

        def main():
            env = load_env(ep, lib64=lib64)
            qs = [(p, env.site_packages.installed_package(p.name)) for p in gone]

            def call(name, fn):
                try:
                    fn()
                    results[name] = None
                except Exception as e:  # noqa
                    results[name] = e
            fns = [lambda p=p, q=q: call(p.name, q.uninstall) for p, q in qs]
            if with_install:
                fns.append(lambda: call(inst.name, lambda: wheel(inst, paths[inst.name]).install_to(env.installation_target, request_of(inst))))
            ctx.threads(fns)
        ok(ctx.proc(main, "concurrent"))
        for n, e in results.items():
            ctx.check(e is None, "concurrent-operation-failed", lambda: f"{n}: {e!r}")
        after = snap(ep)
        want, maybe = before, set()
        for p in gone:
            want, m = without(want, p, ep)
            maybe |= m
        keep = [p for p in rest if p not in gone] + ([inst] if with_install else [])
        for p in keep:
            for s, d in verify_files(p, ep, after) + [x for x in verify_record(p, ep, after, set()) if x[0] != "record-foreign"]:
                ctx.fail("concurrent-" + s, f"{d}")
        own = set()
        dirs = set()
        if with_install:
            own = owned_by(inst, ep, after)
            for r in own:
                parts = r.split("/")
                dirs |= {"/".join(parts[:k]) for k in range(1, len(parts))}
        got = {r: v for r, v in after.items() if r not in own and not (v[0] == "d" and r in dirs and r not in want)}
        want = {r: v for r, v in want.items() if r not in own}
        compare(ctx, "wrong-tree", want, maybe, got, f"after concurrent operations {results}")
        for p in gone:
            o = owned_by(p, ep, after)
            ctx.check(not o, "files-left", lambda: f"{p.name}: {o}")


def snap_union(before, pkg, env):
    """the tree with the package's files added (directories too)"""
    out = dict(before)
    for r in pkg.expected(env):
        parts = r.split("/")
        for k in range(1, len(parts)):
            out.setdefault("/".join(parts[:k]), ("d",))
        out[r] = ("f", 0o644, b"")
    return out
