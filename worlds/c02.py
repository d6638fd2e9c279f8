"""C02: the lock offers exactly what was locked, over any history of lock, unlock, save and reload, with interrupted saves."""
import json
import os

from sim import fs
from worlds._pkgs import load_env, make_env

SCENARIOS = [("history", 5), ("crash", 4), ("error", 3)]
QUICK_RUNS = 1500
THOROUGH_RUNS = 100000
MAX_STEPS = 1_500_000
LINE_PREFIXES = ("pkm/src/pkm/resolution/packages_lock", "pkm/src/pkm/utils/files")
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm PackagesLock, LockPrioritizingRepository, Environment and SitePackages over scratch directories, the TOML configuration layer"
STUBS = "package repository (in memory), interpreter introspection data, process death (simulated incarnations)"
ASSUMPTIONS = ["a crash keeps completed system calls (kill -9)", "one process at a time changes a lock file", "locked versions are final releases",
               "package names differ by more than case and punctuation"]
NAMES = ["alpha", "Beta.Lib", "gamma_x", "delta-Y"]
SPELL = {"alpha": ["alpha", "Alpha"], "Beta.Lib": ["Beta.Lib", "beta-lib", "Beta_Lib"], "gamma_x": ["gamma_x", "gamma-x", "Gamma.X"],
         "delta-Y": ["delta-Y", "delta_y"]}
VERSIONS = ["1.0", "1.5", "2.0", "2.1.3", "3.0"]
KINDS = [dict(release="5"), dict(release="6"), dict(machine="aarch64")]


def key(n):
    return n.lower().replace("-", "_").replace(".", "_")


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    ctx.attach_fs()
    nenv = g.int(2, 4)
    kinds = [g.int(0, len(KINDS) - 1) for _ in range(nenv)] if g.flip(0.6) else [i % len(KINDS) for i in range(nenv)]
    places = [make_env(ctx.root, f"env{i}") for i in range(nenv)]
    path = ctx.root / "w/etc/pkm/packages-lock.toml"
    os.makedirs(path.parent)
    installed = [{} for _ in range(nenv)]

    common = g.sample(NAMES, 0.7)

    def env(i):
        e = load_env(places[i], **KINDS[kinds[i]])
        return e

    def set_installed(i, pk):
        sp = places[i] / "lib/python3.12/site-packages"
        for n, (v, spelled) in installed[i].items():
            d = sp / f"{key(n)}-{v}.dist-info"
            if d.exists():
                import shutil
                shutil.rmtree(d)
        installed[i] = pk
        for n, (v, spelled) in pk.items():
            d = sp / f"{key(n)}-{v}.dist-info"
            os.makedirs(d)
            with open(d / "METADATA", "w") as f:
                f.write(f"Metadata-Version: 2.1\nName: {spelled}\nVersion: {v}\n")
            with open(d / "RECORD", "w") as f:
                f.write("")

    disk = [{}]  # allowed contents of the lock file: {(kind, key): version}
    if g.flip(0.3):
        fs._real_open(path, "w").write("# locked packages, do not edit\n")

    def repo():
        from pkm.api.packages.package import Package, PackageDescriptor
        from pkm.api.repositories.repository import AbstractRepository
        from pkm.api.versions.version import Version

        class P(Package):
            def __init__(self, n, v):
                self._d = PackageDescriptor(n, Version.parse(v))

            @property
            def descriptor(self):
                return self._d

            @property
            def published_metadata(self):
                return None

            def is_compatible_with(self, env):
                return True

            def dependencies(self, target, extras=None):
                return []

            def install_to(self, *a, **k):
                raise NotImplementedError

            _all_dependencies = None

        P.__abstractmethods__ = frozenset()

        class R(AbstractRepository):
            def _do_match(self, dependency, env):
                for n in NAMES:
                    if key(n) == key(dependency.package_name):
                        sp = SPELL[n]
                        return [P(sp[len(v) % len(sp)], v) for v in reversed(VERSIONS) if dependency.version_spec.allows_version(Version.parse(v))]
                return []
        return R("base")

    def expected_env(model, k):
        return sorted((n, v) for (kk, n), v in model.items() if kk == k)

    def check_lock(lock, model, where):
        """the lock object against the model"""
        from pkm.api.dependencies.dependency import Dependency
        from pkm.resolution.packages_lock import LockPrioritizingRepository
        base = repo()
        r = LockPrioritizingRepository("locked", base, lock)
        for i in range(nenv):
            e = env(i)
            k = kinds[i]
            have = sorted((key(d.name), str(d.version)) for d in lock.env_specific_locks(e))
            if have != expected_env(model, k):
                ctx.note("wrong-lock", f"{where}: env of kind {k} has {have}, expected {expected_env(model, k)}")
                return
            n = g.pick(NAMES)
            d = Dependency.parse(g.pick(SPELL[n]) + g.pick(["", " >=1.5", " <3", " !=2.0"]))
            plain = [str(p.version) for p in base.match(d, e)]
            got = [str(p.version) for p in r.match(d, e)]
            if sorted(plain) != sorted(got):
                ctx.note("lost-match", f"{where}: {d}: {got} instead of {plain}")
                return
            v = model.get((k, key(n)))
            locked_anywhere = {vv for (kk, nn), vv in model.items() if nn == key(n)}
            if v in plain and got[0] != v:
                ctx.note("lock-not-offered-first", f"{where}: {d} in kind {k}: locked {v}, offered {got}, all locks {sorted(model.items())}")
                return
            if not locked_anywhere and got != plain:
                ctx.note("order-changed-without-lock", f"{where}: {d}: {got}")
                return
            ctx.probe("offered-locked" if v in plain else "offered-unlocked")

    def look(where):
        from pkm.resolution.packages_lock import PackagesLock
        try:
            lock = PackagesLock.load(path)
        except Exception as e:  # noqa
            with fs._real_open(path) as f:
                ctx.note("lock-not-loadable", f"{where}: {e!r}: {f.read()[:800]}")
            return None
        got = None
        for m in disk:
            if all(sorted((key(d.name), str(d.version)) for d in lock.env_specific_locks(env(i))) == expected_env(m, kinds[i]) for i in range(nenv)) \
                    and (got is None):
                got = m
        if got is None:
            with fs._real_open(path) as f:
                ctx.note("wrong-lock", f"{where}: file {f.read()[:1500]} allowed {disk}")
            return None
        # kinds without an environment cannot be told apart by looking, but they only exist if an environment was locked
        disk[:] = [got]
        check_lock(lock, got, where)
        return lock

    for i in range(nenv):
        if g.flip(0.6):
            set_installed(i, {x: (g.pick(VERSIONS), g.pick(SPELL[x])) for x in common})
    steps = g.int(2, 7)
    n = 0
    while n < steps and not ctx.noted:
        batch = g.int(1, 4)

        def proc(n=n):
            lock = look("at start")
            if lock is None:
                return
            model = dict(disk[0])
            for b in range(batch):
                op = g.weighted([("lock", 5), ("unlock", 3), ("install", 4), ("reload", 1)])
                i = g.int(0, nenv - 1)
                if op == "install":
                    set_installed(i, {x: (g.pick(VERSIONS), g.pick(SPELL[x])) for x in (common if g.flip(0.4) else g.sample(NAMES, 0.5))})
                    continue
                if op == "reload":
                    lock = look("reloaded")
                    if lock is None:
                        return
                    model = dict(disk[0])
                    continue
                if op == "lock":
                    lock.update_lock(env(i))
                    model = {k: v for k, v in model.items() if k[0] != kinds[i]}
                    model.update({(kinds[i], key(x)): v for x, (v, _) in installed[i].items()})
                else:
                    names = g.sample(NAMES, 0.4)
                    lock.unlock_packages([g.pick(SPELL[x]) for x in names])
                    model = {k: v for k, v in model.items() if k[1] not in [key(x) for x in names]}
                ctx.event(f"{op} {i} -> {sorted(model.items())}")
                check_lock(lock, model, f"after {op}")
                if ctx.noted:
                    return
                if g.flip(0.7) or b == batch - 1:
                    if sc != "history" and g.flip(0.7):
                        ctx.fs.arm(g.int(1, 8), "crash" if sc == "crash" else "error", g.int(0, 11))
                    disk.append(dict(model))
                    try:
                        lock.save() if g.flip(0.7) else lock.save(path)
                    except OSError as e:
                        if not ctx.fs.fired:
                            raise
                        ctx.event(f"save failed {e!r}")
                        ctx.probe("save-failed")
                        ctx.fs.disarm()
                        if look("after failed save") is None:
                            return
                    else:
                        disk[:] = [dict(model)]
                        ctx.probe("saved")
                        ctx.fs.disarm()
                        if g.flip(0.5) and look("after save") is None:
                            return

        st, v = ctx.proc(proc, f"p{n}")
        ctx.fs.disarm()
        if st == "exc":
            raise v
        if st == "crash":
            ctx.probe("crashed")
        n += 1
    if not ctx.noted:
        st, v = ctx.proc(lambda: look("at the end"), "end")
        if st == "exc":
            raise v
