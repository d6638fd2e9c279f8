"""I04: executing a plan ends in the planned state in every concurrency mode, and a failing operation is raised with nothing left running."""
import traceback

from worlds._pkgs import *
from worlds._workers import Workers

SCENARIOS = [("plain", 4), ("fail", 4), ("io", 4), ("kill", 3)]
QUICK_RUNS = 900
THOROUGH_RUNS = 40000
MAX_STEPS = 3_000_000
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm InstallationPlan.compute_operations_for_target/execute, the thread pool, the process pool and its worker script, promises, monitors, package "
        "installation/update/removal, pickling of packages and targets; file system calls on a private scratch tree")
STUBS = "retrieval of artifacts (local wheels, with delays and errors), interpreter introspection data, operating system processes and pipes, clock, thread scheduler, disk faults"
ASSUMPTIONS = ["no file is claimed by two packages", "one failing disk operation per run", "simulated workers share imported modules with their parent",
               "an operation whose worker process is killed may leave its own package incomplete"]

NAMES = ["alpha", "Beta-Pkg", "ga.mma", "delta", "eps_ilon", "Zeta", "eta"]
LOG = []  # (package key, "start"/"end"/"error")


def norm_key(n):
    return n.lower().replace("-", "_").replace(".", "_")


class Boom(Exception):
    pass


class _Make:
    """classes are made once pkm is imported"""
    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact
        from pkm.utils.types import Serializable

        class Base(AbstractPackage):
            def __init__(self, pkg, path, behave):
                super().__init__(pkg.descriptor(), [PackageArtifact(pkg.filename)])
                self._made_of = (pkg, path, behave)

            def _retrieve_artifact(self, artifact):
                _, path, (delay, error) = self._made_of
                if delay is not None:
                    import time
                    time.sleep(delay)
                if error == "boom":
                    raise Boom(f"boom-{norm_key(self.name)}.")
                return path

            def _logged(self, mtd, *args, **kw):
                if self.__dict__.get("_inside"):
                    return mtd(*args, **kw)
                self._inside = True
                k = (norm_key(self.name), core.SIM.me().inc.name)
                LOG.append((*k, "start"))
                try:
                    r = mtd(*args, **kw)
                except BaseException:
                    LOG.append((*k, "error"))
                    raise
                LOG.append((*k, "end"))
                return r

            def install_to(self, *args, **kw):
                return self._logged(super().install_to, *args, **kw)

            def update_at(self, *args, **kw):
                return self._logged(super().update_at, *args, **kw)

        class Ser(Base, Serializable):
            def __getstate__(self):
                return self._made_of

            def __setstate__(self, state):
                self.__init__(*state)

        for c, nm in ((Base, "Plain"), (Ser, "Ser")):
            c.__module__ = __name__
            c.__name__ = c.__qualname__ = nm
            globals()[nm] = c
            setattr(self, nm, c)
        return getattr(self, n)


MAKE = _Make()


def run(ctx):
    g = ctx.gen
    fs_ = ctx.attach_fs()
    sc = ctx.scenario
    LOG.clear()
    ep = make_env(ctx.root, "env", g.weighted([("same", 5), ("dir", 1), ("link", 1)]))
    lib64 = "same" if not (ep / "lib64").exists() else "link" if (ep / "lib64").is_symlink() else "dir"
    if g.flip(0.2):
        ctx.fs.exdev = (f"{ctx.root}/tmp", f"{ctx.root}/env")
    mode = g.pick(["proc", "proc", "thread", "thread", "none"])
    if sc == "kill":
        mode = "proc"
    explicit = g.flip()
    cfg = ctx.root / "xdg/pkm/etc/pkm/general.toml"
    cfg.parent.mkdir(parents=True)
    cfg.write_text(f'[concurrency]\nmode = "{mode if not explicit else g.pick(["none", "thread", "proc"])}"\n')
    names = NAMES[:g.int(2, len(NAMES))]
    vers = {n: g.shuffle(["1.0", "2.0.1", "3.0a1"]) for n in names}
    built = {}
    for n in names:
        for v in vers[n][:2]:
            p = gen_pkg(g, n, v, ns="shared_ns")
            built[n, v] = (p, p.write(ctx.root / "wheels"))
    by_key = {norm_key(n): n for n in names}
    ver_of = {n: {} for n in names}

    def make(n, v, behave=(None, None), ser=None):
        return getattr(MAKE, "Ser" if ser else "Plain")(*built[n, v], behave)

    # the environment before: name -> (version, request text or None)
    before = {n: (vers[n][0], g.pick([None, n, f"{n}>=0.1a1"])) for n in names if g.flip(0.55)}
    base = None

    def setup():
        from pkm.api.dependencies.dependency import Dependency
        env = load_env(ep, lib64=lib64)
        for n, (v, r) in before.items():
            make(n, v).install_to(env.installation_target, user_request=r and Dependency.parse(r))

    base = {r for r in snap(ep)}
    if before:
        st, v = ctx.proc(setup, "setup")
        if st != "ok":
            raise v if st == "exc" else AssertionError(st)
    LOG.clear()
    # the plan
    after, actions = {}, {}
    for n in names:
        k = g.weighted([("update", 3), ("keep", 2), ("remove", 3), ("mark", 1.5)] if n in before else [("install", 4), ("absent", 1)])
        actions[n] = k
        prev = before.get(n)
        if k in ("remove", "absent"):
            continue
        v = vers[n][1] if k in ("update", "install") else prev[0]
        r = prev and prev[1]
        if k == "mark":
            r = next(x for x in (f"{n}>=0.2a1", f"{n}>=0.0.1a1") if x != r)
        elif k != "keep" and g.flip(0.4):
            r = f"{n}!=99"
        after[n] = (v, r)
    behave, culprits = {}, []
    for n in after:
        delay = g.weighted([(None, 6), (0, 1), (0.0002, 2), (0.01, 1), (3, 1)])
        err = None
        if sc == "fail" and actions[n] in ("update", "install") and g.flip(0.35):
            err = "boom"
            culprits.append(n)
        behave[n] = (delay, err)
    ser = {n: g.flip(0.8) for n in names}
    order = g.shuffle(list(after))
    workers = Workers(ctx)
    raised = []
    late = []

    def execute():
        from pkm.api.dependencies.dependency import Dependency
        from pkm.api.packages.package_installation import InstallationPlan
        from pkm.api.pkm import pkm
        import time
        env = load_env(ep, lib64=lib64)
        t = env.installation_target
        plan = InstallationPlan(t, [make(n, after[n][0], behave[n], ser[n]) for n in order],
                                {norm_key(n): Dependency.parse(r) for n, (_, r) in after.items() if r})
        if sc == "io":
            ctx.fs.arm(g.int(1, 60 * len(names)), "error", g.int(0, 7), only=lambda r, k: r.startswith("env/"))
        elif sc == "kill":
            if g.flip(0.3):
                workers.kill_at[g.int(1, 60)] = True
            else:
                ctx.fs.arm(g.int(1, 60 * len(names)), "crash", g.int(0, 7), only=lambda r, k: core.SIM.me().inc.name.startswith("worker"))
        try:
            plan.execute(**({"concurrency_mode": mode} if explicit else {}))
        except Exception as e:  # noqa
            raised.append(e)
        fired = ctx.fs.fired
        ctx.fs.disarm()
        s1 = snap(ep)
        running = [k for k, inc, what in LOG if what == "start" and not any(a == k and w != "start" for a, _, w in LOG)
                   and (inc == core.SIM.me().inc.name or any(x.inc.name == inc for x in workers.live))]
        ctx.check(not running, "still-running", lambda: f"{mode}: {running} are still being installed when execute {'raised' if raised else 'returned'}")
        n = len(LOG)
        workers.kill_at.clear()
        time.sleep(1000)
        s2 = snap(ep)
        d = fs.diff(s1, s2)
        ctx.check(not d and len(LOG) == n, "runs-after-return", lambda: f"{mode}: {d} {LOG[n:]} after execute {'raised' if raised else 'returned'}")
        seen = {p.name_key: str(p.version) for p in t.site_packages.installed_packages()}
        late.append(seen)
        pkm.processes.close()
        return fired

    st, fired = ctx.proc(execute, "main")
    if st != "ok":
        if st == "exc":
            raise fired
        raise core.HarnessError(st)
    kills = workers.kills + (1 if sc == "kill" and fired else 0)
    tree = snap(ep)
    env = load_env(ep, lib64=lib64)
    inst = {}
    for p in env.site_packages.installed_packages():
        inst[by_key[p.name_key]] = (str(p.version), p.user_request)
    from pkm.api.dependencies.dependency import Dependency

    def state_problems(n, state):
        """what differs from package n being in that state"""
        out = []
        if state is None:
            if n in inst:
                out.append(f"{n} {inst[n][0]} is installed")
            for (m, v), (p, _) in built.items():
                if m == n:
                    out += [f"{r} remains" for r in p.expected(ep) if r in tree]
                    if p.info_rel(ep) in tree:
                        out.append(f"{p.info_rel(ep)} remains")
            return out
        v, r = state
        if n not in inst:
            return [f"{n} is not installed"]
        if inst[n][0] != v:
            return [f"{n} {inst[n][0]} is installed instead of {v}"]
        p = built[n, v][0]
        for x in verify_files(p, ep, tree):
            out.append(f"{x}")
        for (m, w), (q, _) in built.items():
            if m == n and w != v:
                out += [f"{r} of {w} remains" for r in q.expected(ep) if r in tree and r not in p.expected(ep)]
                if q.info_rel(ep) in tree:
                    out.append(f"{q.info_rel(ep)} remains")
        rq = inst[n][1]
        want = Dependency.parse(r) if r else None
        if (rq is None) != (want is None) or (rq is not None and str(rq) != str(want)):
            out.append(f"request of {n} is {rq} instead of {r}")
        return out

    describe = lambda: f"mode {mode}, before {before}, planned {after}, {[(n, behave[n]) for n in order]}, fault {fired}, raised {raised!r}{''.join(traceback.format_exception(raised[0])[-9:]) if raised else ''}"  # noqa
    planned_bad = {n: x for n in names if (x := state_problems(n, after.get(n)))}
    if not raised:
        ctx.probe(f"done-{mode}")
        ctx.check(not culprits, "failure-not-raised", lambda: f"{culprits} failed; {describe()}")
        for n, x in planned_bad.items():
            ctx.fail("not-as-planned", f"{x}; {describe()}")
        ctx.check(late[0] == {norm_key(n): v for n, (v, _) in after.items()}, "stale-view", lambda: f"{late[0]}; {describe()}")
    else:
        ctx.probe(f"failed-{mode}")
        ctx.check(culprits or fired or kills, "failed-without-cause", describe)
        if culprits:
            ctx.check(any(f"boom-{norm_key(n)}." in str(raised[0]) for n in culprits), "wrong-error", describe)
        torn = []
        for n, x in planned_bad.items():
            y = state_problems(n, before.get(n))
            completed = any(k == norm_key(n) and w == "end" for k, _, w in LOG)
            if completed and any(k == norm_key(n) and w == "error" for k, _, w in LOG):
                ctx.fail("ran-twice", f"{n}; {describe()}")
            # an operation which completed inside a worker counts as completed once its process reported it
            ctx.check(not completed or kills, "completed-operation-lost", lambda: f"{n}: {x}; {describe()}")
            if y:
                torn.append((n, x, y))
            else:
                ctx.probe("left-as-before")
        ctx.check(len(torn) <= kills, "torn", lambda: f"{len(torn)} packages are neither as before nor as planned: {torn}; {describe()}"[:3000])
    extra = [r for r, t in tree.items() if r not in base and t[0] != "d" and not is_pyc(r) and
             not any(r in p.expected(ep) or r.startswith(p.info_rel(ep) + "/") for p, _ in built.values())]
    ctx.check(not extra or kills, "stray-files", lambda: f"{extra}; {describe()}")
    n = {k for k, _, w in LOG if w == "start"}
    for k in n:
        ctx.check(sum(1 for a, _, w in LOG if a == k and w == "start") == 1, "ran-twice", lambda: f"{k} {LOG}; {describe()}")
