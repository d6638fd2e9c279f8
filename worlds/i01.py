"""I01: an installation that raises leaves the environment's file tree exactly as it was."""
from worlds._pkgs import *

SCENARIOS = [("io", 8), ("full", 3), ("bad", 4), ("second", 3)]
QUICK_RUNS = 2400
THOROUGH_RUNS = 60000
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm WheelDistribution/CopyTransaction/DistInfo/Executables/Environment/SitePackages, zipfile, compileall; file system calls on a private scratch tree"
STUBS = "interpreter introspection data (fixed), clock, thread scheduler, disk faults"
ASSUMPTIONS = ["one failing operation per installation (a full disk stays full until something is deleted)",
               "the rollback itself meets no further fault"]
BAD = ["content", "flip", "unsigned", "extra", "extra-record", "case", "no-record", "no-info", "two-info", "truncated", "wheel2", "badep", "badep2", "badini"]


def apply_bad(g, p):
    k = g.pick(BAD)
    if k == "wheel2":
        p.extra_info["wheel"] = "2.0"
    elif k == "badep":
        p.scripts["zz-bad"] = ("console_scripts", "mod.only")
    elif k == "badep2":
        p.scripts["a-bad"] = ("gui_scripts", "mod.only")
    elif k == "badini":
        p.extra_info["ep"] = "[console_scripts\nnonsense"
    else:
        p.tamper = k
    return k


def run(ctx):
    g = ctx.gen
    ctx.attach_fs()
    sc = ctx.scenario
    lib64 = g.weighted([("same", 5), ("dir", 2), ("link", 2)])
    ep = make_env(ctx.root, "env", lib64)
    if g.flip(0.3):
        ctx.fs.exdev = (f"{ctx.root}/tmp", f"{ctx.root}/env")
    pkgs = []
    n = 2 if sc == "second" else 1
    for i in range(n):
        p = gen_pkg(g, g.pick(["alpha", "Beta-Pkg", "ga.mma"]) + (str(i) if i else ""), g.pick(["1.0", "2.3.4", "1.0a1"]), ns="shared_ns")
        pkgs.append(p)
    last = pkgs[-1]
    twice = g.flip(0.2)  # the package ships the same target more than once
    if twice:
        if g.flip():
            r = g.pick(sorted(last.files))
            last.data.setdefault("purelib" if last.purelib else "platlib", {})[r] = b"# second\n"
        for n, (k, _) in sorted(last.scripts.items()):
            if k != "some.plugins" and g.flip():
                last.data.setdefault("scripts", {})[n] = b"#!python\nsecond\n"
    clutter(g, ep, last)
    bad = None
    if sc == "bad" or (sc == "second" and g.flip(0.4)):
        bad = apply_bad(g, last)
        ctx.probe(f"bad-{bad}")
    paths = [p.write(ctx.root / "wheels") for p in pkgs]
    for p, w in zip(pkgs[:-1], paths):
        def pre():
            wheel(p, w).install_to(load_env(ep, lib64=lib64).installation_target, request_of(p))
        st, v = ctx.proc(pre, "setup")
        if st != "ok":
            raise v if st == "exc" else AssertionError(st)
    before = snap(ep)
    est = 14 * len(last.entries()) + 40
    if bad is None:
        ctx.fs.arm(g.int(1, est), "error", g.int(0, 7), sticky=sc == "full",
                   only=(lambda r, k: r.startswith("env/")) if g.flip(0.5) else None)
    req = request_of(last) if g.flip(0.6) else None

    def main():
        from pkm.api.packages.package_installation_info import PackageInstallationInfo
        env = load_env(ep, lib64=lib64)
        info = PackageInstallationInfo() if g.flip() else None
        wheel(last, paths[-1]).install_to(env.installation_target, req, info)

    st, v = ctx.proc(main, "install")
    ctx.fs.disarm()
    after = snap(ep)
    if st == "exc":
        ctx.probe("failed-install")
        if not isinstance(v, Exception):
            raise v
        d = fs.diff(before, after)
        ctx.check(not d, "tree-changed", lambda: f"installation failed with {v!r} (fault {ctx.fs.fired}, bad {bad}) and left: {d}")
    else:
        ctx.probe("installed" if ctx.fs.fired is None else "installed-despite-fault")
        probs = verify_files(last, ep, after) if bad is None and not twice else []
        for s, dt in probs:
            ctx.fail("reported-success-" + s, f"fault {ctx.fs.fired}: {dt}")
        if bad in ("no-info", "two-info", "truncated", "wheel2"):
            ctx.fail("bad-archive-accepted", bad)
