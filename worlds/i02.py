"""I02: a completed installation is complete and its record is true; packages contradicting their own list are refused."""
from worlds._pkgs import *
from worlds.i01 import apply_bad

SCENARIOS = [("single", 3), ("tamper", 2), ("concurrent", 5), ("again", 2), ("io", 2)]
QUICK_RUNS = 3500
THOROUGH_RUNS = 80000
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm WheelDistribution/CopyTransaction/DistInfo/Executables/Environment/SitePackages, zipfile, compileall; file system calls on a private scratch tree"
STUBS = "interpreter introspection data (fixed), clock, thread scheduler, disk faults"
ASSUMPTIONS = ["packages installed together do not ship the same file", "interpreter cache tag cpython-312 for compiled files"]
REFUSE = ["content", "flip", "unsigned", "extra", "no-record", "hashless", "case", "extra-record"]


def owner_of(rel, owners):
    if rel in owners:
        return owners[rel]
    if is_pyc(rel):
        d, _, f = rel.rpartition("/")
        return owners.get(f"{d[:-len('__pycache__')]}{f.split('.')[0]}.py")
    return None


def judge(ctx, env, done, before, after, lib64, requests):
    """done: packages whose installation succeeded"""
    owners = {}
    for p in done:
        for rel in p.expected(env):
            owners[rel] = p
        for rel in after:
            if rel.startswith(p.info_rel(env) + "/"):
                owners[rel] = p
    written = {p.name: set() for p in done}
    changed = written_files(before, after)
    for rel in changed:
        o = owner_of(rel, owners)
        ctx.check(o is not None, "foreign-file", lambda: f"{rel} was written but belongs to no installed package")
        written[o.name].add(rel)
    for rel in after:  # also files rewritten with identical content
        if is_pyc(rel) and rel not in changed and before.get(rel, (0, 0, b""))[2] == after[rel][2]:
            o = owner_of(rel, owners)
            if o is not None and rel in {r[0] for r in read_record(o, env, after) or ()}:
                written[o.name].add(rel)
    for rel, v in before.items():
        ctx.check(rel in after or (is_pyc(rel) and owner_of(rel, owners)) or any(rel.startswith(p.info_rel(env) + "/") for p in done) or
                  any(rel.startswith(x + "/") for x in owners), "file-lost", lambda: f"{rel} disappeared")
    for p in done:
        for s, d in verify_files(p, env, after) + verify_record(p, env, after, written[p.name]):
            ctx.fail(s, d)
        i = p.info_rel(env)
        ctx.check(after.get(f"{i}/INSTALLER", (0, 0, b""))[2] == b"pkm", "installer-mark", lambda: after.get(f"{i}/INSTALLER"))
        r = after.get(f"{i}/REQUESTED")
        want = requests[p.name]
        ctx.check((r is not None) == (want is not None), "request-mark", lambda: f"{p.name} {r} requested {want}")

    def reload():
        e = load_env(env, lib64=lib64)
        for p in done:
            q = e.site_packages.installed_package(p.name)
            ctx.check(q is not None, "not-listed", p.name)
            ctx.check(str(q.version) == p.version and q.descriptor == p.descriptor(), "wrong-descriptor", lambda: f"{q.descriptor} {p.version}")
            ctx.check(q.user_request == requests[p.name], "request-differs", lambda: f"{q.user_request!r} instead of {requests[p.name]!r}")
            files = {os.path.relpath(os.path.realpath(f), os.path.realpath(env)) for f in q.dist_info.installed_files()}
            exp = {os.path.relpath(os.path.realpath(f"{env}/{r}"), os.path.realpath(env)) for r, o in owners.items() if o is p} - \
                {f"{p.info_rel(env)}/{b}" for b in BOOKKEEPING}
            ctx.check(exp <= files, "installed-files", lambda: f"{p.name}: not listed {sorted(exp - files)}")

    st, v = ctx.proc(reload, "reload")
    if st == "exc":
        raise v


def run(ctx):
    g = ctx.gen
    ctx.attach_fs()
    sc = ctx.scenario
    lib64 = g.weighted([("same", 5), ("dir", 2), ("link", 2)])
    ep = make_env(ctx.root, "env", lib64)
    if g.flip(0.25):
        ctx.fs.exdev = (f"{ctx.root}/tmp", f"{ctx.root}/env")
    n = g.int(2, 3) if sc == "concurrent" else 1
    pkgs = []
    for i in range(n):
        p = gen_pkg(g, g.pick(["alpha", "Beta-Pkg", "ga.mma"]) + (str(i) if i else ""), g.pick(["1.0", "2.3.4", "1.0a1"]), ns="shared_ns")
        pkgs.append(p)
        if sc != "again":
            clutter(g, ep, p, kinds=("file", "ro", "link", "dangling"))
    bad = {}
    if sc == "tamper":
        bad[pkgs[0].name] = k = g.pick(REFUSE)
        pkgs[0].tamper = k
        ctx.probe(f"tamper-{k}")
    elif sc == "concurrent" and g.flip(0.4):
        bad[pkgs[-1].name] = apply_bad(g, pkgs[-1])
    paths = [p.write(ctx.root / "wheels") for p in pkgs]
    requests = {p.name: request_of(p) if g.flip(0.6) else None for p in pkgs}
    results = {}

    def install_one(env, p, w):
        try:
            wheel(p, w).install_to(env.installation_target, requests[p.name])
            results[p.name] = None
            ctx.event(f"installed {p.name}")
        except Exception as e:  # noqa
            results[p.name] = e
            ctx.event(f"failed {p.name} {type(e).__name__}")

    if sc == "again":
        first = gen_pkg(g, pkgs[0].name, pkgs[0].version, ns="shared_ns") if g.flip() else pkgs[0]
        first.purelib = pkgs[0].purelib
        fw = first.write(ctx.root / "wheels1")

        def pre():
            wheel(first, fw).install_to(load_env(ep, lib64=lib64).installation_target, requests[first.name])
            if g.flip(0.4):
                load_env(ep, lib64=lib64).site_packages.installed_package(first.name).uninstall()
        st, v = ctx.proc(pre, "setup")
        if st != "ok":
            raise v if st == "exc" else AssertionError(st)
    before = snap(ep)
    if sc == "io":
        ctx.fs.arm(g.int(1, 14 * len(pkgs[0].entries()) + 40), "error", g.int(0, 7), sticky=g.flip(0.3))

    def main():
        env = load_env(ep, lib64=lib64)
        if len(pkgs) == 1:
            install_one(env, pkgs[0], paths[0])
        else:
            ctx.threads([lambda p=p, w=w: install_one(env if shared_env else load_env(ep, lib64=lib64), p, w) for p, w in zip(pkgs, paths)])

    shared_env = g.flip(0.7)
    st, v = ctx.proc(main, "install")
    ctx.fs.disarm()
    if st != "ok":
        raise v if st == "exc" else AssertionError(st)
    after = snap(ep)
    done = [p for p in pkgs if results[p.name] is None]
    for p in pkgs:
        e = results[p.name]
        b = bad.get(p.name)
        if e is not None and b is None and ctx.fs.fired is None:
            ctx.fail("installation-failed", f"{p.name}: {e!r} (others bad: {bad})")
        if b in REFUSE:
            ctx.check(e is not None, "contradicting-archive-accepted", lambda: f"{p.name} {b}")
    ctx.probe(f"done-{len(done)}-of-{len(pkgs)}")
    if sc == "again" and first is not pkgs[0]:
        # only the completeness of the later one is judged, files of the overwritten one may stay
        for s, d in verify_files(pkgs[0], ep, after):
            ctx.fail(s, d)
        return
    judge(ctx, ep, [p for p in done if p.name not in bad], before, after, lib64, requests) if not (set(bad) & {p.name for p in done}) else None
