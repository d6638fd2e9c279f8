"""B02: source and wheel builds of projects under disk errors, crashes, failing back ends and concurrent builds."""
import io
import tarfile
import zipfile

from worlds import _procs
from worlds._pkgs import *

SCENARIOS = [("plain", 2), ("error", 4), ("crash", 4), ("concurrent", 3), ("external", 4)]
QUICK_RUNS = 900
THOROUGH_RUNS = 60000
MAX_STEPS = 3_000_000
LINE_PREFIXES = tuple(f"pkm/src/pkm/{d}" for d in ("build", "api/distributions", "utils/files"))
LEVEL = "deterministic simulation with fault injection"
REAL = ("pkm Project, pyproject configuration, pkm and external (PEP 517) build front ends, DistInfo/RECORD signing, WheelDistribution, EnvironmentBuilder; "
        "tarfile, zipfile, shutil; scratch file system")
STUBS = "interpreter processes of external builds (hook scripts run in-process against a scripted back end), thread scheduling, clock, process death"
ASSUMPTIONS = ["a crash keeps completed system calls (kill -9)", "the sources do not change while a build runs",
               "projects use a src folder or declare their packages; readme and license are given as text",
               "a back end that reports success has written a complete archive under the name it returns"]
FAILS = ["raise", "exit", "no-file", "partial"]


class Proj:
    def __init__(self, g, root, external):
        self.g = g
        self.external = external
        self.name = g.pick(["alpha", "my-proj", "dotted.name", "Upper"])
        self.norm_name = self.name.lower()
        self.version = g.pick(["1.0", "2.3.4", "1.0a1", "0.1.dev3"])
        self.dir = root / "work" / "proj"
        self.layout = "src" if external else g.weighted([("src", 4), ("declared", 3)])
        self.pkgs = g.sample(["core", "extra_pkg", "tools"], 0.6) or ["core"]
        self.declared = {p: g.pick(["", "lib/", "src/"]) + p for p in self.pkgs}
        self.deps = g.sample(["dep-one>=1", "dep-two; python_version<'4'", "three[ex]==2.*"], 0.4)
        self.requires_python = g.pick([None, ">=3.7", "<4", ">=3.8,<4", "==3.12.3"])
        self.text = g.flip(0.5)
        self.eps = {}
        if g.flip(0.5):
            self.eps["scripts"] = {f"{self.pkgs[0]}-cmd": f"{self.pkgs[0]}:main"}
        if g.flip(0.3):
            self.eps["gui-scripts"] = {f"{self.pkgs[0]}-gui": f"{self.pkgs[0]}.gui:main"}
        if g.flip(0.3):
            self.eps["entry-points.'some.plugins'"] = {"plug": f"{self.pkgs[0]}:plug"}
        self.gen = 0
        self.files = {}

    @property
    def dist_name(self):
        return self.norm_name.replace("-", "_")

    def src(self, p):
        return self.dir / (self.declared[p] if self.layout == "declared" else "src/" + p)

    def mutate(self):
        """a new generation of the sources"""
        g = self.g
        self.gen += 1
        self.files = {}
        import shutil
        for d in ("src", "lib", *self.pkgs):
            shutil.rmtree(self.dir / d, ignore_errors=True)
        for p in self.pkgs:
            fl = {"__init__.py": f"GEN = {self.gen}\n".encode()}
            for i in range(g.int(0, 3)):
                n = "/".join(g.pick(["a", "b", "deep"]) for _ in range(g.int(0, 2)))
                fl[f"{n + '/' if n else ''}m{i}{g.pick(['.py', '.txt', '.so'])}"] = (f"{p} {i} {self.gen}\n" * g.pick([1, 40, 9000])).encode()
            if g.flip(0.3):
                fl["data/empty.bin"] = b""
            if g.flip(0.3):
                fl[g.pick([".hidden", ".conf/x.json", "caf\u00e9.txt", "a name.txt", "x.dist-info/y.txt", "build/z.py", "comma,name.txt",
                           "RECORD", "no_suffix"])] = f"{p} odd {self.gen}\n".encode()
            for r, c in fl.items():
                self.files[f"{p}/{r}"] = c
                f = self.src(p) / r
                f.parent.mkdir(parents=True, exist_ok=True)
                f.write_bytes(c)
            if g.flip(0.4):
                (self.src(p) / "__pycache__").mkdir()
                (self.src(p) / "__pycache__/__init__.cpython-312.pyc").write_bytes(b"stale")
        tom = [f'[project]\nname = "{self.name}"\nversion = "{self.version}"\ndescription = "generation {self.gen}"']
        if self.requires_python:
            tom.append(f'requires-python = "{self.requires_python}"')
        if self.deps:
            tom.append("dependencies = [%s]" % ", ".join(f'"{d}"' for d in self.deps))
        if self.text:
            tom.append('readme = "some text\\nmore text"\nlicense = {text = "MIT"}')
        for k, v in self.eps.items():
            tom.append(f"\n[project.{k}]\n" + "\n".join(f'{a} = "{b}"' for a, b in v.items()))
        backend = "simbackend" if self.external else "pkm.api.buildsys"
        tom.append(f'\n[build-system]\nrequires = []\nbuild-backend = "{backend}"')
        if self.layout == "declared":
            tom.append("\n[tool.pkm.project]\npackages = [%s]" % ", ".join(f'"{self.declared[p]}"' for p in self.pkgs))
        (self.dir / "pyproject.toml").write_text("\n".join(tom) + "\n")

    def metadata_problem(self, text, gen):
        import email
        m = email.message_from_string(text)
        if m["Name"] not in (self.name, self.norm_name) or m["Version"] != self.version or m["Summary"] != f"generation {gen}":
            return f"metadata {m['Name']} {m['Version']} {m['Summary']}"
        if len(m.get_all("Requires-Dist") or []) != len(self.deps):
            return f"dependencies {m.get_all('Requires-Dist')}"
        if self.text and m.get_payload().strip() != "some text\nmore text":
            return f"readme {m.get_payload()!r}"
        return None

    def want_eps(self):
        out = {}
        for k, v in self.eps.items():
            grp = {"scripts": "console_scripts", "gui-scripts": "gui_scripts"}.get(k, "some.plugins")
            out[grp] = dict(v)
        return out


class Generation:
    def __init__(self, prj, editable=False):
        self.prj, self.gen, self.files = prj, prj.gen, dict(prj.files)

    def check_wheel(self, name, b, editable=False):
        """None when the bytes are a complete valid wheel of this generation"""
        prj = self.prj
        try:
            z = zipfile.ZipFile(io.BytesIO(b))
            bad = z.testzip()
        except Exception as e:  # noqa
            return f"not a wheel: {e!r}"
        if bad:
            return f"corrupt member {bad}"
        names = z.namelist()
        fl = {n: z.read(n) for n in names if not n.endswith("/")}
        if len(set(names)) != len(names):
            return f"duplicate members {names}"
        info = {n.split("/")[0] for n in fl if n.split("/")[0].endswith(".dist-info")}
        if len(info) != 1:
            return f"metadata directories {info}"
        info = info.pop()
        body = {n: c for n, c in fl.items() if not n.startswith(info + "/")}
        if editable:
            if len(body) != 1 or not all(n.endswith(".pth") for n in body):
                return f"editable wheel with {sorted(body)}"
            want = {str(prj.src(p).parent) for p in prj.pkgs}
            got = set(next(iter(body.values())).decode().split("\n")) - {""}
            if got != want:
                return f"editable links {got} instead of {want}"
        elif body != self.files:
            return f"files differ: missing {sorted(set(self.files) - set(body))}, added {sorted(set(body) - set(self.files))}, " \
                   f"changed {[n for n in body if n in self.files and body[n] != self.files[n]]}"
        for must in ("METADATA", "WHEEL", "RECORD"):
            if f"{info}/{must}" not in fl:
                return f"no {must}"
        p = prj.metadata_problem(fl[f"{info}/METADATA"].decode(), self.gen)
        if p:
            return p
        eps = {}
        cur = None
        for line in fl.get(f"{info}/entry_points.txt", b"").decode().splitlines():
            line = line.strip()
            if line.startswith("["):
                cur = eps.setdefault(line[1:-1], {})
            elif "=" in line:
                k, _, v = line.partition("=")
                cur[k.strip()] = v.strip()
        if not prj.external and eps != prj.want_eps():
            return f"entry points {eps} instead of {prj.want_eps()}"
        seen = set()
        for row in csv.reader(io.StringIO(fl[f"{info}/RECORD"].decode())):
            if not row:
                continue
            n = row[0]
            if n in seen:
                return f"{n} recorded twice"
            seen.add(n)
            if n == f"{info}/RECORD" and not row[1]:
                continue
            if n not in fl:
                return f"{n} recorded but not contained"
            hv = base64.urlsafe_b64encode(hashlib.sha256(fl[n]).digest()).decode().rstrip("=")
            if row[1] != f"sha256={hv}" or row[2] != str(len(fl[n])):
                return f"{n} recorded as {row[1:]}"
        un = set(fl) - seen - {f"{info}/RECORD"}
        if un:
            return f"contained but not recorded: {sorted(un)}"
        return None

    def check_sdist(self, name, b):
        prj = self.prj
        try:
            t = tarfile.open(fileobj=io.BytesIO(b), mode="r:gz")
            fl = {m.name: t.extractfile(m).read() for m in t.getmembers() if m.isfile()}
        except Exception as e:  # noqa
            return f"not a source distribution: {e!r}"
        import zlib
        try:
            zlib.decompress(b, 31)
        except zlib.error as e:
            return f"broken compressed stream: {e!r}"
        tops = {n.split("/")[0] for n in fl}
        if len(tops) != 1:
            return f"top level {tops}"
        top = tops.pop() + "/"
        if top + "pyproject.toml" not in fl or top + "PKG-INFO" not in fl:
            return f"no pyproject.toml or PKG-INFO in {sorted(fl)}"
        p = prj.metadata_problem(fl[top + "PKG-INFO"].decode(), self.gen)
        if p:
            return p
        body = [c for n, c in fl.items()]
        for n, c in self.files.items():
            m = [x for x in fl if x.endswith("/" + n)]
            if not m or fl[m[0]] != c:
                return f"{n} missing or different"
        return None


class Backend:
    """scripted PEP 517 back end of the external projects"""

    def __init__(self, ctx, prj):
        self.ctx, self.prj = ctx, prj
        self.budget = 0
        self.failed = 0
        self.kinds = FAILS

    def __getattr__(self, name):
        if name not in ("build_wheel", "build_sdist", "get_requires_for_build_wheel", "get_requires_for_build_sdist", "build_editable"):
            raise AttributeError(name)
        return lambda *a: self.hook(name, *a)

    def hook(self, name, *args):
        ctx, g, prj = self.ctx, self.ctx.gen, self.prj
        if name.startswith("get_"):
            return []
        kind = None
        if self.budget > 0 and g.flip(0.7):
            self.budget -= 1
            self.failed += 1
            kind = g.pick(self.kinds)
            ctx.event(f"FAULT backend {kind}")
            ctx.probe(f"backend-{kind}")
        if g.flip(0.3):
            ctx.sim.sleep(g.pick([1, 3]))
        if kind == "raise":
            raise RuntimeError("backend failed")
        if kind == "exit":
            raise SystemExit(3)
        out = Path(args[0])
        gen = Generation(prj)
        md = f"Metadata-Version: 2.1\nName: {prj.name}\nVersion: {prj.version}\nSummary: generation {prj.gen}\n" + \
            "".join(f"Requires-Dist: {d}\n" for d in prj.deps) + ("\nsome text\nmore text" if prj.text else "\n")
        info = f"{prj.dist_name}-{prj.version}.dist-info"
        if name == "build_sdist":
            top = f"{prj.dist_name}-{prj.version}"
            fn = f"{top}.tar.gz"
            fl = {f"{top}/src/{n}": c for n, c in gen.files.items()}
            fl[f"{top}/PKG-INFO"] = md.encode()
            fl[f"{top}/pyproject.toml"] = b"[project]\n"
            bio = io.BytesIO()
            with tarfile.open(fileobj=bio, mode="w:gz") as t:
                for n, c in fl.items():
                    ti = tarfile.TarInfo(n)
                    ti.size = len(c)
                    t.addfile(ti, io.BytesIO(c))
        else:
            fn = f"{prj.dist_name}-{prj.version}-py3-none-any.whl"
            fl = {"links.pth": ("\n".join({str(prj.src(p).parent) for p in prj.pkgs}) + "\n").encode()} if name == "build_editable" else dict(gen.files)
            fl[f"{info}/METADATA"] = md.encode()
            fl[f"{info}/WHEEL"] = b"Wheel-Version: 1.0\nGenerator: s\nRoot-Is-Purelib: true\nTag: py3-none-any\n"
            rec = "".join('"%s",sha256=%s,%d\n' % (n, base64.urlsafe_b64encode(hashlib.sha256(c).digest()).decode().rstrip("="), len(c)) for n, c in fl.items())
            fl[f"{info}/RECORD"] = (rec + f"{info}/RECORD,,\n").encode()
            bio = io.BytesIO()
            with zipfile.ZipFile(bio, "w") as z:
                for n, c in fl.items():
                    z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), c)
        b = bio.getvalue()
        if kind == "no-file":
            return fn
        with open(out / fn, "wb") as f:
            if kind == "partial":
                f.write(b[:len(b) // 2])
                f.flush()
                raise RuntimeError("backend failed half way")
            for i in range(0, len(b), 30000):
                f.write(b[i:i + 30000])
        return fn


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    external = sc == "external" or (sc in ("crash", "error") and g.flip(0.25))
    prj = Proj(g, ctx.root, external)
    prj.dir.mkdir(parents=True)
    prj.mutate()
    base = ctx.root / "pyA/bin/python"
    base.parent.mkdir(parents=True)
    import shutil
    shutil.copy(make_env(ctx.root, "tmpl") / "bin/python", base)
    ep = make_env(ctx.root, "target")
    (ep / "bin/python").unlink()
    (ep / "bin/python").symlink_to(base)
    home = ctx.root / "xdg/pkm"
    (home / "etc/pkm").mkdir(parents=True)
    (home / "etc/pkm/general.toml").write_text(f'[concurrency]\nmode = "{g.pick(["thread", "none"])}"\n')
    (home / "etc/pkm/repositories.toml").write_text("# none\n")
    contain_current_env(ctx.root)
    real_info = tarfile.TarFile.gettarinfo

    def gettarinfo(self, *a, **k):  # modification times are real ones
        ti = real_info(self, *a, **k)
        if ti is not None:
            ti.mtime = 1_600_000_000
        return ti
    tarfile.TarFile.gettarinfo = gettarinfo
    be = Backend(ctx, prj)

    def handler(args, cwd, env):
        return _procs.interpreter(args, cwd, env, lambda real: {},
                                  lambda interp, text: _procs.run_build_script(interp, text, cwd, ("simbackend", be), g.pick([b"", b"log\n"])))

    _procs.install(handler)
    ctx.attach_fs()
    out = g.weighted([(None, 4), ("out", 3), ("a/b/out", 1)])
    outdir = ctx.root / "work" / out if out else prj.dir / "dist" / prj.version
    if g.flip(0.5):
        ctx.fs.exdev = (f"{ctx.root}/tmp", f"{ctx.root}/work")
    gens = [Generation(prj)]

    def judge_file(p, b, acceptable, editable):
        """-> problem or None"""
        n = os.path.basename(p)
        probs = []
        for ge in acceptable:
            if n.endswith(".whl"):
                pr = ge.check_wheel(n, b, False)
                if pr and editable:
                    pr2 = ge.check_wheel(n, b, True)
                    pr = pr and pr2 and f"{pr} / {pr2}"
            else:
                pr = ge.check_sdist(n, b)
            if not pr:
                return None
            probs.append(pr)
        return probs[-1]

    editable_used = [False]

    def judge_dir(when):
        if not outdir.is_dir():
            return
        for n in sorted(os.listdir(outdir)):
            p = outdir / n
            if n.startswith(".") or not n.endswith((".whl", ".tar.gz", ".zip", ".tar")) or p.is_dir():
                continue
            with fs._real_open(p, "rb") as f:
                b = f.read()
            pr = judge_file(str(p), b, gens, editable_used[0])
            if pr:
                ctx.note("broken-distribution-left", f"{when}: {n} ({len(b)} bytes): {pr}")

    def env():
        from pkm.api.environments.environment import Environment
        return Environment(ep) if external else load_env(ep)

    def build(kind, must=None):
        from pkm.api.projects.project import Project
        f0 = be.failed
        ctx.event(f"build {kind}")
        try:
            p = Project.load(prj.dir)
            p.attached_environment = env()
            tgt = outdir if out else None
            if kind == "sdist":
                res = [p.build_sdist(tgt)]
            elif kind == "build":
                res = p.build(tgt)
                if len(res) != 2:
                    ctx.note("missing-distribution", f"build() returned {res}")
            else:
                res = [p.build_wheel(tgt, editable=kind == "editable", target_env=p.attached_environment if g.flip() else None)]
            ctx.probe(f"built-{kind}")
        except Exception as e:  # noqa
            ctx.event(f"failed {type(e).__name__}")
            ctx.probe("build-failed")
            if must or (be.failed == f0 and not ctx.fs.fired):
                import traceback
                ctx.note("build-fails", f"{must or 'nothing failed'}: {kind} of {prj.layout} project: "
                         f"{''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]}")
            return
        for r in res:
            try:
                with fs._real_open(r, "rb") as f:
                    b = f.read()
            except OSError as e:
                ctx.note("missing-distribution", f"{kind} returned {r}: {e!r}")
                continue
            if Path(r).parent != outdir:
                ctx.note("misplaced-distribution", f"{kind} returned {r}, not in {outdir}")
            pr = judge_file(str(r), b, gens[-1:], kind == "editable" or (editable_used[0] and sc == "concurrent"))
            if pr:
                ctx.note("broken-distribution-built", f"{kind}: {pr}")

    kinds = [("sdist", 4), ("wheel", 4), ("build", 3)] + ([("editable", 1)] if not external or g.flip() else [])
    rounds = g.int(1, 3)
    for rd in range(rounds):
        if rd and g.flip(0.5):
            prj.mutate()
            gens.append(Generation(prj))
        nth = g.int(2, 3) if sc == "concurrent" else 1
        plans = [[g.weighted(kinds) for _ in range(g.int(1, 2))] for _ in range(nth)]
        editable_used[0] |= any("editable" in p for p in plans)
        be.budget = g.weighted([(0, 2), (1, 3), (3, 1)]) if external else 0
        be.kinds = [k for k in FAILS if g.flip(0.5)] or ["raise"]

        def main():
            def caller(i):
                for k in plans[i]:
                    if not ctx.noted:
                        build(k)
            ctx.threads([lambda i=i: caller(i) for i in range(nth)])

        wide = g.flip(0.4)
        only = (lambda p, k: p.startswith(("tmp", "work"))) if wide else (lambda p, k: p.startswith("work"))
        hi = 80 if wide else 14
        if sc == "error" or (sc == "external" and g.flip(0.3)):
            ctx.fs.arm(g.int(1, hi), "error", g.int(0, 11), sticky=g.flip(0.2), only=only)
        elif sc == "crash":
            ctx.fs.arm(g.int(1, hi), "crash", g.int(0, 11), only=only)
        st, v = ctx.proc(main, f"pkm{rd}")
        ctx.fs.disarm()
        if st == "exc":
            raise v
        if st == "crash":
            ctx.probe("crashed")
        judge_dir(f"after round {rd} ({st}, fault {ctx.fs.fired})")
        if ctx.noted:
            return
    be.budget = 0

    def final():
        for k in ("sdist", "wheel"):
            build(k, "faults stopped, restarted process")
        if ctx.noted:
            return
        # what was built installs to the project's own files
        from pkm.api.projects.project import Project
        from pkm.api.distributions.wheel_distribution import WheelDistribution
        from pkm.api.packages.package import PackageDescriptor
        p = Project.load(prj.dir)
        whl = [n for n in sorted(os.listdir(outdir)) if n.endswith(".whl")]
        if not external:
            # the source distribution builds into the same wheel
            sd = [n for n in os.listdir(outdir) if n.endswith(".tar.gz")][0]
            from pkm.utils.archives import extract_archive
            ex = ctx.root / "work/extracted"
            ex.mkdir()
            extract_archive(outdir / sd, ex)
            p2 = Project.load(next(ex.iterdir()))
            try:
                w2 = p2.build_wheel(ctx.root / "work/from-sdist", target_env=load_env(ep))
            except Exception as e:  # noqa
                ctx.note("sdist-does-not-build", f"{e!r}")
                return
            with fs._real_open(w2, "rb") as f:
                pr = gens[-1].check_wheel(w2.name, f.read())
            if pr:
                ctx.note("sdist-builds-differently", pr)
        before = snap(ep)
        try:
            WheelDistribution(p.descriptor, outdir / whl[0]).install_to(load_env(ep).installation_target)
        except Exception as e:  # noqa
            ctx.note("built-wheel-does-not-install", f"{whl[0]}: {e!r}")
            return
        tree = snap(ep)
        site = f"{PYDIR}/site-packages/"
        got = {r[len(site):]: t[2] for r, t in tree.items() if r.startswith(site) and t[0] == "f" and not r[len(site):].split("/")[0].endswith(".dist-info")
               and not is_pyc(r) and r not in before}
        if got != gens[-1].files:
            ctx.note("installs-other-files", f"missing {sorted(set(gens[-1].files) - set(got))}, added {sorted(set(got) - set(gens[-1].files))}")
    st, v = ctx.proc(final, "restart")
    if st == "exc":
        raise v
    judge_dir("at the end")
