"""Wheels, environments and file tree oracles shared by the installation worlds."""
import base64
import csv
import hashlib
import io
import os
import stat
import sys
import types
import zipfile
from pathlib import Path

from sim import core, fs

PYDIR = "lib/python3.12"
BOOKKEEPING = ("RECORD", "INSTALLER", "REQUESTED", "INSTALLATION_MODE")

_INTROSPECTION = {
    "sysconfig": {"paths": {}, "paths_by_scheme": {}, "vars": {"SOABI": "cpython-312-x86_64-linux-gnu", "Py_DEBUG": 0},
                  "platform": "linux-x86_64", "is_python_build": False},
    "sys": {"implementation": {"name": "cpython", "version": [3, 12, 3, "final", 0]}, "version_info": [3, 12, 3, "final", 0],
            "has_totalrefcount": False, "maxunicode": 1114111, "maxsize": 2 ** 63 - 1, "executable": "", "platform": "linux"},
    "importlib": {"machinery": {"EXTENSION_SUFFIXES": [".cpython-312-x86_64-linux-gnu.so", ".abi3.so", ".so"]}},
    "platform": {"system": "Linux", "mac_ver": ["", ["", "", ""], ""], "machine": "x86_64", "python_implementation": "CPython",
                 "release": "5", "version": "1", "python_version_tuple": ["3", "12", "3"], "python_version": "3.12.3"},
    "os": {"conf": {"CS_GNU_LIBC_VERSION": "glibc 2.31"}, "name": "posix", "bits": 64},
    "site": {"packages": []},
}


def introspection_data(paths, exe, **markers):
    import copy
    d = copy.deepcopy(_INTROSPECTION)
    d["sysconfig"]["paths"] = dict(paths)
    d["sys"]["executable"] = str(exe)
    d["platform"].update(markers)
    return d


def make_env(root, name="env", lib64="same", **markers):
    """creates the directories of an environment below root and returns its path"""
    e = Path(root) / name
    if not e.exists():
        (e / PYDIR / "site-packages").mkdir(parents=True)
        (e / "bin").mkdir()
        (e / "bin/python").write_bytes(b"\x7fELF\x02\x01\x01" + bytes(9) + b"\x02\0\x3e\0\x01\0\0\0" + bytes(28) + b"\x40\0" + bytes(10))
        (e / "bin/python").chmod(0o755)
        (e / "pyvenv.cfg").write_text("home = /nowhere\n")
        if lib64 == "link":
            (e / "lib64").symlink_to("lib")
        elif lib64 == "dir":
            (e / "lib64/python3.12/site-packages").mkdir(parents=True)
    return e


def load_env(path, repo=None, lib64="same", zoo=None, **markers):
    """a pkm Environment over that directory (real class, given introspection data)"""
    from pkm.api.environments.environment import Environment
    from pkm.api.environments.environment_introspection import EnvironmentIntrospection
    e = Path(path)
    plat = e / ("lib64" if lib64 != "same" else "lib") / "python3.12/site-packages"
    paths = {"stdlib": f"{e}/{PYDIR}", "platstdlib": f"{e}/{PYDIR}", "platinclude": f"{e}/include/python3.12",
             "purelib": f"{e}/{PYDIR}/site-packages", "platlib": str(plat), "include": f"{e}/include/python3.12",
             "data": str(e), "scripts": f"{e}/bin"}
    intro = EnvironmentIntrospection(introspection_data(paths, e / "bin/python", **markers))

    class SimEnv(Environment):
        @property
        def _introspection(self):
            return intro

        @property
        def attached_repository(self):
            return repo

        def __reduce_ex__(self, protocol):
            return _reload_env, (str(path), lib64, markers)

    SimEnv.__name__ = SimEnv.__qualname__ = "Environment"
    return SimEnv(e, e / "bin/python")


def _reload_env(path, lib64, markers):
    return load_env(path, lib64=lib64, **markers)


def contain_current_env(root):
    """the environment of the running interpreter becomes a scratch one"""
    from pkm.api.environments.environment import Environment
    p = make_env(root, "current-env")
    Environment.current = classmethod(lambda cls, site="user": load_env(p))


# ------------------------------------------------------------------------------------------------ wheels

class Pkg:
    """what a package ships"""

    def __init__(self, name, version, purelib=True):
        self.name = name
        self.version = version
        self.purelib = purelib
        self.files = {}  # relative to the site directory
        self.data = {}  # scheme -> {rel: bytes}
        self.scripts = {}  # entry point name -> (group, ref)
        self.requires = []
        self.extra_info = {}
        self.tamper = None
        self.odd = None  # a member with a name that looks like metadata
        self.dirs = []
        self.modes = {}

    @property
    def norm(self):
        return self.name.replace("-", "_").replace(".", "_")

    @property
    def info_dir(self):
        return f"{self.norm}-{self.version}.dist-info"

    @property
    def filename(self):
        return f"{self.norm}-{self.version}-py3-none-any.whl"

    def descriptor(self):
        from pkm.api.packages.package import PackageDescriptor
        from pkm.api.versions.version import Version
        return PackageDescriptor(self.name, Version.parse(self.version))

    def metadata(self):
        out = [f"Metadata-Version: 2.1", f"Name: {self.name}", f"Version: {self.version}", "Summary: s"]
        out += [f"Requires-Dist: {r}" for r in self.requires]
        return ("\n".join(out) + "\n\nbody\n").encode()

    def entries(self):
        """archive members without RECORD"""
        m = dict(self.files)
        for k, fl in self.data.items():
            for r, c in fl.items():
                m[f"{self.norm}-{self.version}.data/{k}/{r}"] = c
        d = self.info_dir
        m[f"{d}/METADATA"] = self.metadata()
        m[f"{d}/WHEEL"] = (f"Wheel-Version: {self.extra_info.get('wheel', '1.0')}\nGenerator: sim\n"
                           f"Root-Is-Purelib: {'true' if self.purelib else 'false'}\nTag: py3-none-any\n").encode()
        if self.scripts or "ep" in self.extra_info:
            groups = {}
            for n, (g, ref) in self.scripts.items():
                groups.setdefault(g, []).append(f"{n} = {ref}")
            m[f"{d}/entry_points.txt"] = ("\n".join(f"[{g}]\n" + "\n".join(v) + "\n" for g, v in groups.items()) +
                                          self.extra_info.get("ep", "")).encode()
        m[f"{d}/top_level.txt"] = f"{self.norm}\n".encode()
        return m

    def write(self, directory):
        """builds the wheel (harness side, not fault injected)"""
        m = self.entries()
        d = self.info_dir
        rec = io.StringIO()
        w = csv.writer(rec, lineterminator="\n")
        for n, c in m.items():
            if self.tamper == "unsigned" and n == self._victim(m):
                continue
            if self.tamper == "hashless" and n == self._victim(m):
                w.writerow([n, "", len(c)])
                continue
            hv = base64.urlsafe_b64encode(hashlib.sha256(c).digest()).decode().rstrip("=")
            if self.tamper == "case" and n == self._victim(m):
                hv = hv.swapcase()
            w.writerow([n, f"sha256={hv}", len(c)])
        w.writerow([f"{d}/RECORD", "", ""])
        if self.tamper != "no-record":
            m[f"{d}/RECORD"] = rec.getvalue().encode()
        if self.tamper == "content":
            v = self._victim(m)
            m[v] = m[v] + b"# changed\n"
        elif self.tamper == "flip":
            v = self._victim(m)
            c = m[v]
            m[v] = (c[:-1] + bytes([c[-1] ^ 1])) if c else b"x"
        elif self.tamper == "extra":
            m[self.odd + ".py" if self.odd else f"{self.norm}/smuggled.py"] = b"print('hi')\n"
        elif self.tamper == "extra-record":
            m[f"{self.norm}/RECORD" if f"{self.norm}/RECORD" not in m else "RECORD"] = b"a.py,,\n"
        elif self.tamper == "no-info":
            m = {k: v for k, v in m.items() if not k.startswith(d)}
        elif self.tamper == "two-info":
            m["other-1.0.dist-info/METADATA"] = b"Name: other\n"
        p = Path(directory)
        p.mkdir(parents=True, exist_ok=True)
        p = p / self.filename
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, "w") as z:
            for dn in self.dirs:
                zi = zipfile.ZipInfo(dn.rstrip("/") + "/", (2020, 1, 1, 0, 0, 0))
                zi.external_attr = 0o40755 << 16
                z.writestr(zi, b"")
            for n, c in m.items():
                zi = zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0))
                zi.external_attr = (self.modes.get(n, 0o644) | 0o100000) << 16
                z.writestr(zi, c)
        b = bio.getvalue()
        if self.tamper == "truncated":
            b = b[:len(b) * 2 // 3]
        with fs._real_open(p, "wb") as fh:
            fh.write(b)
        return p

    def _victim(self, m):
        c = sorted(n for n in m if not n.startswith(self.info_dir + "/"))
        if self.odd in c:
            return self.odd
        return c[len(self.version) % len(c)]

    # ---- expectation ----------------------------------------------------------------------------------
    def expected(self, env):
        """{path relative to env: ("exact", bytes) | ("script", bytes) | ("ep", group, ref)}, metadata directory excluded"""
        site = "lib" if self.purelib else env_plat(env)
        out = {}
        for r, c in self.files.items():
            out[f"{site}/python3.12/site-packages/{r}"] = ("exact", c)
        for k, fl in self.data.items():
            for r, c in fl.items():
                if k == "scripts":
                    out[f"bin/{r}"] = ("script", c)
                elif k == "purelib":
                    out[f"lib/python3.12/site-packages/{r}"] = ("exact", c)
                elif k == "platlib":
                    out[f"{env_plat(env)}/python3.12/site-packages/{r}"] = ("exact", c)
                elif k == "data":
                    out[r] = ("exact", c)
                else:
                    raise AssertionError(k)
        for n, (g, ref) in self.scripts.items():
            if g in ("console_scripts", "gui_scripts"):
                out[f"bin/{n}"] = ("ep", g, ref)
        return out

    def site_rel(self, env):
        return f"{'lib' if self.purelib else env_plat(env)}/python3.12/site-packages"

    def info_rel(self, env):
        return f"{self.site_rel(env)}/{self.info_dir}"


def env_plat(env):
    return "lib64" if (Path(env) / "lib64").exists() and not (Path(env) / "lib64").is_symlink() else "lib"


def snap(env):
    return fs.snapshot(env)


def is_pyc(p):
    return "/__pycache__/" in "/" + p and p.endswith(".pyc")


def check_launcher(content, interp, ref):
    """runs the launcher script text against stand-in modules; returns an error text or None"""
    first, _, rest = content.decode().partition("\n")
    if first != f"#!{interp}":
        return f"first line is {first!r}"
    mod, _, obj = ref.partition(":")
    obj = obj.partition("[")[0].strip()
    called = []
    parts = obj.split(".")
    leaf = lambda: called.append(1) or 7  # noqa
    val = leaf
    for a in reversed(parts[1:]):
        val = types.SimpleNamespace(**{a: val})
    saved = {}
    names = mod.split(".")
    mods = []
    for i in range(len(names)):
        n = ".".join(names[:i + 1])
        saved[n] = sys.modules.get(n)
        mm = types.ModuleType(n)
        mm.__path__ = []
        sys.modules[n] = mm
        if mods:
            setattr(mods[-1], names[i], mm)
        mods.append(mm)
    setattr(mods[-1], parts[0], val)
    try:
        exec(compile(rest, "launcher", "exec"), {"__name__": "__main__"})
        return "launcher does not exit with the function's result"
    except SystemExit as e:
        if e.code != 7 or called != [1]:
            return f"launcher exit code {e.code!r}, called {called}"
    except BaseException as e:  # noqa
        return f"launcher failed: {e!r}"
    finally:
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
    return None


def verify_files(pkg, env, tree):
    """every shipped file present with the right content; returns problems [(sig, detail)]"""
    env = Path(env)
    interp = f"{env}/bin/python"
    out = []
    for rel, e in pkg.expected(env).items():
        t = tree.get(rel)
        if t is None or t[0] != "f":
            out.append(("file-missing", f"{pkg.name} {pkg.version}: {rel} is {t and t[0]}"))
            continue
        if e[0] == "exact":
            if t[2] != e[1]:
                out.append(("file-content", f"{pkg.name}: {rel}: {t[2][:60]!r} instead of {e[1][:60]!r}"))
        elif e[0] == "script":
            want = e[1]
            first, nl, rest = want.partition(b"\n")
            if first.startswith(b"#!python"):
                w = b"w" if first.startswith(b"#!pythonw") else b""
                want = b"#!" + interp.encode() + w + b"\n" + rest
            if t[2] != want:
                out.append(("script-content", f"{pkg.name}: {rel}: {t[2][:60]!r} instead of {want[:60]!r}"))
            if not t[1] & stat.S_IXUSR:
                out.append(("script-mode", f"{pkg.name}: {rel} mode {oct(t[1])}"))
        else:
            err = check_launcher(t[2], interp, e[2])
            if err:
                out.append(("launcher", f"{pkg.name}: {rel}: {err}"))
            if not t[1] & stat.S_IXUSR:
                out.append(("launcher-mode", f"{pkg.name}: {rel} mode {oct(t[1])}"))
    d = pkg.info_rel(env)
    if tree.get(d, ("",))[0] != "d":
        out.append(("metadata-dir-missing", f"{pkg.name}: {d}"))
        return out
    for n, c in pkg.entries().items():
        if n.startswith(pkg.info_dir + "/"):
            t = tree.get(f"{pkg.site_rel(env)}/{n}")
            if t is None or t[0] != "f" or t[2] != c:
                out.append(("metadata-content", f"{pkg.name}: {n} {'missing' if t is None else 'differs'}"))
    return out


def read_record(pkg, env, tree):
    """[(normalised path relative to env, hash, size)] or None"""
    t = tree.get(pkg.info_rel(env) + "/RECORD")
    if t is None or t[0] != "f":
        return None
    rows = []
    for row in csv.reader(io.StringIO(t[2].decode())):
        p = os.path.normpath(f"{pkg.site_rel(env)}/{row[0]}")
        if p.startswith("lib64/") and tree.get("lib64", ("",))[0] == "l":
            p = p.replace("lib64/", "lib/", 1)
        rows.append((p, row[1] if len(row) > 1 else "", row[2] if len(row) > 2 else ""))
    return rows


def verify_record(pkg, env, tree, written):
    """the record lists exactly the files written, with true hashes and sizes.  written: files added or changed"""
    rows = read_record(pkg, env, tree)
    if rows is None:
        return [("record-missing", f"{pkg.name}: no RECORD")]
    out = []
    seen = {}
    d = pkg.info_rel(env)
    books = {f"{d}/{b}" for b in BOOKKEEPING}
    for p, h, n in rows:
        if p in seen:
            out.append(("record-duplicate", f"{pkg.name}: {p} listed twice"))
        seen[p] = h
        t = tree.get(p)
        if t is None or t[0] == "d":
            out.append(("record-unreal", f"{pkg.name}: {p} is listed but does not exist"))
            continue
        if p in books and not h:
            continue
        c = t[2]
        kind, _, val = h.partition("=")
        try:
            hv = base64.urlsafe_b64encode(hashlib.new(kind, c).digest()).decode().rstrip("=")
        except ValueError:
            hv = None
        if hv != val:
            out.append(("record-hash", f"{pkg.name}: {p} hash {h} is not the hash of the file"))
        if n != str(len(c)):
            out.append(("record-size", f"{pkg.name}: {p} size {n} instead of {len(c)}"))
    exp = set(pkg.expected(env)) | {f"{pkg.site_rel(env)}/{n}" for n in pkg.entries() if n.startswith(pkg.info_dir + "/")}
    must = (exp | set(written)) - books
    for p in sorted(must - set(seen)):
        out.append(("record-incomplete", f"{pkg.name}: {p} was added but is not listed"))
    for p in sorted(set(seen) - must - books):
        out.append(("record-foreign", f"{pkg.name}: {p} is listed but was not added by this installation"))
    return out


def written_files(before, after):
    return {p for p, v in after.items() if v[0] != "d" and before.get(p) != v}


# --------------------------------------------------------------------------------------------- generators

SEG = ["a", "b", "sub", "x"]


def gen_pkg(g, name, version, ns=None, platlib=True, data=True, shared_data=("share/doc", "etc")):
    p = Pkg(name, version, purelib=not (platlib and g.flip(0.25)))
    tag = f"{name}-{version}"

    def blob(k):
        return f"# {tag} {k}\n".encode() + b"x = 1\n" * g.int(0, 3)

    p.files[f"{p.norm}/__init__.py"] = blob("init")
    for i in range(g.int(0, 4)):
        depth = g.int(0, 2)
        d = "/".join([p.norm] + [g.pick(SEG) for _ in range(depth)])
        ext = g.pick([".py", ".py", ".txt", ".bin"])
        c = blob(f"f{i}") if ext != ".bin" else bytes([g.int(0, 255)]) * g.int(0, 70000 if g.flip(0.1) else 40)
        p.files[f"{d}/m{i}{ext}"] = c
    if g.flip(0.35):
        p.files[f"{p.norm}_single.py"] = blob("single")
    if ns and g.flip(0.7):
        p.files[f"{ns}/{p.norm}_part.py"] = blob("ns")
        if g.flip(0.4):
            p.files[f"{ns}/deep/{p.norm}_p.py"] = blob("ns2")
    if g.flip(0.12):
        p.files[f"{p.norm}/broken.py"] = b"def (:\n"
    if g.flip(0.2):  # names that look like those of the metadata, same names at several levels
        p.odd = g.pick([f"{p.norm}/vendored-1.0.dist-info/METADATA", f"{p.norm}/x.dist-info.txt", f"{p.norm}/pkg-info/PKG-INFO", f"{p.norm}/RECORD", f"{p.norm}/sub/RECORD",
                        f"{p.norm}/{p.norm}_single.py", f"{p.norm}/{p.info_dir}/WHEEL"])
        p.files[p.odd] = blob("odd")
        if p.odd.endswith("_single.py"):
            p.files[f"{p.norm}_single.py"] = blob("single")
    if data:
        if g.flip(0.4):
            p.data["scripts"] = {}
            for i in range(g.int(1, 2)):
                sb = g.pick([b"#!python\nprint(1)\n", b"#!pythonw\nx\n", b"#!/bin/sh\necho\n", b"\x7fELF", b"#!python -E\nx\n"])
                p.data["scripts"][f"{p.norm}-script{i}"] = sb
            if g.flip(0.15):
                p.data["scripts"][f"{p.norm}-dir/nested"] = b"#!python\nprint(2)\n"
        if g.flip(0.3):
            p.data["data"] = {f"{g.pick(shared_data)}/{p.norm}/{g.pick(['r.txt', 's/t.txt'])}": blob("data")}
        if g.flip(0.2):
            p.data["purelib"] = {f"{p.norm}_extra/pl.py": blob("pl")}
        if g.flip(0.15):
            p.data["platlib"] = {f"{p.norm}_ext/nat.so": blob("nat")}
    for i in range(g.weighted([(0, 5), (1, 4), (2, 2)])):
        grp = g.weighted([("console_scripts", 5), ("gui_scripts", 2), ("some.plugins", 2)])
        p.scripts[f"{p.norm}-ep{i}"] = (grp, g.pick([f"{p.norm}:main", f"{p.norm}.cli:app.run", f"{p.norm}:main [ex]"]))
    if g.flip(0.2):
        p.dirs.append(g.pick([f"{p.norm}/empty", f"{p.norm}/e1/e2", "otherdir", "od/e2/e3"]))
    return p


def wheel(pkg, path):
    from pkm.api.distributions.wheel_distribution import WheelDistribution
    return WheelDistribution(pkg.descriptor(), path)


def request_of(pkg):
    from pkm.api.dependencies.dependency import Dependency
    return Dependency.parse(f"{pkg.name}=={pkg.version}")


def clutter(g, env, pkg, kinds=None):
    """previous content of the environment, partly at the paths the package will use"""
    env = Path(env)
    done = []

    def put(rel, c=b"user content", mode=0o644):
        p = env / rel
        if any((env / Path(*Path(rel).parts[:i])).is_file() for i in range(1, len(Path(rel).parts))):
            return
        if p.is_symlink() or p.exists():
            return
        p.parent.mkdir(parents=True, exist_ok=True)
        with fs._real_open(p, "wb") as fh:
            fh.write(c)
        p.chmod(mode)
        done.append(rel)

    exp = sorted(pkg.expected(env))
    for rel in exp:
        k = g.weighted([("none", 10), ("file", 4), ("ro", 1), ("link", 1), ("dangling", 1), ("dir", 0.5)])
        if k in ("none",) or (kinds and k not in kinds):
            continue
        p = env / rel
        if k == "file":
            put(rel, b"previous " + rel.encode(), g.pick([0o644, 0o600, 0o755]))
        elif k == "ro":
            put(rel, b"readonly", 0o444)
        elif k == "dir":
            if not p.exists() and not p.is_symlink():
                put(rel + "/inner.txt")
        else:
            if not p.exists() and not p.is_symlink() and p.parent.is_dir():
                if k == "link":
                    put("keep/linked.txt", b"linked content")
                    p.symlink_to(env / "keep/linked.txt")
                else:
                    p.symlink_to(env / "keep/nowhere.txt")
    if g.flip(0.3):
        put(f"{pkg.site_rel(env)}/{pkg.norm}/user_added.py", b"mine")
    if g.flip(0.3):
        put(f"{pkg.site_rel(env)}/{pkg.norm}/__pycache__/__init__.cpython-312.pyc", b"stale")
    if g.flip(0.15):
        put(f"{pkg.info_rel(env)}/METADATA", b"Name: ghost\n")
        if g.flip():
            put(f"{pkg.info_rel(env)}/RECORD", b"ghost.py,,\n")
    if g.flip(0.3):
        (env / pkg.site_rel(env) / "otherdir").mkdir(exist_ok=True, parents=True)
    return done
