"""Fault-injecting file system seam: every mutating file system operation of the code under test below the run's scratch
root is an operation of the simulated disk that can fail, be cut short, or be the point where the process dies.

The backing store is a real scratch directory (private to the run); a process crash keeps exactly what completed
operations had put there (kill -9 semantics: user-space buffers are lost, the page cache survives).
"""
import builtins
import errno
import io
import os
import shutil
import tempfile
import _io

from . import core

real = {}
ROOT = None
FS = None

ERRNOS = {
    "open-w": [errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EIO],
    "open-r": [errno.EIO, errno.EACCES],
    "write": [errno.ENOSPC, errno.EIO],
    "mkdir": [errno.ENOSPC, errno.EACCES, errno.EIO],
    "unlink": [errno.EACCES, errno.EIO, errno.EBUSY],
    "rmdir": [errno.EACCES, errno.EIO, errno.EBUSY],
    "rename": [errno.EACCES, errno.EIO, errno.ENOSPC],
    "symlink": [errno.ENOSPC, errno.EACCES],
    "link": [errno.ENOSPC, errno.EACCES],
    "chmod": [errno.EPERM, errno.EIO],
    "utime": [errno.EPERM, errno.EIO],
    "pyc": [errno.ENOSPC, errno.EIO],
    "truncate": [errno.EIO],
    "read": [errno.EIO],
}


class SimFS:
    def __init__(self, root):
        self.root = str(root)
        self.pre = self.root + "/"
        self.armed = None  # (op index, fault kind, variant)
        self.ops = 0
        self.counting = False
        self.sticky_full = False
        self.full_now = False
        self.exdev = None  # (prefixA, prefixB)
        self.exempt = ()
        self.skip_kinds = ()
        self.fired = None
        self.only = None  # optional predicate(path, kind)
        self.oplog = []

    def covers(self, path):
        return path == self.root or path.startswith(self.pre)

    # ---- arming ------------------------------------------------------------------------------------------
    def arm(self, at=None, kind="error", variant=0, sticky=False, only=None, skip_kinds=()):
        """fault number `at` (1 based) of the operations from now on; at=0/None: only count"""
        self.ops = 0
        self.counting = True
        self.armed = (at, kind, variant) if at else None
        self.sticky_full = sticky
        self.full_now = False
        self.fired = None
        self.only = only
        self.skip_kinds = skip_kinds
        self.oplog = []

    def disarm(self):
        self.counting = False
        self.armed = None
        self.full_now = False
        n = self.ops
        return n

    def rel(self, p):
        return p[len(self.pre):] if p.startswith(self.pre) else p

    def before(self, kind, path, path2=None):
        """called in front of an operation; may raise or crash; returns an 'after' action"""
        s = core.SIM
        t = s.me()
        if t is None or t.inc is None:
            return None
        if kind not in ("write", "read"):
            s.yield_point("fs")
        if not self.counting or kind in self.skip_kinds:
            return None
        if self.only is not None and not self.only(self.rel(path), kind):
            return None
        self.ops += 1
        s.event(f"fs {kind} {self.rel(path)}" + (f" -> {self.rel(path2)}" if path2 else ""))
        if len(self.oplog) < 3000:
            self.oplog.append((kind, self.rel(path)))
        if kind == "unlink":
            self.full_now = False  # deleting something makes room again
        if self.full_now and kind in ("open-w", "write", "mkdir", "symlink", "pyc"):
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
        if self.armed is not None and self.ops == self.armed[0]:
            at, fkind, variant = self.armed
            self.armed = None
            self.fired = (fkind, kind, self.rel(path))
            s.count(f"fs-{fkind}:{kind}")
            s.event(f"FAULT {fkind} at {kind} {self.rel(path)}")
            if fkind == "error":
                opts = ERRNOS.get(kind, [errno.EIO])
                e = opts[variant % len(opts)]
                if e == errno.ENOSPC and self.sticky_full:
                    self.full_now = True
                if kind == "write":
                    return ("short", e, variant)
                raise OSError(e, os.strerror(e), path)
            if fkind == "crash":
                if kind == "write" and variant % 2 == 1:
                    return ("torn", None, variant)
                if variant % 3 == 2:
                    return ("crash-after", None, variant)
                s.crash_current(f"before {kind} {self.rel(path)}")
        return None

    def after(self, act, kind, path):
        if act is not None and act[0] == "crash-after":
            core.SIM.crash_current(f"after {kind} {self.rel(path)}")


GUARD = None  # the scratch directory of the run: nothing outside of it may be changed by the code under test
ESCAPES = []
_HARMLESS = ("/dev/null", "/dev/stdout", "/dev/stderr", "/dev/tty")


def _escape(kind, p):
    ESCAPES.append((kind, p))
    core.SIM.event(f"OUTSIDE {kind} {p}")
    raise PermissionError(errno.EPERM, "outside of the scratch directory of the simulation", p)


def guard(kind, path):
    """refuses (and reports) an operation of the code under test that would change something outside of the scratch directory"""
    s = core.SIM
    if GUARD is None or s is None or not s.active or not core._in_sim() or isinstance(path, int):
        return
    t = s.me()
    if t is None or t.inc is None:
        return
    try:
        p = os.fsdecode(os.fspath(path))
    except TypeError:
        return
    p = os.path.normpath(os.path.join(os.getcwd(), p))
    if p != GUARD and not p.startswith(GUARD + "/") and p not in _HARMLESS and not p.startswith("/proc/self/fd/"):
        _escape(kind, p)


def _active(path):
    f = FS
    if f is None:
        return None
    s = core.SIM
    if s is None or not s.active:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        p = os.path.join(os.getcwd(), p)
    if f.covers(p):
        if s.me() is None:
            return None
        return f, p
    return None


def _wrap1(name, kind):
    fn = real[name] = getattr(os, name)

    def w(path, *a, **k):
        if k.get("dir_fd") is None:
            guard(kind, path)
            c = _active(path)
            if c:
                f, p = c
                act = f.before(kind, p)
                r = fn(path, *a, **k)
                f.after(act, kind, p)
                return r
        return fn(path, *a, **k)

    w.__name__ = name
    setattr(os, name, w)


def _guard1(name):
    fn = getattr(os, name)

    def w(path, *a, **k):
        guard(name, path)
        return fn(path, *a, **k)

    setattr(os, name, w)


def _guard_process(mod, name):
    fn = getattr(mod, name)

    def w(*a, **k):
        s = core.SIM
        if GUARD is not None and s is not None and s.active and core._in_sim() and (t := s.me()) is not None and t.inc is not None:
            _escape(name, repr(a[:2])[:200])
        return fn(*a, **k)

    setattr(mod, name, w)


def _wrap2(name, kind):
    fn = real[name] = getattr(os, name)

    def w(src, dst, *a, **k):
        guard(kind, dst)
        if kind == "rename":
            guard(kind, src)
        c = _active(dst) or _active(src)
        if c:
            f, p = c
            act = f.before(kind, p, os.fspath(src) if not isinstance(src, bytes) else None)
            if f.exdev and kind == "rename" and k.get("src_dir_fd") is None:
                a_, b_ = f.exdev
                sp, dp = os.fspath(src), os.fspath(dst)
                if sp.startswith(a_) != dp.startswith(a_):
                    core.SIM.count("fs-exdev")
                    raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), src)
            r = fn(src, dst, *a, **k)
            f.after(act, kind, p)
            return r
        return fn(src, dst, *a, **k)

    w.__name__ = name
    setattr(os, name, w)


class SimRaw(io.FileIO):
    _p = None
    _err = None

    def write(self, b):
        c = _active(self._p)
        if c is None:
            return super().write(b)
        f, p = c
        if self._err is not None:  # the rest of a write that was cut short
            e, self._err = self._err, None
            raise OSError(e, os.strerror(e))
        act = f.before("write", p)
        if act is not None and act[0] in ("short", "torn"):
            mv = bytes(b)
            n = len(mv)
            cut = (0, n // 2, max(0, n - 1), n // 3)[(act[2] // 2) % 4]
            if cut:
                super().write(mv[:cut])
            if act[0] == "torn":
                core.SIM.crash_current(f"inside write {f.rel(p)} ({cut}/{n})")
            if cut:
                self._err = act[1]
                return cut
            raise OSError(act[1], os.strerror(act[1]))
        r = super().write(b)
        f.after(act, "write", p)
        return r


_real_open = builtins.open


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    c = None
    if not isinstance(file, int):
        if any(ch in mode for ch in "wax+"):
            guard("open-w", file)
        c = _active(file)
    elif FS is not None and core._in_sim() and core.SIM.me() is not None:
        try:
            p = os.readlink(f"/proc/self/fd/{file}")
            c = _active(p)
        except OSError:
            c = None
    if c is None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    f, p = c
    writing = any(ch in mode for ch in "wax+")
    if not isinstance(file, int):
        act = f.before("open-w" if writing else "open-r", p)
    else:
        act = None
    if not writing:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    raw = SimRaw(file, rawmode, closefd, opener)
    raw._p = p
    f.after(act, "open-w", p)
    updating = "+" in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line_buffering = buffering == 1
    bs = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = io.BufferedRandom(raw, bs) if updating else io.BufferedWriter(raw, bs)
    if binary:
        return buf
    encoding = io.text_encoding(encoding)
    txt = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    txt.mode = mode
    return txt


def _sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if dir_fd is None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
        guard("open-w", path)
        c = _active(path)
        if c:
            f, p = c
            act = f.before("open-w", p)
            r = real["open"](path, flags, mode)
            f.after(act, "open-w", p)
            return r
    return real["open"](path, flags, mode, dir_fd=dir_fd)


def _sim_os_write(fd, data):
    if FS is not None and core._in_sim() and core.SIM.me() is not None:
        try:
            p = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            p = ""
        c = _active(p) if p.startswith("/") else None
        if c:
            f, p = c
            act = f.before("write", p)
            if act is not None and act[0] in ("short", "torn"):
                mv = bytes(data)
                real["write"](fd, mv[: len(mv) // 2])
                if act[0] == "torn":
                    core.SIM.crash_current(f"inside write {f.rel(p)}")
                raise OSError(act[1], os.strerror(act[1]))
            r = real["write"](fd, data)
            f.after(act, "write", p)
            return r
    return real["write"](fd, data)


class _Scan:
    def __init__(self, it):
        self._items = sorted(it, key=lambda e: e.name)
        it.close()
        self._i = iter(self._items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._i)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        self._i = iter(())


def _order(names):
    """directory order is the file system's choice: sorted, rotated/reversed by a per run decision"""
    s = core.SIM
    names = sorted(names)
    m = s.data.get("dirorder", 0) if s is not None and s.active else 0
    if m == 1:
        names.reverse()
    elif m == 2 and len(names) > 1:
        names = names[len(names) // 2:] + names[:len(names) // 2]
    return names


def _sim_listdir(path="."):
    return _order(real["listdir"](path))


def _sim_scandir(path="."):
    sc = _Scan(real["scandir"](path))
    byname = {e.name: e for e in sc._items}
    sc._i = iter([byname[n] for n in _order(byname)])
    return sc


def install():
    for n, k in (("mkdir", "mkdir"), ("rmdir", "rmdir"), ("unlink", "unlink"), ("remove", "unlink"),
                 ("chmod", "chmod"), ("utime", "utime"), ("truncate", "truncate")):
        _wrap1(n, k)
    for n, k in (("rename", "rename"), ("replace", "rename"), ("link", "link")):
        _wrap2(n, k)
    fn = real["symlink"] = os.symlink

    def symlink(src, dst, target_is_directory=False, *, dir_fd=None):
        guard("symlink", dst)
        c = _active(dst) if dir_fd is None else None
        if c:
            f, p = c
            act = f.before("symlink", p)
            r = fn(src, dst, target_is_directory)
            f.after(act, "symlink", p)
            return r
        return fn(src, dst, target_is_directory, dir_fd=dir_fd)

    os.symlink = symlink
    for n in ("chown", "lchown", "mkfifo", "mknod", "setxattr", "removexattr", "chroot", "lchmod", "chflags"):
        if hasattr(os, n):
            _guard1(n)
    import subprocess
    import _posixsubprocess  # noqa
    for mod, names in ((os, ("system", "fork", "forkpty", "execv", "execve", "posix_spawn", "posix_spawnp", "kill", "killpg", "reboot",
                             "popen")), (subprocess, ("_fork_exec",))):
        for n in names:
            if hasattr(mod, n):
                _guard_process(mod, n)
    real["open"] = os.open
    os.open = _sim_os_open
    real["write"] = os.write
    os.write = _sim_os_write
    real["listdir"] = os.listdir
    os.listdir = _sim_listdir
    real["scandir"] = os.scandir
    os.scandir = _sim_scandir
    builtins.open = sim_open
    io.open = sim_open
    _io.open = sim_open
    import tarfile
    tarfile.bltn_open = sim_open
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    os.sendfile = None if not hasattr(os, "sendfile") else os.sendfile
    import py_compile
    rc = real["py_compile"] = py_compile.compile

    def compile_(file, *a, **k):
        c = _active(file)
        if c:
            f, p = c
            act = f.before("pyc", p)
            r = rc(file, *a, **k)
            f.after(act, "pyc", p)
            return r
        return rc(file, *a, **k)

    py_compile.compile = compile_


def attach(root):
    global FS, ROOT
    FS = SimFS(root)
    ROOT = root
    return FS


def detach():
    global FS
    FS = None


# --------------------------------------------------------------------------------------------- snapshots

def snapshot(root, skip=()):
    """complete content of a directory tree: {relative path: ("d",)|("l", target)|("f", mode, bytes)}"""
    root = str(root)
    out = {}
    stack = [("", root)]
    while stack:
        relp, d = stack.pop()
        for n in sorted(real.get("listdir", os.listdir)(d)):
            p = os.path.join(d, n)
            r = f"{relp}/{n}" if relp else n
            if any(r == x or r.startswith(x + "/") for x in skip):
                continue
            if os.path.islink(p):
                out[r] = ("l", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("d",)
                stack.append((r, p))
            else:
                st = os.stat(p)
                with _real_open(p, "rb") as fh:
                    out[r] = ("f", st.st_mode & 0o777, fh.read())
    return out


def diff(a, b, limit=8):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append(f"added {k}")
        elif k not in b:
            out.append(f"lost {k}")
        elif a[k] != b[k]:
            if a[k][0] != b[k][0]:
                out.append(f"changed kind {k}")
            elif a[k][0] == "f" and a[k][2] == b[k][2]:
                out.append(f"changed mode {k} {oct(a[k][1])}->{oct(b[k][1])}")
            else:
                out.append(f"changed {k}")
    return out[:limit] + ([f"... {len(out)} differences"] if len(out) > limit else [])
