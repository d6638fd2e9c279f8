"""Child processes replaced by in-process stand-ins: interpreters answering introspection scripts and executing build scripts."""
import io
import json
import os
import threading
from pathlib import Path

from sim import fs
from worlds._pkgs import PYDIR, introspection_data

cwd_of = threading.local()


def install(handler):
    """handler(args, cwd, env) -> (exit code, stdout bytes, stderr bytes); it may raise OSError as a failing spawn does"""
    import subprocess

    class Popen:
        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, cwd=None, env=None, text=None,
                     universal_newlines=None, encoding=None, errors=None, **kw):
            self.args = args
            self.pid = 777
            rc, out, err = handler([os.fspath(a) for a in args], cwd, env)
            if stderr == subprocess.STDOUT:
                out, err = out + err, None
            istext = text or universal_newlines or encoding

            def wrap(b, where):
                if where != subprocess.PIPE or b is None:
                    return None
                f = io.BytesIO(b)
                return io.TextIOWrapper(f, encoding=encoding or "utf-8", errors=errors) if istext else f
            self.stdin = None
            self.stdout = wrap(out, stdout)
            self.stderr = wrap(err, stderr)
            self._rc = rc
            self.returncode = None

        def poll(self):
            self.returncode = self._rc
            return self._rc

        def wait(self, timeout=None):
            return self.poll()

        def communicate(self, input=None, timeout=None):
            self.poll()
            return (self.stdout and self.stdout.read(), self.stderr and self.stderr.read())

        def kill(self):
            pass
        terminate = kill

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.poll()

    def run(args, *, input=None, capture_output=False, timeout=None, check=False, **kw):
        if capture_output:
            kw["stdout"] = kw["stderr"] = subprocess.PIPE
        p = Popen(args, **kw)
        out, err = p.communicate()
        cp = subprocess.CompletedProcess(args, p.returncode, out, err)
        if check:
            cp.check_returncode()
        return cp

    subprocess.Popen = Popen
    subprocess.run = run
    subprocess.check_output = lambda *a, **k: run(*a, stdout=subprocess.PIPE, check=True, **k).stdout
    subprocess.check_call = lambda *a, **k: run(*a, check=True, **k).returncode
    subprocess.call = lambda *a, **k: run(*a, **k).returncode


def interpreter_data(interp, markers_of):
    """what the introspection script of that interpreter prints.  markers_of: real interpreter path -> marker changes"""
    p = Path(os.path.abspath(interp))
    root = p.parent.parent
    real = os.path.realpath(p)
    paths = {"stdlib": f"{root}/{PYDIR}", "platstdlib": f"{root}/{PYDIR}", "platinclude": f"{root}/include/python3.12",
             "purelib": f"{root}/{PYDIR}/site-packages", "platlib": f"{root}/{PYDIR}/site-packages", "include": f"{root}/include/python3.12",
             "data": str(root), "scripts": f"{root}/bin"}
    d = introspection_data(paths, p, **markers_of(real))
    d["sysconfig"]["paths_by_scheme"] = {"posix_user": paths}
    return d


def interpreter(args, cwd, env, markers_of, run_script):
    """a python interpreter process: introspection, version query, or run_script(interpreter, text) for other scripts"""
    interp = args[0]
    if not os.path.exists(interp):
        raise FileNotFoundError(2, "No such file or directory", interp)
    if args[1] == "-c":
        v = introspection_data({}, interp, **markers_of(os.path.realpath(interp)))["platform"]["python_version"]
        return 0, f"{v}\n{interp}\n".encode(), b""
    with open(args[1]) as f:
        text = f.read()
    if "sysconfig" in text:
        return 0, json.dumps(interpreter_data(interp, markers_of)).encode() + b"\n", b""
    return run_script(interp, text)


def run_build_script(interp, text, cwd, module, log=b""):
    """executes a hook script as the interpreter would; module: (name, object) the importable build backend"""
    import sys
    import types
    name, obj = module

    class Exit(BaseException):
        pass

    def exit_(code=0):
        raise Exit(code)
    m = types.ModuleType(name)
    m.__path__ = []
    m.__getattr__ = lambda a: getattr(obj, a)
    sys.modules[name] = m
    old = getattr(cwd_of, "v", None)
    cwd_of.v = (cwd, interp)
    import traceback
    real_print_exc = traceback.print_exc
    try:
        exec(compile(text, "<hook script>", "exec"), {"__name__": "__main__", "exit": exit_, "quit": exit_})
        return 0, log, b""
    except Exit as e:
        c = e.args[0]
        return (c if isinstance(c, int) else 0 if c is None else 1), log, b""
    except SystemExit as e:
        c = e.code
        return (c if isinstance(c, int) else 0 if c is None else 1), log, b""
    except Exception as e:  # noqa
        return 1, log + repr(e).encode() + b"\n", b""
    finally:
        cwd_of.v = old
        traceback.print_exc = real_print_exc
