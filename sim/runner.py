"""Executes single simulated runs in forked children of a preloaded process.

run_one(world, spec) -> result dict.  A run is a pure function of (code under test, world, scenario, hash seed, root path,
decisions).  The child talks back over a pipe and leaves with os._exit.
"""
import ctypes
import gc
import hashlib
import importlib
import json
import os
import pkgutil
import random
import select
import shutil
import signal
import sys
import time
import traceback
from pathlib import Path

from . import core, fs, net
from .decide import Decider, Gen

REPO = os.environ.get("PKMSIM_REPO", "/repo")
_w_rmtree = shutil.rmtree

PRELOAD_SKIP = ("pkm.launchers.src",)


class Violation(BaseException):
    def __init__(self, sig, detail):
        super().__init__(sig, detail)
        self.sig = sig
        self.detail = detail


def preload():
    """import everything the code under test may import lazily, with the simulation's seams installed"""
    for p in (f"{REPO}/pkm/src", f"{REPO}/pkm-cli/src"):
        sys.path.insert(0, p)
    core.install()
    fs.install()
    net.install()
    import threading
    real_start = threading.Thread.start
    threading.Thread.start = lambda self: None  # display refreshers and the like never run
    import pkm  # noqa
    assert os.path.realpath(pkm.__path__[0]).startswith(os.path.realpath(REPO)), pkm.__path__
    import pkm_cli  # noqa
    failed = []
    for pk in (pkm,):
        for m in pkgutil.walk_packages(pk.__path__, pk.__name__ + "."):
            if m.name.startswith(PRELOAD_SKIP):
                continue
            try:
                importlib.import_module(m.name)
            except BaseException as e:  # noqa
                failed.append((m.name, repr(e)))
    for n in ("pkm_cli.auth.publish_auth_store",):
        try:
            importlib.import_module(n)
        except BaseException as e:  # noqa
            failed.append((n, repr(e)))
    for n in ("encodings.idna", "encodings.utf_8_sig", "stringprep", "_strptime", "email.feedparser", "email.parser", "zipfile",
              "tarfile", "py_compile", "tempfile", "gzip", "bz2", "lzma", "html.parser", "secrets", "importlib.util",
              "configparser", "csv", "inspect", "multiprocessing.connection", "sysconfig", "venv", "ensurepip",
              "concurrent.futures.thread", "socket", "http.client", "http.cookies", "ssl", "encodings.cp437",
              "encodings.latin_1", "encodings.ascii", "zoneinfo", "platform", "sqlite3", "difflib", "pickle", "uuid",
              "asyncio", "calendar", "fnmatch", "glob", "linecache", "token", "tokenize", "traceback", "unicodedata",
              "email.mime.multipart", "stat", "base64", "hmac", "getpass", "webbrowser", "subprocess", "shlex"):
        try:
            importlib.import_module(n)
        except ImportError:
            pass
    threading.Thread.start = real_start
    _find_cached_properties()
    return failed


def _raised_by_pkm(e):
    """an operation that the world performs unconditionally raised: True if the error comes out of the code under test"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith((f"{REPO}/pkm/", f"{REPO}/pkm-cli/")):
            return True
        tb = tb.tb_next
    return False


class Ctx:
    """what a world sees"""

    def __init__(self, sim, dec, root, spec):
        self.sim = sim
        self.dec = dec
        self.gen = Gen(dec, "W")
        self.root = Path(root)
        self.spec = spec
        self.scenario = spec["scenario"]
        self.fs = None
        self.net = None
        self.noted = None
        self.harness = []

    def event(self, text):
        self.sim.event(text)

    def probe(self, key):
        self.sim.probe(key)

    def fail(self, sig, detail=""):
        raise Violation(sig, str(detail)[:4000])

    def note(self, sig, detail=""):
        """record a violation without unwinding the current task"""
        self.event(f"NOTE {sig}")
        if self.noted is None:
            self.noted = (sig, str(detail)[:4000])

    def threads(self, fns, timeout=None):
        """runs the functions as threads of the current process; unexpected exceptions are harness problems"""
        import threading
        ths = []
        for i, f in enumerate(fns):
            def body(f=f):
                try:
                    f()
                except Violation as v:
                    self.note(v.sig, v.detail)
                except core.HarnessError:
                    self.harness.append(traceback.format_exc())
                except Exception as e:  # noqa
                    if _raised_by_pkm(e):
                        self.note(f"unexpected-error:{type(e).__name__}", traceback.format_exc()[-3000:])
                    else:
                        self.harness.append(traceback.format_exc())
            ths.append(threading.Thread(target=body, name=f"caller{i}", daemon=True))
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    def check(self, cond, sig, detail=""):
        if not cond:
            self.fail(sig, detail() if callable(detail) else detail)

    def attach_fs(self):
        self.fs = fs.attach(str(self.root))
        return self.fs

    def attach_net(self, handler):
        self.net = net.attach(handler)
        return self.net

    def proc(self, fn, name="proc"):
        """runs fn as one process of the system under test"""
        return self.sim.run_process(fn, name)


def _patch_random(seed):
    r = random.Random(f"os.urandom/{seed}")
    os.urandom = lambda n: r.randbytes(n)
    import secrets
    import uuid
    random.seed(f"global/{seed}")
    import tempfile
    tempfile._name_sequence = None

    class Names:
        def __init__(self):
            self.n = 0

        def __iter__(self):
            return self

        def __next__(self):
            self.n += 1
            return f"t{self.n:05d}"

    tempfile._name_sequence = Names()
    secrets.token_bytes = lambda n=32: r.randbytes(n)
    secrets.token_hex = lambda n=32: r.randbytes(n).hex()
    uuid.uuid4 = lambda: uuid.UUID(bytes=r.randbytes(16), version=4)
    os.getpid = lambda: 4242
    os.cpu_count = lambda: 4
    import _thread  # noqa


_CACHED_PROPERTIES = []


def _process_reset(root):
    """module level state of the code under test as a newly started process has it"""
    from pkm.api import pkm as pkm_mod
    p = pkm_mod.pkm
    p.__dict__.clear()
    pkm_mod.pkm_home = Path(root) / "xdg/pkm"
    p.__init__(pkm_mod.pkm_home)
    for cp in _CACHED_PROPERTIES:
        for v in vars(cp).values():
            if isinstance(v, dict):
                v.clear()
    from pkm.api.environments import environment
    environment._DBG_ACTIVATED.clear()


def _find_cached_properties():
    from pkm.utils.properties import cached_property
    for o in gc.get_objects():
        if type(o) is cached_property:
            _CACHED_PROPERTIES.append(o)


def _child(world, spec, wfd):
    gc.disable()
    sys.setswitchinterval(1000)
    root = spec["root"]
    _w_rmtree(root, ignore_errors=True)
    os.makedirs(f"{root}/tmp")
    os.makedirs(f"{root}/xdg")
    os.chdir(root)
    os.environ["XDG_DATA_HOME"] = f"{root}/xdg"
    os.environ["HOME"] = f"{root}/home"
    os.environ["TMPDIR"] = f"{root}/tmp"
    import tempfile
    tempfile.tempdir = f"{root}/tmp"
    dn = os.open("/dev/null", os.O_RDWR)
    if not os.environ.get("PKMSIM_STDERR"):
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    _patch_random("fixed")
    dec = Decider(spec.get("seed"), spec.get("decisions"))
    sim = core.Sim(dec, spec.get("max_steps", 300_000))
    core.activate(sim)
    sim.data["dirorder"] = dec.choose("C", 3)
    if getattr(world, "LINE_PREEMPT", True):
        core.enable_line_preemption(tuple(f"{REPO}/{p}" for p in getattr(world, "LINE_PREFIXES", ("pkm/src", "pkm-cli/src"))))
    sim.process_reset = lambda: _process_reset(root)
    ctx = Ctx(sim, dec, root, spec)
    fs.GUARD = root
    res = {"status": "ok"}
    t0 = core.real_monotonic()
    try:
        world.run(ctx)
        if ctx.noted:
            raise Violation(*ctx.noted)
        if ctx.harness:
            raise core.HarnessError(ctx.harness[0])
    except Violation as v:
        res = {"status": "violation", "sig": v.sig, "detail": v.detail}
    except core.SimAbort as a:
        # worlds that expect progress translate it, otherwise it is a loss of progress of the run itself
        res = {"status": "violation", "sig": f"no-progress:{a.kind}", "detail": f"{a.kind}: {a.detail}"[:3000]}
        if not getattr(world, "ABORT_IS_VIOLATION", True):
            res["status"] = "harness"
    except BaseException as e:  # noqa
        if isinstance(e, Exception) and not isinstance(e, core.HarnessError) and _raised_by_pkm(e):
            res = {"status": "violation", "sig": f"unexpected-error:{type(e).__name__}", "detail": traceback.format_exc()[-4000:]}
        else:
            res = {"status": "harness", "sig": f"{type(e).__name__}", "detail": traceback.format_exc()[-4000:]}
    if fs.ESCAPES:
        k, p = fs.ESCAPES[0]
        res = {"status": "violation", "sig": f"outside-scratch:{k}", "detail": f"the code under test tried {fs.ESCAPES[:5]}; {res}"[:4000]}
    sim.active = False
    core.disable_line_preemption()
    res.update(steps=sim.steps, switches=sim.switches, simtime=sim.now - core.EPOCH, stats=sim.stats, probes=sim.probes,
               sched=sim.sched_hash.hexdigest()[:16], log=sim.log_hash.hexdigest()[:16], nlog=sim.nlog,
               wall=core.real_monotonic() - t0)
    if spec.get("want_log") or res["status"] != "ok":
        res["decisions"] = dec.recorded
        res["trace"] = sim.log[-400:]
    else:
        res["ndec"] = sum(len(v) for v in dec.recorded.values())
    data = json.dumps(res, default=str).encode()
    fs.detach()
    w = fs.real["write"]
    off = 0
    while off < len(data):
        off += w(wfd, data[off:off + 65536])
    try:
        os.chdir("/")
        if not spec.get("keep"):
            _w_rmtree(root, ignore_errors=True)
    finally:
        os._exit(0)


_PRCTL = getattr(ctypes.CDLL(None), "prctl", None)


def _die_with_parent():
    if _PRCTL:
        _PRCTL(1, signal.SIGKILL)


def run_one(world, spec, timeout=90.0):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            _die_with_parent()
            os.close(r)
            _child(world, spec, w)
        except BaseException:  # noqa
            traceback.print_exc()
        os._exit(3)
    os.close(w)
    chunks = []
    end = core.real_monotonic() + timeout
    timed_out = False
    while True:
        rem = end - core.real_monotonic()
        if rem <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], rem)
        if not rl:
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        chunks.append(d)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if timed_out:
        _w_rmtree(spec["root"], ignore_errors=True)
        # the simulator counts steps, code that loops without reaching any simulated operation is only seen this way
        # (a run takes well below a second)
        return {"status": "violation", "sig": "no-progress:wall-timeout", "detail": f"run exceeded {timeout}s of wall time"}
    data = b"".join(chunks)
    if not data:
        return {"status": "harness", "sig": "no-result", "detail": "the run's process died without a result"}
    return json.loads(data)


def load_world(pid):
    return importlib.import_module(f"worlds.{pid.lower()}")


def make_spec(world, pid, tier, base_seed, idx, base):
    scen = world.SCENARIOS
    # interleave scenarios by weight
    tot = sum(w for _, w in scen)
    k = (idx * 7919) % tot
    for name, w in scen:
        k -= w
        if k < 0:
            break
    return {"property": pid, "scenario": name, "seed": f"{pid}/{base_seed}/{idx}", "idx": idx, "hashseed": idx % 4,
            "root": f"{base}/r{idx % 64:02d}", "max_steps": getattr(world, "MAX_STEPS", 300_000)}


# ----------------------------------------------------------------------------------------------- minimisation

def flat(decs):
    return [(s, int(i), v) for s, d in decs.items() for i, v in d.items()]


def unflat(items):
    out = {}
    for s, i, v in items:
        out.setdefault(s, {})[i] = v
    return out


def minimise(world, spec, res, budget_s=45.0, log=lambda *_: None):
    """ddmin over the non-default decisions; every candidate is a complete re-execution"""
    sig = res["sig"]
    end = core.real_monotonic() + budget_s
    tries = 0

    def test(items):
        nonlocal tries
        tries += 1
        sp = dict(spec, decisions=unflat(items))
        r = run_one(world, sp, 60)
        return r if r["status"] == "violation" and r["sig"] == sig else None

    items = flat(res["decisions"])
    best = test(items)
    if best is None:
        return spec, res, {"reproduced": False, "tries": tries}
    n0 = len(items)
    # drop whole streams first
    for s in sorted({s for s, _, _ in items}):
        c = [x for x in items if x[0] != s]
        if core.real_monotonic() < end:
            r = test(c)
            if r:
                items, best = c, r
    n = 2
    while len(items) >= 1 and core.real_monotonic() < end:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and core.real_monotonic() < end:
            c = items[:i] + items[i + size:]
            r = test(c)
            if r:
                items, best = c, r
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    # shrink values
    for j in range(len(items)):
        if core.real_monotonic() > end:
            break
        s, i, v = items[j]
        if v > 1:
            for nv in (1, v // 2):
                if nv and nv < v:
                    c = items[:j] + [(s, i, nv)] + items[j + 1:]
                    r = test(c)
                    if r:
                        items, best = c, r
                        break
    return dict(spec, decisions=unflat(items)), best, {"reproduced": True, "tries": tries, "decisions_before": n0,
                                                       "decisions_after": len(items)}
