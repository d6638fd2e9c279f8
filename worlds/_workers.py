"""Worker processes as simulated processes: Popen of the pool's worker script over simulated pipes (finite capacity, short reads)."""
import io
import os
import runpy
import sys
import subprocess
import types

from sim import core

CAPACITY = 65536


class Pipe:
    def __init__(self, world, owner):
        self.w = world
        self.owner = owner  # the simulated worker
        self.buf = bytearray()
        self.write_closed = False
        self.read_closed = False
        self.waiters = []

    def _wake(self):
        w, self.waiters = self.waiters, []
        for t in w:
            core.SIM._wake(t)

    def _wait(self, why):
        t = core.SIM.me()
        self.waiters.append(t)
        core.SIM.block(why)

    def read(self, n):
        self.w.op(self.owner)
        while not self.buf:
            if self.write_closed:
                return b""
            self._wait("pipe read")
        b = bytes(self.buf[:n])
        del self.buf[:n]
        self._wake()
        return b

    def write(self, b):
        b = bytes(b)
        n = len(b)
        while b:
            self.w.op(self.owner)
            while len(self.buf) >= CAPACITY and not self.read_closed:
                self._wait("pipe write")
            if self.read_closed:
                raise BrokenPipeError(32, "Broken pipe")
            k = CAPACITY - len(self.buf)
            self.buf += b[:k]
            b = b[k:]
            self._wake()
        return n

    def close(self, end):
        if end == "r":
            self.read_closed = True
        else:
            self.write_closed = True
        self._wake()


class Raw(io.RawIOBase):
    def __init__(self, pipe, end):
        self._p, self._end = pipe, end

    def readable(self):
        return self._end == "r"

    def writable(self):
        return self._end == "w"

    def readinto(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        d = self._p.read(len(b))
        memoryview(b).cast("B")[:len(d)] = d
        return len(d)

    def write(self, b):
        if self.closed:
            raise ValueError("write to closed file")
        return self._p.write(b)

    def close(self):
        if not self.closed:
            super().close()
            self._p.close(self._end)


class Reader(io.BufferedIOBase):
    """as io.BufferedReader, without locks of its own"""

    def __init__(self, raw):
        self.raw = raw
        self._b = b""

    def readable(self):
        return True

    def _more(self):
        d = self.raw._p.read(8192)
        self._b += d
        return d

    def read(self, n=-1):
        if self.raw.closed:
            raise ValueError("read of closed file")
        if n is None or n < 0:
            while self._more():
                pass
            n = len(self._b)
        if len(self._b) < n:
            parts, have = [self._b], len(self._b)
            self._b = b""
            while have < n:
                d = self.raw._p.read(max(8192, n - have))
                if not d:
                    break
                parts.append(d)
                have += len(d)
            self._b = b"".join(parts)
        r, self._b = self._b[:n], self._b[n:]
        return r

    def read1(self, n=-1):
        if not self._b:
            self._more()
        n = len(self._b) if n is None or n < 0 else n
        r, self._b = self._b[:n], self._b[n:]
        return r

    def readline(self, limit=-1):
        while b"\n" not in self._b:
            if not self._more():
                break
        i = self._b.find(b"\n") + 1 or len(self._b)
        r, self._b = self._b[:i], self._b[i:]
        return r

    def close(self):
        super().close()
        self.raw.close()


class Writer(io.BufferedIOBase):
    def __init__(self, raw):
        self.raw = raw
        self._b = b""

    def writable(self):
        return True

    def write(self, b):
        if self.raw.closed:
            raise ValueError("write to closed file")
        b = bytes(b)
        self._b += b
        if len(self._b) > 8192:
            self.flush()
        return len(b)

    def flush(self):
        b, self._b = self._b, b""
        if b and not self.raw.closed:
            self.raw.write(b)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.raw.close()


def file(pipe, end, bufsize):
    r = Raw(pipe, end)
    if bufsize == 0:
        return r
    return Reader(r) if end == "r" else Writer(r)


class Std:
    """sys.stdin/stdout/stderr of the simulated processes"""

    def __init__(self, world, name, real):
        self._w, self._n, self._real = world, name, real
        self.captured = []

    def _target(self):
        t = core.SIM.me() if core.SIM is not None else None
        return t is not None and t.inc is not None and t.inc.__dict__.get("std", {}).get(self._n)

    @property
    def buffer(self):
        t = self._target()
        return t.buffer if t else self._real.buffer

    def write(self, s):
        t = self._target()
        if t:
            return t.write(s)
        if self._w.sink is not None:
            self._w.sink(self._n, s)
        return len(s)

    def flush(self):
        t = self._target()
        if t and hasattr(t, "flush"):
            t.flush()

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    encoding = "utf-8"
    errors = "strict"


class SysProxy(types.ModuleType):
    """the sys module as one simulated process sees it"""

    def __init__(self, world):
        super().__init__("sys")
        self.__dict__["_w"] = world

    def __getattr__(self, n):
        if n in ("stdin", "stdout", "stderr"):
            t = core.SIM.me()
            s = t is not None and t.inc is not None and t.inc.__dict__.get("std", {}).get(n)
            return s or self._w.std[n]
        return getattr(sys, n)

    def __setattr__(self, n, v):
        t = core.SIM.me()
        if n in ("stdin", "stdout", "stderr") and t is not None and t.inc is not None and "std" in t.inc.__dict__:
            t.inc.__dict__["std"][n] = v
        elif n in ("stdin", "stdout", "stderr"):
            self._w.std[n] = v
        else:
            setattr(sys, n, v)


class Workers:
    """installs the simulated worker processes"""

    def __init__(self, ctx, other=None):
        self.ctx = ctx
        self.live = []
        self.ops = 0
        self.kill_at = {}  # pipe operation number -> index of the victim
        self.kills = 0
        self.spawns = 0
        self.spawn_fails = set()
        self.spawn_failed = 0
        self.spawn_delay = lambda: 0
        self.sink = None
        self.std = {}
        import pkm.utils.multiproc as mp
        w = self

        class Popen:
            def __init__(self, args, bufsize=-1, stdin=None, stdout=None, stderr=None, **kw):
                w.spawns += 1
                number = w.spawns
                if number > 60:
                    ctx.event("workers are spawned without an end")
                    core.SIM.max_steps = min(core.SIM.max_steps, core.SIM.steps)
                core.SIM.yield_point("spawn")
                if number in w.spawn_fails:
                    w.spawn_failed += 1
                    ctx.sim.count("fault-spawn")
                    ctx.event("spawn fails")
                    raise BlockingIOError(11, "Resource temporarily unavailable (injected)")
                script = [os.fspath(a) for a in args if os.fspath(a).endswith(".py")]
                if not script:
                    raise core.HarnessError(f"unexpected process {args}")
                if d := w.spawn_delay():
                    core.SIM.sleep(d)
                self.args = args
                self.pid = 1000 + number
                self.returncode = None
                self.waiters = []
                p = [Pipe(w, self) for _ in range(3)]
                self.stdin = file(p[0], "w", bufsize) if stdin == subprocess.PIPE else None
                self.stdout = file(p[1], "r", bufsize) if stdout == subprocess.PIPE else None
                self.stderr = file(p[2], "r", bufsize) if stderr == subprocess.PIPE else None
                mine = [(p[0], "r"), (p[1], "w"), (p[2], "w")]
                std = {n: types.SimpleNamespace(buffer=file(q, e, 8192)) for n, (q, e) in zip(("stdin", "stdout", "stderr"), mine)}

                def main():
                    core.SIM.yield_point("worker start")
                    rc = 0
                    try:
                        runpy.run_path(script[0], run_name="__main__")
                    except SystemExit as e:
                        rc = e.code if isinstance(e.code, int) else 1 if e.code else 0
                    except core.HarnessError:
                        raise
                    except BaseException as e:  # noqa
                        ctx.event(f"worker fails {type(e).__name__}: {e}"[:200])
                        rc = 1
                    self.exit_code = rc
                    core.SIM.kill(self.inc, f"exits {rc}")

                self.exit_code = None
                self.dead = False
                w.live.append(self)
                self.inc = core.SIM.start_process(main, f"worker{self.pid - 1000}")
                self.inc.__dict__["std"] = std

                def on_death():
                    self.dead = True
                    w.live.remove(self)
                    for q, e in mine:
                        q.close(e)
                    for t in self.waiters:
                        core.SIM._wake(t)
                    self.waiters = []
                self.inc.on_death.append(on_death)

            def poll(self):
                core.SIM.yield_point("poll")
                if self.dead:
                    self.returncode = -9 if self.exit_code is None else self.exit_code
                return self.returncode

            def wait(self, timeout=None):
                while not self.dead:
                    self.waiters.append(core.SIM.me())
                    if not core.SIM.block("waitpid", timeout):
                        raise subprocess.TimeoutExpired(self.args, timeout)
                return self.poll()

            def kill(self):
                core.SIM.yield_point("kill")
                if not self.dead:
                    core.SIM.kill(self.inc, "KILLED by its owner")
            terminate = kill

            def send_signal(self, sig):
                self.kill()

        subprocess.Popen = Popen
        for name, m in list(sys.modules.items()):
            if name.startswith("pkm.utils.multiproc") and m is not None:
                if hasattr(m, "Popen"):
                    m.Popen = Popen
                if "sys" in vars(m):
                    m.sys = SysProxy(self)
        for n in ("stdin", "stdout", "stderr"):
            self.std[n] = Std(self, n, getattr(sys, n))
            setattr(sys, n, self.std[n])
        self.mp = mp

    def op(self, proc):
        self.ops += 1
        core.SIM.yield_point("pipe")
        if self.ops in self.kill_at:
            self.inject_kill(proc if self.kill_at[self.ops] else None)

    def inject_kill(self, proc=None):
        """a worker dies from outside"""
        live = self.live
        if proc is None or proc.dead:
            if not live:
                return False
            proc = live[self.ctx.gen.int(0, len(live) - 1)]
        self.kills += 1
        self.ctx.sim.count("fault-worker-kill")
        core.SIM.kill(proc.inc, "KILLED from outside")
        return True
