"""Deterministic cooperative scheduler over real (parked) Python threads, virtual clock, synchronisation shims.

Only one simulated task runs at any time.  Tasks give up control at intercepted points (locks, queues, sleeps, simulated
I/O, and - through sys.monitoring - every source line of the code under test) and the scheduler's decision stream says
who continues.  `install()` has to be called before the code under test is imported.
"""
import _thread
import builtins
import heapq
import os
import queue
import random
import sys
import threading
import time
import datetime as _dt
import traceback
import hashlib

_real_start_new_thread = _thread.start_new_thread
_real_alloc = _thread.allocate_lock
_get_ident = _thread.get_ident
real_monotonic = time.monotonic
real_time = time.time

EPOCH = 1_700_000_000.0


class SimAbort(BaseException):
    """raised in the supervisor when the run cannot continue (deadlock / step limit)"""

    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    pass


class Task:
    __slots__ = ("id", "name", "gate", "state", "inc", "wake_at", "timed_out", "result", "exc", "joiners", "prio",
                 "ident", "pending", "waiting_on", "daemon", "timer_seq", "thread")

    def __init__(self, id, name, inc):
        self.id = id
        self.name = name
        self.inc = inc
        self.gate = _real_alloc()
        self.gate.acquire()
        self.state = "ready"  # ready | blocked | done | dead
        self.wake_at = None
        self.timed_out = False
        self.result = None
        self.exc = None
        self.joiners = []
        self.prio = 0
        self.ident = None
        self.pending = None
        self.waiting_on = ""
        self.timer_seq = 0
        self.thread = None


class Incarnation:
    """a simulated operating system process of the system under test"""

    def __init__(self, name):
        self.name = name
        self.dead = False
        self.tasks = []
        self.watchers = []
        self.on_death = []


class Sim:
    def __init__(self, decider, max_steps=200_000):
        self.dec = decider
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.now = EPOCH
        self.steps = 0
        self.switches = 0
        self.max_steps = max_steps
        self.timers = []
        self.seq = 0
        self.locks = []
        self.process_reset = None  # gives a new process fresh module state
        self.processes = []
        self.log = []  # event log (strings)
        self.log_hash = hashlib.sha256()
        self.sched_hash = hashlib.sha256()
        self.log_keep = 4000
        self.nlog = 0
        self.stats = {}
        self.probes = {}
        self.ids = 0
        self.p_switch = 0.1
        self.mode = "rand"
        self.line_p = 1.0
        self.active = False
        self.supervisor = None
        self.abort = None
        self.no_preempt = 0
        self.pct_points = set()
        self.data = {}

    # -- bookkeeping ---------------------------------------------------------------------------------------
    def event(self, text):
        t = self.current
        line = f"{self.nlog} t={self.now - EPOCH:.6f} [{t.name if t else '-'}] {text}"
        self.nlog += 1
        self.log_hash.update(line.encode("utf8", "replace"))
        if len(self.log) < self.log_keep:
            self.log.append(line)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def probe(self, key):
        self.probes[key] = self.probes.get(key, 0) + 1

    # -- life cycle ----------------------------------------------------------------------------------------
    def start(self):
        t = self._new_task("supervisor", None)
        t.ident = _get_ident()
        self.by_ident[t.ident] = t
        self.current = t
        self.supervisor = t
        self.active = True

    def configure_schedule(self, gen_stream="C"):
        """swarm: draw the scheduling strategy of this run"""
        d = self.dec
        k = d.choose(gen_stream, 9)
        self.mode = "rand"
        self.p_switch = (0.0, 0.02, 0.08, 0.25, 0.5, 0.04, 0.02, 0.02, 0.02)[k]
        self.line_p = (0, 1, 1, 1, 1, 1, 1, 1, 1)[k]
        if k >= 6:
            self.mode = "stall"
            self.p_stall = (0.002, 0.01, 0.04)[k - 6]
        if k == 5:
            self.mode = "pct"
            self.p_switch = 0.004 * (1 + d.choose(gen_stream, 5))

    def _new_task(self, name, inc):
        self.ids += 1
        t = Task(self.ids, f"{name}", inc)
        t.prio = self.dec.choose("P", 1000) if self.mode == "pct" else 0
        self.tasks.append(t)
        if inc is not None:
            inc.tasks.append(t)
        return t

    def spawn(self, fn, name="task", inc="inherit"):
        if inc == "inherit":
            inc = self.current.inc if self.current else None
        t = self._new_task(name, inc)

        def body():
            t.ident = _get_ident()
            self.by_ident[t.ident] = t
            t.gate.acquire()
            threading._active.pop(t.ident, None)  # a finished task may have left its dummy thread under the same identifier
            try:
                if t.pending is None:
                    t.result = fn()
            except BaseException as e:  # noqa
                t.exc = e
            self._finish(t)

        _real_start_new_thread(body, ())
        return t

    def _finish(self, t):
        t.state = "done"
        for j in t.joiners:
            self._wake(j)
        t.joiners = []
        if t.inc is not None:
            for f in list(t.inc.watchers):
                f(t)
        nxt = self._pick_next(t)
        if nxt is not None:
            self.current = nxt
            self.switches += 1
            nxt.gate.release()

    def me(self):
        t = self.by_ident.get(_get_ident())
        return t if t is not None and t is self.current else None

    # -- scheduling ----------------------------------------------------------------------------------------
    def _runnable(self):
        return [t for t in self.tasks if t.state == "ready"]

    def _fire_timers(self):
        while self.timers and self.timers[0][0] <= self.now:
            at, seq, t = heapq.heappop(self.timers)
            if t.state == "blocked" and t.wake_at is not None and t.timer_seq == seq:
                t.timed_out = True
                t.wake_at = None
                t.state = "ready"

    def _pick_next(self, cur):
        """cur cannot continue; returns the next task or handles deadlock"""
        while True:
            ready = self._runnable()
            if ready:
                if len(ready) == 1:
                    return ready[0]
                if self.mode == "pct":
                    k = self.dec.draw("S", len(ready), lambda r: max(range(len(ready)), key=lambda i: ready[i].prio))
                else:
                    k = self.dec.choose("S", len(ready))
                self.sched_hash.update(b"%d" % ready[k].id)
                return ready[k]
            # advance the clock
            nxt = None
            while self.timers:
                at, seq, t = self.timers[0]
                if t.state == "blocked" and t.wake_at is not None and t.timer_seq == seq:
                    nxt = at
                    break
                heapq.heappop(self.timers)
            if nxt is None:
                # deadlock: hand control to the supervisor with an abort
                sup = self.supervisor
                if sup.state == "blocked":
                    blocked = [f"{t.name} waiting on {t.waiting_on}" for t in self.tasks if t.state == "blocked"
                               and t is not sup]
                    self.abort = SimAbort("deadlock", blocked)
                    self.event("DEADLOCK " + "; ".join(blocked))
                    sup.state = "ready"
                    sup.pending = self.abort
                    return sup
                return None
            if nxt > self.now:
                self.now = nxt
            self._fire_timers()

    def _switch_to(self, cur, nxt):
        if nxt is cur:
            return
        self.current = nxt
        self.switches += 1
        nxt.gate.release()
        cur.gate.acquire()
        # resumed
        self._check(cur)

    def _check(self, t):
        if t.pending is not None:
            p, t.pending = t.pending, None
            raise p

    def _step(self, t):
        self.steps += 1
        if self.steps > self.max_steps and self.abort is None:
            self.abort = SimAbort("steps", [f"{x.name}:{x.state}:{x.waiting_on}" for x in self.tasks if x.state != "done"
                                            and x.state != "dead"])
            sup = self.supervisor
            if t is sup:
                raise self.abort
            sup.pending = self.abort
            sup.state = "ready"
            # park everybody else for good
            for x in self.tasks:
                if x is not sup and x.state in ("ready", "blocked"):
                    x.state = "dead"
            self._park_forever(t, sup)

    def _park_forever(self, cur, nxt):
        self.current = nxt
        nxt.gate.release()
        while True:
            cur.gate.acquire()

    def yield_point(self, why=""):
        t = self.me()
        if t is None or not self.active:
            return
        self.now += 1e-6
        self._step(t)
        if self.timers and self.timers[0][0] <= self.now:
            self._fire_timers()
        if self.no_preempt:
            return
        if len(self.tasks) < 2:
            return
        if self.mode == "stall" and len(self.tasks) > 2:
            # a stalled task: everybody else goes on for a while
            d = self.dec.rare("T", 5, self.p_stall)
            if d:
                self.sched_hash.update(b"s%d:%d" % (t.id, self.steps))
                self.block("stalled", (0, 0.0003, 0.002, 0.02, 1.0)[d])
                return
        others = [x for x in self.tasks if x.state == "ready" and x is not t]
        if not others:
            return
        n = len(others) + 1
        if self.mode == "pct":
            def f(r):
                if r.random() < self.p_switch:
                    t.prio = -self.steps
                best = max(range(len(others)), key=lambda i: others[i].prio)
                return best + 1 if others[best].prio > t.prio else 0
            k = self.dec.draw("S", n, f)
        else:
            k = self.dec.rare("S", n, self.p_switch)
        if k:
            o = others[k - 1]
            self.sched_hash.update(b"%d:%d" % (o.id, self.steps))
            self._switch_to(t, o)

    def block(self, why, timeout=None):
        """block the current task until woken; returns False on timeout"""
        t = self.me()
        if t is None:
            raise HarnessError(f"blocking outside of the simulation: {why}")
        self._step(t)
        t.state = "blocked"
        t.waiting_on = why
        t.timed_out = False
        if timeout is not None:
            t.wake_at = self.now + max(0.0, timeout)
            self.seq += 1
            t.timer_seq = self.seq
            heapq.heappush(self.timers, (t.wake_at, self.seq, t))
        else:
            t.wake_at = None
        nxt = self._pick_next(t)
        if nxt is None:
            raise HarnessError("nothing to run")
        if nxt is not t:
            self._switch_to(t, nxt)
        else:
            self._check(t)
        t.waiting_on = ""
        return not t.timed_out

    def _wake(self, t):
        if t.state == "blocked":
            t.state = "ready"
            t.wake_at = None

    def sleep(self, secs):
        if secs <= 0:
            self.yield_point("sleep0")
        else:
            self.block(f"sleep({secs})", secs)

    def join(self, task, timeout=None):
        end = None if timeout is None else self.now + timeout
        while task.state not in ("done", "dead"):
            me = self.me()
            task.joiners.append(me)
            rem = None if end is None else end - self.now
            if rem is not None and rem <= 0:
                return False
            self.block(f"join {task.name}", rem)
        return True

    # -- processes -----------------------------------------------------------------------------------------
    def start_process(self, fn, name):
        if self.process_reset is not None and not any(not i.dead for i in self.processes):
            self.process_reset()
        inc = Incarnation(name)
        self.processes.append(inc)
        t = self.spawn(fn, name, inc)
        inc.main = t
        return inc

    def kill(self, inc, why="killed"):
        """the process dies now: its tasks never run again, nothing they would do later happens"""
        if inc.dead:
            return
        inc.dead = True
        self.event(f"PROCESS {inc.name} {why}")
        me = self.me()
        for t in inc.tasks:
            if t.state in ("ready", "blocked"):
                if t is not me:
                    t.state = "dead"
                for j in t.joiners:
                    self._wake(j)
        for lk in self.locks:
            o = lk._owner
            if o is not None and o.inc is inc:
                lk._force_release()
        for f in list(inc.on_death):
            f()
        for w in list(inc.watchers):
            w(None)
        if me is not None and me.inc is inc:
            me.state = "dead"
            nxt = self._pick_next(me)
            if nxt is None:
                raise HarnessError("nothing to run after a crash")
            self._park_forever(me, nxt)

    def crash_current(self, why):
        t = self.me()
        if t is None or t.inc is None:
            raise HarnessError("crash requested outside of a process")
        self.kill(t.inc, f"CRASH {why}")

    def wait_process(self, inc):
        """returns ("ok", value) | ("exc", exception) | ("crash", None)"""
        me = self.me()
        while not inc.dead and inc.main.state not in ("done", "dead"):
            def w(_t, me=me):
                self._wake(me)
            inc.watchers.append(w)
            self.block(f"process {inc.name}")
            inc.watchers.remove(w)
        if inc.dead and inc.main.state != "done":
            return "crash", None
        if inc.main.exc is not None:
            return "exc", inc.main.exc
        return "ok", inc.main.result

    def run_process(self, fn, name="proc", end=True):
        inc = self.start_process(fn, name)
        r = self.wait_process(inc)
        if end:
            self.kill(inc, "ends")
        return r


SIM = None  # the active simulation


def sim():
    return SIM


def activate(s):
    global SIM
    SIM = s
    s.start()


def deactivate():
    global SIM
    if SIM is not None:
        SIM.active = False


# ------------------------------------------------------------------------------------------ primitives shims

class SimLock:
    def __init__(self):
        self._locked = False
        self._owner = None
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = SIM
        t = s.me() if s is not None and s.active else None
        if t is None:
            if not self._locked:
                self._locked = True
                self._owner = None
                return True
            if not blocking:
                return False
            raise HarnessError("contended lock outside of the simulation")
        s.yield_point("lock")
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while self._locked:
            if not blocking:
                return False
            rem = None if end is None else end - s.now
            if rem is not None and rem <= 0:
                return False
            self._waiters.append(t)
            s.block("lock", rem)
            if t in self._waiters:
                self._waiters.remove(t)
        self._locked = True
        self._owner = t
        s.locks.append(self)
        return True

    def _drop(self):
        self._locked = False
        self._owner = None
        s = SIM
        if s is not None:
            try:
                s.locks.remove(self)
            except ValueError:
                pass
            w, self._waiters = self._waiters, []
            for t in w:
                s._wake(t)

    def _force_release(self):
        self._locked = False
        self._owner = None
        self._waiters = [t for t in self._waiters if t.state != "dead"]
        for t in self._waiters:
            SIM._wake(t)
        SIM.locks = [x for x in SIM.locks if x is not self]

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._drop()
        s = SIM
        if s is not None and s.active:
            s.yield_point("unlock")

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self.__init__()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._owner = None
        self._who = None
        self._count = 0
        self._waiters = []

    def _me(self):
        s = SIM
        t = s.me() if s is not None and s.active else None
        return t

    def acquire(self, blocking=True, timeout=-1):
        s = SIM
        t = self._me()
        who = t.id if t is not None else ("ext", _get_ident())
        if self._count and self._who == who:
            self._count += 1
            return True
        if t is None:
            if not self._count:
                self._who = who
                self._count = 1
                return True
            if not blocking:
                return False
            raise HarnessError("contended rlock outside of the simulation")
        s.yield_point("rlock")
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while self._count:
            if not blocking:
                return False
            rem = None if end is None else end - s.now
            if rem is not None and rem <= 0:
                return False
            self._waiters.append(t)
            s.block("rlock", rem)
            if t in self._waiters:
                self._waiters.remove(t)
        self._who = who
        self._owner = t
        self._count = 1
        s.locks.append(self)
        return True

    def _drop(self):
        self._count = 0
        self._who = None
        self._owner = None
        s = SIM
        if s is not None:
            try:
                s.locks.remove(self)
            except ValueError:
                pass
            w, self._waiters = self._waiters, []
            for t in w:
                s._wake(t)

    def _force_release(self):
        self._count = 0
        self._who = None
        self._owner = None
        self._waiters = [t for t in self._waiters if t.state != "dead"]
        for t in self._waiters:
            SIM._wake(t)
        SIM.locks = [x for x in SIM.locks if x is not self]

    def release(self):
        t = self._me()
        who = t.id if t is not None else ("ext", _get_ident())
        if not self._count or self._who != who:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._drop()
            s = SIM
            if s is not None and s.active:
                s.yield_point("runlock")

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        t = self._me()
        who = t.id if t is not None else ("ext", _get_ident())
        return bool(self._count) and self._who == who

    def _release_save(self):
        c = self._count
        self._count = 0
        self._drop()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self.__init__()


def _sim_start_new_thread(func, args, kwargs=None):
    s = SIM
    if s is None or not s.active or s.me() is None:
        return _real_start_new_thread(func, args, kwargs or {})
    th = getattr(func, "__self__", None)
    name = getattr(th, "_name", None) or "thread"
    # stable names: strip global counters
    t = s.spawn(lambda: func(*args, **(kwargs or {})), f"thread{s.ids + 1}", s.current.inc)
    if th is not None:
        th._sim_task = t
    t.thread = th
    return t.id


_real_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive


def _sim_join(self, timeout=None):
    t = getattr(self, "_sim_task", None)
    if t is None:
        return _real_join(self, timeout)
    SIM.join(t, timeout)


def _sim_is_alive(self):
    t = getattr(self, "_sim_task", None)
    if t is None:
        return _real_is_alive(self)
    return t.state not in ("done", "dead")


def _in_sim():
    s = SIM
    return s is not None and s.active


def sim_time():
    s = SIM
    return s.now if s is not None and s.active else real_time()


def sim_monotonic():
    s = SIM
    return s.now - EPOCH + 1000.0 if s is not None and s.active else real_monotonic()


_real_sleep = time.sleep


def sim_sleep(secs):
    s = SIM
    if s is not None and s.active and s.me() is not None:
        s.sleep(secs)
    else:
        _real_sleep(secs)


_real_datetime = _dt.datetime


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_datetime)

    def __subclasscheck__(cls, o):
        return issubclass(o, _real_datetime)


class SimDatetime(_real_datetime, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(sim_time(), tz)

    @classmethod
    def utcnow(cls):
        return _real_datetime.fromtimestamp(sim_time(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return _real_datetime.fromtimestamp(sim_time())


_thread_hashes = [0]


def _sim_thread_hash(self):
    h = self.__dict__.get("_sim_hash")
    if h is None:
        _thread_hashes[0] += 1
        h = self.__dict__["_sim_hash"] = _thread_hashes[0]
    return h


def install():
    """patch the interpreter's synchronisation, thread and clock seams (before the code under test is imported)"""
    import concurrent.futures.thread  # noqa: real module, primitives are resolved at call time
    import concurrent.futures._base as fb
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = None
    threading._PyRLock = SimRLock
    threading._start_new_thread = _sim_start_new_thread
    threading.Thread.join = _sim_join
    threading.Thread.is_alive = _sim_is_alive
    threading._time = sim_monotonic
    threading.Thread.__hash__ = _sim_thread_hash  # sets of threads must not be ordered by memory addresses
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = sim_monotonic
    time.time = sim_time
    time.monotonic = sim_monotonic
    time.perf_counter = sim_monotonic
    time.sleep = sim_sleep
    time.time_ns = lambda: int(sim_time() * 1e9)
    time.monotonic_ns = lambda: int(sim_monotonic() * 1e9)
    _dt.datetime = SimDatetime
    fb.time = time
    concurrent.futures.thread._global_shutdown_lock = SimLock()


# ------------------------------------------------------------------------------ line level preemption points

_TOOL = 4


def enable_line_preemption(prefixes, exclude=()):
    """every executed source line of files under `prefixes` becomes a scheduling point"""
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, "pkmsim")
    except ValueError:
        pass
    cache = {}
    DIS = mon.DISABLE

    def on_line(code, line):
        f = code.co_filename
        ok = cache.get(f)
        if ok is None:
            ok = cache[f] = f.startswith(prefixes) and not f.endswith(exclude) if exclude else f.startswith(prefixes)
        if not ok:
            return DIS
        s = SIM
        if s is not None and s.active and s.line_p and len(s.tasks) > 1 and not s.no_preempt:
            s.yield_point("line")

    mon.register_callback(_TOOL, mon.events.LINE, on_line)
    mon.set_events(_TOOL, mon.events.LINE)


def disable_line_preemption():
    try:
        sys.monitoring.set_events(_TOOL, 0)
    except ValueError:
        pass
