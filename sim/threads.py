"""Deterministic scheduler for Python threads, and fault injection at any line.

Real threads, one at a time: the thread holding the baton runs; at every traced
line (or opcode) of the code under test the seeded schedule may hand the baton
on.  An exception (interruption, failed allocation) can be raised at any such
point or inside any torch operator."""

import _thread
import dis
import os
import sys
import threading

import torch
from torch.utils._python_dispatch import TorchDispatchMode

REPO = os.environ.get("VERIF_REPO", "/repo")
_alloc = _thread.allocate_lock
_cur = None  # the active Sched
_RealLock, _RealRLock = threading.Lock, threading.RLock


class Deadlock(Exception):
    pass


class Stop(BaseException):
    """Unwinds threads of an abandoned run."""


class Sched:
    def __init__(self, files, preemptions=(), opcodes=False, max_points=400_000, raise_at=None, make_exc=None):
        """files: path prefixes whose lines are yield points.
        preemptions: list of (gap, target).  raise_at: (thread, point number)."""
        self.files = tuple(files)
        self.pre = list(preemptions)
        self.opcodes = opcodes
        self.max_points = max_points
        self.raise_at, self.make_exc = raise_at, make_exc
        self.points = 0
        self.switches = 0
        self.raised = None
        self.trail = []
        self.di = 0
        self.dead = None

    # -- baton
    def _give(self, i):
        self.cur = i
        self.switches += 1
        self.trail.append((self.points, i))
        self.sem[i].release()

    def _wait(self, i):
        self.sem[i].acquire()
        if self.dead is not None:
            raise Stop

    def _runnable(self, but):
        return [i for i in range(self.n) if i != but and self.state[i] == "run"]

    def _pick(self, but):
        c = self._runnable(but)
        if not c:
            return None
        if self.di < len(self.pre):
            t = self.pre[self.di][1]
        else:
            t = 0
        return c[t % len(c)]

    def point(self, me):
        self.points += 1
        self.tpoints[me] += 1
        if self.points > self.max_points:
            self.dead = "too many steps"
            for i in range(self.n):
                if i != me and self.state[i] != "done":
                    self.sem[i].release()
            raise Stop
        if self.raise_at is not None and self.raise_at == (me, self.tpoints[me]):
            self.raised = self.tpoints[me]
            raise self.make_exc()
        if self.di < len(self.pre):
            self.left -= 1
            if self.left <= 0:
                t = self._pick(me)
                self.di += 1
                self.left = self.pre[self.di][0] if self.di < len(self.pre) else 0
                if t is not None:
                    self._give(t)
                    self._wait(me)

    def block(self, me, why):
        """The current thread waits until somebody sets it runnable."""
        self.state[me] = why
        t = self._pick(me)
        if t is None:
            self.dead = f"deadlock: {self.state}"
            for i in range(self.n):
                if i != me and self.state[i] != "done":
                    self.sem[i].release()
            raise Stop
        self._give(t)
        self._wait(me)

    # -- tracing
    def _tracer(self, me):
        files, opcodes, point = self.files, self.opcodes, self.point

        def local(frame, event, arg):
            if event == "opcode" or (event == "line" and not opcodes):
                point(me)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(files):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        return glob

    def _body(self, i, fn):
        self.ident[_thread.get_ident()] = i
        try:
            self._wait(i)
            sys.settrace(self._tracer(i))
            try:
                r = ("ok", fn())
            finally:
                sys.settrace(None)
        except Stop:
            r = ("stopped", None)
        except BaseException as e:  # noqa
            r = ("raise", e)
        self.result[i] = r
        self.state[i] = "done"
        if self.dead is None:
            t = self._pick(i)
            if t is not None:
                self._give(t)
            elif all(s == "done" for s in self.state):
                self.main.release()
            else:
                self.dead = f"deadlock: {self.state}"
                for k in range(self.n):
                    if self.state[k] != "done":
                        self.sem[k].release()
        if self.dead is not None and all(s == "done" for s in self.state):
            self.main.release()

    def run(self, fns, first=0):
        global _cur
        self.n = len(fns)
        self.state = ["run"] * self.n
        self.sem = []
        for _ in fns:
            s = _alloc()
            s.acquire()
            self.sem.append(s)
        self.main = _alloc()
        self.main.acquire()
        self.result = [None] * self.n
        self.tpoints = [0] * self.n
        self.ident = {}
        self.left = self.pre[0][0] if self.pre else 0
        _cur = self
        try:
            ts = [
                threading.Thread(target=self._body, args=(i, f), daemon=True)
                for i, f in enumerate(fns)
            ]
            for t in ts:
                t.start()
            self._give(first % self.n)
            self.main.acquire()
            for t in ts:
                t.join()
        finally:
            _cur = None
        return self.result


def me():
    """(scheduler, index) of the calling thread when it is a controlled one."""
    s = _cur
    if s is None:
        return None, None
    return s, s.ident.get(_thread.get_ident())


class SimLock:
    """threading.Lock that blocks cooperatively in controlled threads."""

    reentrant = False

    def __init__(self):
        self._real = _RealLock()
        self._owner = None
        self._count = 0
        self._waiters = []

    def _key(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        s, i = me()
        if self.reentrant and self._owner == self._key():
            self._count += 1
            return True
        if s is None or i is None:
            ok = self._real.acquire(blocking, timeout)
        else:
            s.point(i)
            while True:
                ok = self._real.acquire(False)
                if ok or not blocking or timeout == 0:
                    break
                if timeout > 0:
                    # a timed wait may always expire first
                    ok = False
                    break
                self._waiters.append((s, i))
                s.block(i, "lock")
        if ok:
            self._owner, self._count = self._key(), 1
        return ok

    def release(self):
        if self.reentrant:
            if self._owner != self._key():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()
        for s, i in self._waiters:
            if s.state[i] == "lock":
                s.state[i] = "run"
        self._waiters = []
        s, i = me()
        if i is not None and sys.exc_info()[0] is None:
            s.point(i)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def install():
    """Locks that pytorch3d creates from now on are cooperative."""

    def factory(sim, real):
        def make():
            if sys._getframe(1).f_globals.get("__name__", "").startswith("pytorch3d"):
                return sim()
            return real()

        return make

    if threading.Lock is _RealLock:
        threading.Lock = factory(SimLock, _RealLock)
        threading.RLock = factory(SimRLock, _RealRLock)


def _warm_opcodes():
    # CPython enables per-instruction events from the settrace() call after the
    # first use of f_trace_opcodes on: use it once now, or the first run differs
    def glob(frame, event, arg):
        frame.f_trace_opcodes = True
        return glob

    def f():
        return 1

    for _ in range(2):
        sys.settrace(glob)
        try:
            f()
        finally:
            sys.settrace(None)


_warm_opcodes()


def draw_preemptions(d, nthreads, lo=0, hi=24, max_log2=8):
    n = d.integer(lo, hi)
    return [(d.gap(max_log2), d.choice(max(1, nthreads - 1))) for _ in range(n)]


class AllocFail(RuntimeError):
    pass


class OpFaults(TorchDispatchMode):
    """Counts torch operators of this thread; the k-th fails to allocate."""

    def __init__(self, fail_at=None):
        super().__init__()
        self.n = 0
        self.fail_at = fail_at
        self.fired = False

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        if self.n == self.fail_at:
            self.fired = True
            raise AllocFail(
                "[enforce fail at alloc_cpu.cpp:117] . DefaultCPUAllocator: can't allocate memory"
            )
        return func(*args, **(kwargs or {}))


def _leaving(frame):
    """whether a with block is about to be left: what is raised here would come between
    its end and __exit__, which then never runs (or, at a NOP, between __enter__ and the
    part of the code which __exit__ guards: no signal is handled there)"""
    co, i = frame.f_code.co_code, frame.f_lasti
    if co[i] == dis.opmap["NOP"]:
        return True
    if co[i] == dis.opmap["SWAP"]:
        i += 2
    ops = [dis.opname[x] for x in co[i : i + 8 : 2]]
    return ops == ["LOAD_CONST"] * 3 + ["CALL"] and co[i + 7] == 2 or ops[:2] == ["PUSH_EXC_INFO", "WITH_EXCEPT_START"]


def interrupted(fn, files, at, exc=KeyboardInterrupt, opcodes=False):
    """Run fn() in this thread raising `exc` at the at-th traced point.
    -> ("ok", value) | ("raise", exception), fired"""
    n = [0]
    fired = [False]
    files = tuple(files)

    def local(frame, event, arg):
        if event == ("opcode" if opcodes else "line"):
            n[0] += 1
            if n[0] >= at and not fired[0] and not _leaving(frame):
                fired[0] = True
                raise exc("simulated")
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(files):
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return None

    grad = torch.is_grad_enabled()
    sys.settrace(glob)
    try:
        r = ("ok", fn())
    except BaseException as e:  # noqa
        r = ("raise", e)
    finally:
        sys.settrace(None)
        # raised at the very end of a with block, before the context manager is left
        torch.set_grad_enabled(grad)
    return r, fired[0]
