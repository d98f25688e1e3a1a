"""Seeded scheduler: real threads, exactly one runs at a time, the plan decides which.

Preemption points are the source lines of nannos (instrument.py), cooperative locks and
virtual sleeps. Every decision has a number (step); a recorded schedule is the list of
[step, thread] pairs that differ from the default "keep running / lowest id"."""
import hashlib
import _thread
import threading
import traceback

from . import clock as vclock
from . import instrument
from .core import SimAbort, Violation


class Deadlock(Violation):
    pass


class Task:
    def __init__(self, tid, fn, name):
        self.tid, self.fn, self.name = tid, fn, name
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = "ready"  # ready, blocked, sleeping, done
        self.wake = 0.0
        self.cond = None
        self.result = None
        self.exc = None
        self.kill = None
        self.ident = None


CURRENT = None  # the scheduler of the running simulation


class Sched:
    def __init__(self, spec, clock=None, max_steps=2_000_000):
        """spec: {"mode":"random","seed":s,"p":prob,"burst":..} or {"mode":"explicit","sw":[[step,tid],..]}"""
        from .core import rng_for

        self.spec = spec
        self.clock = clock or vclock.VirtualClock(vclock.script(spec["clock"]) if spec.get("clock") else None)
        self.tasks = []
        self.step = 0
        self.max_steps = max_steps
        self.trace = []  # decisions taken that differ from the default
        self.hash = hashlib.sha256()
        self.switches = 0
        self.cur = None
        self.done_evt = _thread.allocate_lock()
        self.done_evt.acquire()
        self.failure = None
        self.by_ident = {}
        self.explicit = None
        if spec["mode"] == "explicit":
            self.explicit = {s: t for s, t in spec["sw"]}
        else:
            self.rng = rng_for("sched", spec["seed"])
            self.p = spec["p"]
        self.interrupts = dict((s, None) for s in spec.get("kbi", []))
        self.kbi_tid = spec.get("kbi_tid")

    # -- task side -------------------------------------------------------
    def _boot(self, t):
        t.sem.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if self.failure is not None:
                raise SimAbort()
            t.result = t.fn()
        except SimAbort:
            pass
        except BaseException as e:  # noqa
            t.exc = e
        t.state = "done"
        self._leave(t)

    def spawn(self, fn, name=None):
        t = Task(len(self.tasks), fn, name or f"t{len(self.tasks)}")
        self.tasks.append(t)
        _thread.start_new_thread(self._boot, (t,))
        return t

    def current(self):
        return self.by_ident.get(_thread.get_ident())

    def _runnable(self):
        return [t for t in self.tasks if t.state == "ready" or (t.state == "blocked" and t.cond())]

    def _pick(self, runnable, default):
        """Forced or voluntary decision number self.step among runnable."""
        if self.explicit is not None:
            want = self.explicit.get(self.step)
            if want is not None:
                for t in runnable:
                    if t.tid == want:
                        return t
            return default
        return None

    def on_line(self, code, line):
        t = self.current()
        if t is None:
            return
        if self.failure is not None:
            raise SimAbort()
        self.step += 1
        if self.step > self.max_steps:
            self._fail(Violation("no-progress", f"more than {self.max_steps} steps", None))
            raise SimAbort()
        if self.explicit is not None:
            want = self.explicit.get(self.step)
            if want is None or want == t.tid:
                return
            r = [x for x in self._runnable() if x.tid == want]
            if not r:
                return
            nxt = r[0]
        else:
            if self.rng.random() >= self.p:
                return
            r = [x for x in self._runnable() if x is not t]
            if not r:
                return
            nxt = r[self.rng.randrange(len(r))]
        self.trace.append([self.step, nxt.tid])
        self.hash.update(f"{t.tid}>{nxt.tid}@{code.co_name}:{line};".encode())
        self.switches += 1
        self._switch(t, nxt)

    def _switch(self, t, nxt):
        nxt.state = "ready"
        self.cur = nxt
        nxt.sem.release()
        t.sem.acquire()
        if self.failure is not None:
            raise SimAbort()
        if t.kill is not None:
            e, t.kill = t.kill, None
            raise e

    def _next(self):
        """Choose the next task when the current one cannot go on; moves time if needed."""
        self.step += 1
        while True:
            r = self._runnable()
            if r:
                break
            sl = [t for t in self.tasks if t.state == "sleeping"]
            if not sl:
                return None
            wake = min(t.wake for t in sl)
            if wake > self.clock.now:
                self.clock.advance(wake - self.clock.now)
            for t in sl:
                if t.wake <= self.clock.now:
                    t.state = "ready"
        if self.explicit is not None:
            nxt = self._pick(r, r[0])
        else:
            nxt = r[self.rng.randrange(len(r))]
        if nxt is not r[0]:
            self.trace.append([self.step, nxt.tid])
        return nxt

    def _wake_due(self):
        for t in self.tasks:
            if t.state == "sleeping" and t.wake <= self.clock.now:
                t.state = "ready"

    def yield_(self, tag=""):
        """A voluntary decision point outside nannos code."""
        t = self.current()
        if t is None:
            return
        self.on_line_like(t, tag)

    def on_line_like(self, t, tag):
        class _C:
            co_name = tag

        self.on_line(_C, 0)

    def block(self, cond, what=""):
        t = self.current()
        while not cond():
            if self.failure is not None:
                raise SimAbort()
            t.state, t.cond = "blocked", cond
            nxt = self._next()
            if nxt is None:
                self._fail(Deadlock("deadlock", f"every thread is blocked ({what})", None))
                t.state = "ready"
                raise SimAbort()
            self.hash.update(f"{t.tid}|{nxt.tid};".encode())
            if nxt is t:
                t.state = "ready"
                continue
            self._switch(t, nxt)
            t.state = "ready"

    def sleep(self, dt):
        t = self.current()
        if t is None:
            return False
        if self.failure is not None:
            raise SimAbort()
        t.state, t.wake = "sleeping", self.clock.now + max(dt, 1e-9)
        nxt = self._next()
        self.step += 0
        if self.step > self.max_steps:
            self._fail(Violation("no-progress", f"more than {self.max_steps} steps", None))
            raise SimAbort()
        if nxt is t:
            t.state = "ready"
            if t.kill is not None:
                e, t.kill = t.kill, None
                raise e
            return True
        self.hash.update(f"{t.tid}~{nxt.tid};".encode())
        self._switch(t, nxt)
        return True

    def _leave(self, t):
        if self.failure is not None:
            # unwind the others one at a time
            for x in self.tasks:
                if x.state != "done" and x is not t:
                    x.state = "ready"
                    x.sem.release()
                    return
            self.done_evt.release()
            return
        if all(x.state == "done" for x in self.tasks):
            self.done_evt.release()
            return
        nxt = self._next()
        if nxt is None:
            self._fail(Deadlock("deadlock", "every remaining thread is blocked", None))
            self._leave(t)
            return
        nxt.state = "ready"
        self.hash.update(f"{t.tid}.{nxt.tid};".encode())
        nxt.sem.release()

    def _fail(self, v):
        if self.failure is None:
            self.failure = v

    # -- driver side -----------------------------------------------------
    def run(self, fns, lines=True):
        """Run the functions as simulated threads until all are done."""
        global CURRENT
        CURRENT = self
        old = vclock.ACTIVE
        vclock.activate(self.clock)
        self.clock.sleeper = self.sleep
        try:
            for i, f in enumerate(fns):
                self.spawn(f)
            if not self.tasks:
                return []
            w = instrument.watching(sched=self)
            with w:
                first = self._next()
                first.sem.release()
                self.done_evt.acquire()
        finally:
            CURRENT = None
            self.clock.sleeper = None
            vclock.activate(old)
        if self.failure is not None:
            raise self.failure
        return self.tasks

    def schedule(self):
        return {"mode": "explicit", "sw": list(self.trace)}

    def interleaving(self):
        return self.hash.hexdigest()[:16]


# ------------------------------------------------------------------ locks made by nannos
class CoopLock:
    """Replacement for threading.Lock/RLock when created by the code under test: contention
    is a scheduling decision, never a real wait."""

    def __init__(self, reentrant):
        self.re = reentrant
        self.owner = None
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.re and self.owner == me:
            self.n += 1
            return True
        s = CURRENT
        if s is not None and s.current() is not None:
            s.yield_("lock")
            if self.owner is not None:
                if not blocking:
                    return False
                if timeout is not None and timeout >= 0:
                    end = s.clock.now + timeout
                    while self.owner is not None and s.clock.now < end:
                        s.sleep(min(0.01, max(end - s.clock.now, 1e-9)))
                    if self.owner is not None:
                        return False
                else:
                    s.block(lambda: self.owner is None, "lock")
        elif self.owner is not None:
            if not blocking or timeout >= 0:
                return False
            raise Violation("deadlock", "a lock left locked blocks the only thread", None)
        self.owner, self.n = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # a lock cannot be pickled: same behaviour as the real one
    def __reduce__(self):
        raise TypeError("cannot pickle lock object")


def install_locks(prefixes=("nannos",)):
    import sys

    for name, re in (("Lock", False), ("RLock", True)):
        real = getattr(threading, name)

        def factory(*a, _real=real, _re=re, **k):
            f = sys._getframe(1)
            mod = f.f_globals.get("__name__", "")
            if any(mod == p or mod.startswith(p + ".") for p in prefixes):
                return CoopLock(_re)
            return _real(*a, **k)

        setattr(threading, name, factory)
