"""Line events of nannos code: counting, interruption and preemption points."""
import os
import sys
import threading

mon = sys.monitoring
TOOL = 4
ROOT = None
DISABLE = mon.DISABLE


class Probe:
    """What to do at a nannos line. One object, module global, reset for each run."""

    def __init__(self):
        self.active = False
        self.count = 0
        self.budget = None
        self.at = None  # raise at this count
        self.exc = None
        self.fired = None
        self.record = None  # list of location ids, when profiling
        self.locs = {}
        self.sched = None  # scheduler that wants line events of its threads


P = Probe()


class StepBudget(BaseException):
    """More source lines executed than any correct run needs: no progress."""


def _line(code, line):
    if not code.co_filename.startswith(ROOT):
        return DISABLE
    p = P
    if not p.active:
        return None
    s = p.sched
    if s is not None:
        s.on_line(code, line)
        return None
    p.count += 1
    if p.record is not None:
        key = (code.co_filename[len(ROOT):], code.co_name, line)
        i = p.locs.get(key)
        if i is None:
            i = p.locs[key] = len(p.locs)
        p.record.append(i)
    if p.at is not None and p.count == p.at:
        p.at = None
        p.fired = (code.co_filename[len(ROOT):], code.co_name, line)
        e = p.exc
        raise e
    if p.budget is not None and p.count > p.budget:
        p.budget = None
        raise StepBudget(f"{code.co_name}:{line}")
    return None


def install(root):
    global ROOT
    ROOT = os.path.join(os.path.realpath(root), "")
    mon.use_tool_id(TOOL, "dst")
    mon.register_callback(TOOL, mon.events.LINE, _line)


_on = False
_codes = []
GLOBAL = False  # watch all code (needed when modules are reloaded during the run)


def collect():
    """Find the code objects of the imported nannos modules."""
    import gc
    import types

    seen = {}

    def add(c):
        if c in seen or not c.co_filename.startswith(ROOT):
            return
        seen[c] = 1
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    _codes[:] = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))


def collect_all():
    """Watch all code from now on (modules are going to be reloaded)."""
    global ROOT
    import nannos

    ROOT = os.path.join(os.path.dirname(os.path.realpath(nannos.__file__)), "")
    if mon.get_tool(TOOL) is None:
        install(ROOT)


def enable():
    """Line events cost time: switch them on only in runs that need them."""
    global _on
    if not _on:
        if GLOBAL:
            mon.set_events(TOOL, mon.events.LINE)
        else:
            for c in _codes:
                mon.set_local_events(TOOL, c, mon.events.LINE)
        _on = True


def disable():
    global _on
    if _on:
        if GLOBAL:
            mon.set_events(TOOL, 0)
        else:
            for c in _codes:
                mon.set_local_events(TOOL, c, 0)
        _on = False


class watching:
    """Context: line events drive the probe with these settings."""

    def __init__(self, at=None, exc=None, budget=None, record=False, sched=None):
        self.kw = dict(at=at, exc=exc, budget=budget, sched=sched)
        self.rec = record

    def __enter__(self):
        P.count = 0
        P.fired = None
        P.at, P.exc, P.budget, P.sched = self.kw["at"], self.kw["exc"], self.kw["budget"], self.kw["sched"]
        P.record = [] if self.rec else None
        enable()
        P.active = True
        return P

    def __exit__(self, *a):
        P.active = False
        P.sched = None
        P.at = None
        disable()
        return False
