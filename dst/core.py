"""Common pieces: seeds, violations, forked execution, minimisation, replay files."""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time as _time
import traceback

# real clocks, kept before any shim is installed (only used for budgets, never by runs)
REAL = {k: getattr(_time, k) for k in ("time", "monotonic", "perf_counter", "sleep")}


class Violation(Exception):
    """A property does not hold. cls: class of the violation (kept when minimising)."""

    def __init__(self, cls, msg, step=None):
        super().__init__(cls, msg, step)
        self.cls, self.msg, self.step = cls, msg, step


class HarnessError(Exception):
    pass


class SimAbort(BaseException):
    """Raised inside simulated threads to unwind them once a run is over."""


def rng_for(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def digest(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=str).encode()
    ).hexdigest()[:24]


# ------------------------------------------------------------------ forked calls
def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def escaped(e):
    """An exception that came out of the library where the harness expects none is a violation,
    unless it is the harness's own."""
    if isinstance(e, (HarnessError, SimAbort, SystemExit)):
        return None
    from .session import nannos_frame

    where = nannos_frame(e)
    return ("violation", ("raised", f"unexpected {type(e).__name__}: {str(e)[:200]} in {where}", None)) if where else None


def forked(fn, *args, timeout=240):
    """Run fn(*args) in a forked child, so that it starts from the pristine state of this
    process and leaves no trace in it. Returns its result or raises its exception."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except Violation as e:
                out = ("violation", (e.cls, e.msg, e.step))
            except BaseException as e:  # noqa
                out = escaped(e) or ("error", "".join(traceback.format_exception(e))[-6000:])
            try:
                data = pickle.dumps(out)
            except BaseException as e:  # noqa
                data = pickle.dumps(("error", f"cannot pickle result: {e!r}"))
            _write_all(w, struct.pack("<Q", len(data)) + data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = REAL["monotonic"]() + timeout
    try:
        while True:
            left = deadline - REAL["monotonic"]()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise HarnessError(f"forked run exceeded {timeout}s of wall time")
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                continue
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) - 8 != struct.unpack("<Q", buf[:8])[0]:
        raise HarnessError(f"forked run died, wait status {status}")
    kind, val = pickle.loads(buf[8:])
    if kind == "ok":
        return val
    if kind == "violation":
        raise Violation(*val)
    raise HarnessError(val)


# ------------------------------------------------------------------ minimisation
def ddmin(items, test, budget):
    """Greedy delta debugging on a list. test(list)->bool (still fails)."""
    n = 2
    while len(items) >= 1 and budget[0] > 0:
        size = max(1, len(items) // n)
        i = 0
        shrunk = False
        while i < len(items) and budget[0] > 0:
            cand = items[:i] + items[i + size :]
            budget[0] -= 1
            if test(cand):
                items = cand
                shrunk = True
            else:
                i += size
        if not shrunk:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def to_json_file(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = f"{path}.tmp{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)
