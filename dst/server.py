"""A further process that executes functions of this package on request, each in a forked
pristine copy of itself: used for sessions restored in a new process and for other backends.

  python -m dst.server '{"block": [...], "boot": true}'
"""
import importlib
import json
import os
import pickle
import struct
import subprocess
import sys
import traceback


def _read(f, n):
    b = b""
    while len(b) < n:
        c = f.read(n - len(b))
        if not c:
            return None
        b += c
    return b


def _get(f):
    h = _read(f, 8)
    if h is None:
        return None
    return pickle.loads(_read(f, struct.unpack("<Q", h)[0]))


def _put(f, o):
    d = pickle.dumps(o)
    f.write(struct.pack("<Q", len(d)) + d)
    f.flush()


class Server:
    """Handle of such a process, kept by a worker."""

    def __init__(self, env=None, block=(), instrumented=True, warm=None):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        e = {k: v for k, v in os.environ.items() if not k.startswith("NANNOS_")}
        e.update(env or {})
        self.cfg = dict(block=list(block), instrumented=instrumented, warm=warm)
        self.p = subprocess.Popen([sys.executable, "-m", "dst.server", json.dumps(self.cfg)], cwd=here, env=e,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.ready = False

    def wait(self):
        from .core import HarnessError

        if not self.ready:
            r = _get(self.p.stdout)
            if r is None or r[0] != "ready":
                raise HarnessError(f"server did not start: {r}")
            self.ready = True

    def send(self, fn, *args):
        self.wait()
        _put(self.p.stdin, (fn.__module__, fn.__name__, args))

    def recv(self):
        from .core import HarnessError, Violation

        r = _get(self.p.stdout)
        if r is None:
            raise HarnessError("server died")
        if r[0] == "ok":
            return r[1]
        if r[0] == "violation":
            raise Violation(*r[1])
        raise HarnessError("in server: " + r[1])

    def call(self, fn, *args):
        """fn(nn, *args) in a forked copy of the server."""
        self.send(fn, *args)
        return self.recv()


def main():
    from . import boot
    from .core import Violation, forked

    out = os.fdopen(os.dup(1), "wb")
    inp = os.fdopen(os.dup(0), "rb")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 0)
    try:
        cfg = json.loads(sys.argv[1])
        nn = boot.boot(block=cfg["block"], instrumented=cfg["instrumented"])
        if cfg["warm"]:
            m, f = cfg["warm"].rsplit(".", 1)
            getattr(importlib.import_module(m), f)(nn)
        import gc

        gc.collect()
        gc.freeze()
    except BaseException:  # noqa
        _put(out, ("fatal", traceback.format_exc()))
        return 1
    _put(out, ("ready",))
    while True:
        r = _get(inp)
        if r is None:
            return 0
        try:
            fn = getattr(importlib.import_module(r[0]), r[1])
            _put(out, ("ok", forked(fn, nn, *r[2])))
        except Violation as v:
            _put(out, ("violation", (v.cls, v.msg, v.step)))
        except BaseException:  # noqa
            _put(out, ("error", traceback.format_exc()[-5000:]))


if __name__ == "__main__":
    sys.exit(main())
