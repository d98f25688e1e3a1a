"""Virtual clock. Shims replace the functions of the time module before nannos is imported;
they delegate to the real functions until a run activates a virtual clock."""
import time as _time

_real = {}
ACTIVE = None
# each clock source has its own origin, so that mixing two of them shows
_OFFSETS = {"time": 1.7e9, "monotonic": 5.0e4, "perf_counter": 1.0e3, "process_time": 10.0, "thread_time": 3.0}


class VirtualClock:
    """now: simulated seconds. script: None or a function (reading index)->jump applied
    before that reading is answered (and seen by all later readings)."""

    def __init__(self, script=None, tick=1e-6):
        self.now = 0.0
        self.skew = 0.0  # what the script adds to readings; sleeping does not depend on it
        self.script = script
        self.tick = tick
        self.readings = []
        self.elapsed = 0.0  # total simulated time covered (absolute moves)
        self.sleeper = None  # scheduler hook

    def advance(self, dt):
        self.now += dt
        self.elapsed += abs(dt)

    def read(self, source):
        if self.script is not None:
            d = self.script(len(self.readings))
            self.skew += d
            self.elapsed += abs(d)
        else:
            self.advance(self.tick)
        v = _OFFSETS[source] + self.now + self.skew
        self.readings.append((source, v))
        return v

    def sleep(self, dt):
        if self.sleeper is not None and self.sleeper(dt):
            return
        self.advance(max(0.0, float(dt)))


def _mk(source, ns):
    name = source + ("_ns" if ns else "")
    real = _real[name]

    def shim(*a):
        c = ACTIVE
        if c is None:
            return real(*a)
        v = c.read(source)
        return int(v * 1e9) if ns else v

    shim.__name__ = name
    return shim


def install():
    for source in _OFFSETS:
        for ns in (False, True):
            name = source + ("_ns" if ns else "")
            if hasattr(_time, name) and name not in _real:
                _real[name] = getattr(_time, name)
                setattr(_time, name, _mk(source, ns))
    if "sleep" not in _real:
        real_sleep = _real["sleep"] = _time.sleep

        def sleep(dt):
            c = ACTIVE
            return real_sleep(dt) if c is None else c.sleep(dt)

        _time.sleep = sleep


def activate(clock):
    global ACTIVE
    ACTIVE = clock
    return clock


def script(spec):
    """Jump of the clock before reading number n is answered."""
    from .core import rng_for

    k, a = spec["k"], spec["a"]
    if k == "tick":
        return lambda n: 1e-6
    if k == "frozen":
        return lambda n: 0.0
    if k == "speed":
        return lambda n: a
    if k == "coarse":
        return lambda n: a if n % spec["m"] == 0 else 0.0
    if k == "jumps":
        at = {int(i): v for i, v in spec["at"]}
        return lambda n: at.get(n, 1e-6)
    if k == "wild":
        r = rng_for("clock", spec["s"])
        return lambda n: r.choice([-1, 1]) * 10 ** r.uniform(-9, spec["e"])
    raise ValueError(k)


def gen_script(rng):
    k = rng.choice(["frozen", "frozen", "speed", "speed", "coarse", "jumps", "jumps", "wild", "wild"])
    c = dict(k=k, a=0.0)
    if k == "speed":
        c["a"] = rng.choice([-1.0, -1e-6, 1e-15, 1e-3, 60.0, 1e6, -3600.0, 1e9])
    elif k == "coarse":
        c["a"], c["m"] = rng.choice([0.015, 1.0, -1.0]), rng.choice([2, 3, 7])
    elif k == "jumps":
        c["at"] = sorted([rng.randrange(60), rng.choice([-1, 1]) * rng.choice([1e-3, 1.0, 3600.0, 86400.0, 3e7, 2e9])] for _ in range(rng.randint(1, 6)))
    elif k == "wild":
        c["s"], c["e"] = rng.randrange(10**6), rng.choice([0, 4, 9])
    return c
