"""Functions evaluated by the simulated parallel loops, and their bookkeeping."""
import hashlib

from . import sched
from .core import Violation
from .simjoblib import WorkerDies

CALLS = {}  # loop|call key -> number of evaluations started
FAULTS = {}  # key -> fault spec, each fires once
FIRED = []
LIMIT = 20000
EPOCH = [0]  # changes when a call ends: evaluations left over by it take no later faults
_n = 0
PLAN = dict(delays="none", seed=0)


class TaskError(Exception):
    def __init__(self, code, text):
        super().__init__(code, text)
        self.code, self.text = code, text


EXCS = dict(ValueError=lambda: ValueError("injected", 3), KeyError=lambda: KeyError("injected"), TaskError=lambda: TaskError(7, "injected"),
            ZeroDivisionError=lambda: ZeroDivisionError(), MemoryError=lambda: MemoryError("injected"), OSError=lambda: OSError(5, "injected"),
            KeyboardInterrupt=lambda: KeyboardInterrupt("injected"), LookupError=lambda: LookupError("injected"), RuntimeError=lambda: RuntimeError("injected"),
            TypeError=lambda: TypeError("injected"), AttributeError=lambda: AttributeError("injected"), TimeoutError=lambda: TimeoutError("injected"),
            IndexError=lambda: IndexError("injected"), FloatingPointError=lambda: FloatingPointError("injected"))


def canon(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return f"array{v.dtype}{v.tolist()!r}"
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, dict):
        return "dict{" + ",".join(f"{canon(k)}:{canon(x)}" for k, x in v.items()) + "}"
    if isinstance(v, np.generic):
        return f"{v.dtype}:{v!r}"
    return f"{type(v).__name__}:{v!r}"


def reset(plan):
    global _n
    CALLS.clear()
    FAULTS.clear()
    FIRED.clear()
    _n = 0
    PLAN.update(plan)


def unit(key):
    h = hashlib.sha256(f"{PLAN['seed']}|{key}".encode()).digest()
    return int.from_bytes(h[:6], "big") / 2**48


def visit(key):
    """One evaluation starts: count it, take its simulated time, apply its fault."""
    global _n
    _n += 1
    if _n > LIMIT:
        raise Violation("no-progress", f"more than {LIMIT} evaluations")
    CALLS[key] = CALLS.get(key, 0) + 1
    epoch = EPOCH[0]
    s = sched.CURRENT
    t = s.current() if s is not None else None
    if t is not None:
        d = PLAN["delays"]
        u = unit(key)
        if d == "none":
            s.yield_("task")
        elif d == "short":
            s.sleep(0.02 * u)
        elif d == "mixed":
            s.sleep(0.001 if u < 0.5 else 3.0 * u)
        elif d == "stall":
            s.sleep((400.0 if u > 0.99 else 25.0) if u > 0.95 else 0.05 * u)
    f = FAULTS.get(key)
    if f is not None and epoch == EPOCH[0]:  # not a leftover of an earlier call
        del FAULTS[key]
        FIRED.append([key, f])
        if f == "death":
            raise WorkerDies()
        raise EXCS[f]()


def make(kind, tag, inner=None, nn=None):
    """A function to be decorated; tag identifies the loop in the records."""
    from . import simtasks as T

    if kind == "tuple":
        def f(x, *a, **k):
            T.visit(f"{tag}|{T.canon(x)}")
            return (T.canon(x), T.canon(a), T.canon(dict(sorted(k.items()))))
    elif kind == "list":
        def f(x, *a, **k):
            T.visit(f"{tag}|{T.canon(x)}")
            return [x, list(a), len(k)]
    elif kind == "none":
        def f(x, *a, **k):
            T.visit(f"{tag}|{T.canon(x)}")
            return None
    elif kind == "array":
        def f(x, *a, **k):
            import numpy as np

            T.visit(f"{tag}|{T.canon(x)}")
            return np.array([len(T.canon(x)), len(a), len(k)], dtype=float)
    elif kind == "empty":
        def f(x, *a, **k):
            T.visit(f"{tag}|{T.canon(x)}")
            return []
    elif kind == "excval":
        def f(x, *a, **k):
            T.visit(f"{tag}|{T.canon(x)}")
            return (ValueError, T.canon(x), T.canon(a), T.canon(k))
    elif kind == "nested":
        g = inner

        def f(x, *a, **k):
            T.visit(f"{tag}|{T.canon(x)}")
            return (T.canon(x), g([1, 2, 3], T.canon(x), *a, **k))
    elif kind == "rcwa":
        def f(x, *a, **k):
            import nannos

            T.visit(f"{tag}|{T.canon(x)}")
            lat = nannos.Lattice(1.0, discretization=(32, 1))
            pw = nannos.PlaneWave(wavelength=1.3 + 0.1 * (hash(T.canon(x)) % 1 + len(T.canon(x))), angles=(10, 0, 0))
            sup = lat.Layer("Superstrate", epsilon=1)
            sub = lat.Layer("Substrate", epsilon=2.25)
            lay = lat.Layer("g", thickness=0.3)
            e = lat.ones() * 1.0
            e[:10] = 4.0 + 0.25 * len(a) + 0.5 * len(k)
            lay.epsilon = e
            sim = nannos.Simulation([sup, lay, sub], pw, nh=3)
            R, Tr = sim.diffraction_efficiencies()
            return (round(float(R), 12), round(float(Tr), 12))
    else:
        raise ValueError(kind)
    f.__name__ = f"loop_{tag}"
    return f


def elements(spec):
    """The list of elements of an input spec."""
    import numpy as np

    k, n, s = spec["k"], spec["n"], spec.get("s", 0)
    base = [(i * 7 + s) % 1009 for i in range(n)]
    if spec.get("dup"):
        base = [b % 3 for b in base]
    if k in ("list", "tuple", "gen", "iter", "map"):
        return base
    if k == "objs":
        pool = [None, "a", "", [], [1, [2]], (1, 2), {"u": 1}, 1.5, True, "None", 2 + 1j, b"x"]
        return [pool[b % len(pool)] for b in base]
    if k == "range":
        return list(range(s, s + n))
    if k == "np":
        return list(np.array(base, dtype=float) * 0.5)
    if k == "np2":
        return list(np.array([[b, b + 1] for b in base], dtype=float).reshape(n, 2))
    if k == "dict":
        return list(dict.fromkeys(f"k{b}" for b in base))
    if k == "str":
        return list("".join("abcdef"[b % 6] for b in base))
    raise ValueError(k)


def container(spec, consumed=None):
    """What is passed to the loop."""
    import numpy as np

    el = elements(spec)
    k = spec["k"]
    if k in ("list", "objs"):
        return el
    if k == "tuple":
        return tuple(el)
    if k == "range":
        return range(spec.get("s", 0), spec.get("s", 0) + spec["n"])
    if k == "np":
        return np.array(el, dtype=float)
    if k == "np2":
        return np.array(el, dtype=float).reshape(len(el), 2)
    if k == "dict":
        return dict.fromkeys(el, 1)
    if k == "str":
        return "".join(el)
    if k == "iter":
        return iter(el)
    if k == "map":
        return map(lambda v: v, el)

    def gen():
        for i, e in enumerate(el):
            if spec.get("bad") == i:
                FIRED.append(["input", "input"])
                raise TaskError(9, "input")
            if consumed is not None:
                consumed.append(i)
            yield e

    return gen()
