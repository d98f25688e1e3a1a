"""Topology optimizer runs: recorded objectives, callbacks, faults."""
import json

from . import instrument, simtasks
from .core import Violation

EVENTS = []
GRADS = []  # gradient evaluations: [events so far, design, level, extra arguments]
FAULT = dict(spec=None, count=0, fired=None)
LIMIT = 4000


def tracing(x):
    """Is this call a gradient evaluation?"""
    if getattr(x, "requires_grad", False):
        return True
    return type(x).__name__ == "ArrayBox"


def plain(x):
    import numpy as np

    while type(x).__name__ == "ArrayBox":
        x = x._value
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.array(x, dtype=float)


def hit(where):
    f = FAULT["spec"]
    if f is None or f["where"] != where:
        return
    FAULT["count"] += 1
    if FAULT["count"] == f["n"]:
        FAULT["fired"] = f
        FAULT["spec"] = None
        raise simtasks.EXCS[f["exc"]]()


def objective(nn, spec):
    import numpy as np

    k = spec["k"]
    w = np.array(spec["w"])
    t = np.array(spec["t"])

    def arr(bk, a):
        return bk.array(a, dtype=bk.float64) if nn.get_backend() == "torch" else a

    def f(x, level, *extra):
        bk = nn.backend
        tr = tracing(x)
        hit("grad" if tr else "fun")
        W, T = arr(bk, w), arr(bk, t)
        if k == "proj":
            y = bk.sum(W * (nn.optimize.project(x, level) - T) ** 2)
        elif k == "simp":
            p = nn.optimize.simp(nn.optimize.project(x, level), 1.0, 4.0, 2)
            y = bk.sum(W * (p - 1 - 3 * T) ** 2) * 0.1
        elif k == "sine":
            y = bk.sum(W * bk.sin(7 * x + level) + (x - T) ** 2)
        elif k == "lin":
            y = bk.sum((W - 0.5) * x) * (1 + level)
        elif k == "flat":
            y = bk.sum(0 * x) + 1.0 * level
        elif k == "kink":
            y = bk.sum(W * bk.abs(x - T)) + 0.1 * bk.sum((x - T) ** 2)
        elif k == "steep":
            y = bk.sum(bk.exp(20 * (x - T) * W)) + bk.sum((x - T) ** 2) * 50
        elif k == "rosen":
            y = bk.sum(50 * (x[1:] - x[:-1] ** 2) ** 2) + bk.sum((W - x) ** 2)
        elif k == "rcwa":
            lat = nn.Lattice(1.0, discretization=(16, 1))
            pw = nn.PlaneWave(wavelength=1.3, angles=(0, 0, 0))
            sup, sub = lat.Layer("Superstrate", epsilon=1), lat.Layer("Substrate", epsilon=2.0)
            lay = lat.Layer("g", thickness=0.3)
            v = nn.optimize.project(x, level)
            lay.epsilon = bk.reshape(1.0 + 4.0 * v, (16, 1))
            sim = nn.Simulation([sup, lay, sub], pw, nh=3)
            R, _ = sim.diffraction_efficiencies()
            y = -bk.real(R)
        else:
            raise ValueError(k)
        if spec.get("off"):
            y = y - spec["off"]
        if tr:
            GRADS.append([len(EVENTS), plain(x), simtasks.canon(level), simtasks.canon(list(extra))])
        else:
            if len(EVENTS) > LIMIT:
                raise Violation("no-progress", f"more than {LIMIT} evaluations")
            EVENTS.append(["f", plain(x), simtasks.canon(level), simtasks.canon(list(extra)), float(plain(y))])
        return y

    return f


def callback(nn, spec):
    def cb(x, y, *args):
        hit("cb")
        EVENTS.append(["cb", plain(x), simtasks.canon(args[0]), simtasks.canon(list(args[1:])), float(plain(y))])
        if spec.get("cbret"):
            return True

    return cb


def extra(spec):
    import numpy as np

    e = json.loads(json.dumps(spec["extra"]))
    return [np.array(v["np"]) if isinstance(v, dict) and "np" in v else v for v in e]


def build(nn, spec, f, cb):
    import numpy as np

    x0 = spec["x0"]
    x0 = dict(np=lambda: np.array(x0), list=lambda: list(x0), f32=lambda: np.array(x0, dtype=np.float32), bk=lambda: nn.backend.array(np.array(x0)))[spec["xk"]]()
    args = [spec["a0"]] + extra(spec)
    args = tuple(args) if spec["tup"] else args
    kw = dict(method=spec["method"], threshold=tuple(spec["thr"]), maxiter=spec["maxiter"], stopval=spec["stopval"], args=args,
              callback=cb if spec["cb"] else None)
    if spec["options"] is not None:
        kw["options"] = dict(spec["options"])
    if spec["method"] == "scipy" and spec.get("omit"):
        kw.pop("method")
    if spec["verbose"]:
        kw["verbose"] = True
    o = nn.optimize.TopologyOptimizer(f, x0, **kw)
    return o, (x0, args, kw.get("options"))


def gen_spec(rng):
    k = rng.choice(["proj", "proj", "simp", "sine", "lin", "flat", "kink", "steep", "rosen", "sine"])
    n = rng.choice([1, 2, 3, 5, 8]) if k != "rosen" else rng.choice([2, 3, 4])
    if rng.random() < 0.06:
        k, n = "rcwa", 16
    x0 = [round(rng.choice([rng.random(), rng.random(), 0.5, 0.0, 1.0]), 3) for _ in range(n)]
    a = rng.choice([0, 0, 1, 2, 3])
    thr = [a, a + rng.choice([1, 1, 2, 3])]
    if rng.random() < 0.1:
        thr = [a, a + 4, 2]
    if k == "rcwa":
        thr = [a, a + 2]
    method = rng.choice(["scipy", "nlopt"])
    spec = dict(k=k, w=[round(rng.uniform(0.1, 2), 3) for _ in range(n)], t=[round(rng.random(), 3) for _ in range(n)], x0=x0,
                xk=rng.choice(["np", "np", "list", "f32", "bk"]), a0=rng.choice([1, None, 0.5, 64]),
                extra=[rng.choice([3, "s", None, [1, 2], {"np": [1.0, 2.0]}, 0.25]) for _ in range(rng.choice([0, 0, 1, 2]))],
                tup=rng.random() < 0.4, method=method, thr=thr, maxiter=rng.choice([1, 2, 3, 5, 8, 15]) if k != "rcwa" else rng.choice([1, 2, 3]), stopval=None,
                cb=rng.random() < 0.85, options=None, verbose=rng.random() < 0.3, omit=rng.random() < 0.3, cbret=rng.random() < 0.1)
    if rng.random() < 0.35:
        spec["stopq"] = round(rng.random(), 3)  # stop value placed among the values a free run reaches
        if rng.random() < 0.25:
            spec["stop0"] = rng.choice([0.0, 0])  # the objective is shifted so that the stop value is zero
    if rng.random() < 0.3:
        spec["options"] = rng.choice([dict(ftol=1e-3), dict(gtol=1e-2), dict(maxls=5), dict()]) if method == "scipy" else rng.choice([dict(ftol_rel=1e-3), dict(xtol_rel=1e-2), dict(ftol_abs=1e-3, xtol_abs=1e-3), dict()])
    return spec


def setup(nn, plan):
    """Backend and optional packages of one run."""
    import sys

    if plan.get("nlopt_missing"):
        sys.modules["nlopt"] = None
    nn.set_backend(plan["backend"])
    instrument.collect()


def attempt(nn, spec, o=None):
    """One minimise: -> (result or exception, events)"""
    import numpy as np

    EVENTS.clear()
    GRADS.clear()
    held = None
    if o is None:
        o, held = build(nn, spec, objective(nn, spec), callback(nn, spec))
    try:
        x, v = o.minimize()
        r = ("ok", plain(x), float(plain(v)))
    except Violation:
        raise
    except instrument.StepBudget:
        raise
    except BaseException as e:  # noqa
        import traceback

        r = ("exc", type(e).__name__, repr(e.args), "".join(traceback.format_exception(e))[-800:], e)
    return r, [list(e) for e in EVENTS], o, held


def judge_run(spec, r, ev, levels, what):
    """The contract of one successful run."""
    import numpy as np

    f = [e for e in ev if e[0] == "f"]
    if not f:
        raise Violation("no-evaluation", f"{what}: a result without any evaluation")
    ex = simtasks.canon(extra(spec))
    want = [simtasks.canon(2**i) for i in levels]
    seen = []
    for e in f:
        if not seen or seen[-1] != e[2]:
            seen.append(e[2])
    if seen != want:
        raise Violation("schedule", f"{what}: levels visited {seen} instead of {want}")
    for e in ev:
        if e[3] != ex:
            raise Violation("args", f"{what}: extra arguments {e[3]} instead of {ex}")
        if not ((e[1] >= -1e-9) & (e[1] <= 1 + 1e-9)).all():
            raise Violation("bounds", f"{what}: design {e[1].tolist()} evaluated")
    for at, gx, gl, ge in GRADS:
        near = {e[2] for e in ev[:at][-2:] + ev[at:][:1]}
        if gl not in near:
            raise Violation("schedule", f"{what}: gradient asked for level {gl} at level {sorted(near)}")
        if ge != ex:
            raise Violation("args", f"{what}: extra arguments {ge} for the gradient instead of {ex}")
        if not ((gx >= -1e-9) & (gx <= 1 + 1e-9)).all():
            raise Violation("bounds", f"{what}: gradient at {gx.tolist()}")
    if spec["cb"]:
        for i in range(0, max(len(ev), 2 * len(f)), 2):
            pair = ev[i:i + 2]
            if [p[0] for p in pair] != ["f", "cb"] or not np.array_equal(pair[0][1], pair[1][1]) or pair[0][2:] != pair[1][2:]:
                raise Violation("callback", f"{what}: evaluation {pair[0]} was followed by {pair[1:]}")
    elif any(e[0] == "cb" for e in ev):
        raise Violation("callback", f"{what}: unexpected callback")
    x, v = r[1], r[2]
    if x.shape != (len(spec["x0"]),) or not ((x >= 0) & (x <= 1)).all():
        raise Violation("bounds", f"{what}: returned design {x.tolist()}")
    last = [e for e in f if e[2] == want[-1]]
    same = [e[4] for e in last if np.array_equal(e[1], x)]
    if v not in same:
        near = min((float(np.abs(e[1] - x).max()), e[4]) for e in last)
        raise Violation("wrong-value", f"{what}: returned value {v!r} for the design {x.tolist()}, evaluations of that design gave {same}, closest evaluation {near}")
    if spec["stopval"] is not None:
        below = [e for e in last if e[4] < spec["stopval"]]
        if below and not v < spec["stopval"]:
            raise Violation("stop-value", f"{what}: the stop value {spec['stopval']} was reached with {below[0][4]} but {v} was returned")
        if below and last[-1] is not below[0]:
            raise Violation("stop-value", f"{what}: evaluations went on after the stop value {spec['stopval']} was reached")
    if spec["method"] == "nlopt" and not spec.get("fallback"):
        for l in want:
            n = sum(e[2] == l for e in f)
            if n > spec["maxiter"]:
                raise Violation("iterations", f"{what}: {n} evaluations at level {l}, at most {spec['maxiter']} were asked for")
    if v > last[0][4]:
        raise Violation("worse", f"{what}: the last level started at a design of value {last[0][4]!r} and returned one of value {v!r}")
    return f
