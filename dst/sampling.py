"""Functions to be sampled, sampler runs under the simulator."""
import math

from . import sched, simjoblib, simtasks
from .core import SimAbort, Violation

STATE = dict(calls=[], fail=None, epoch=0, limit=None, fired=False)


def value(spec, x):
    k = spec["k"]
    c, w = spec["c"], spec["w"]
    if k == "lorentz":
        return 1.0 / (1.0 + ((x - c) / w) ** 2)
    if k == "fano":
        u = (x - c) / w
        return (u + 0.7) ** 2 / (1 + u * u)
    if k == "step":
        return 1.0 if x > c else -0.5
    if k == "smoothstep":
        return math.tanh((x - c) / w)
    if k == "abs":
        return abs(x - c)
    if k == "sin":
        return math.sin(x / (w + 0.05))
    if k == "const":
        return 0.75
    if k == "lin":
        return 2.0 * x + 1
    if k == "two":
        return 1.0 / (1.0 + ((x - c) / w) ** 2) - 0.6 / (1.0 + ((x - 0.5 * c - 0.1) / (0.4 * w)) ** 2)
    if k == "noise":
        return simtasks.unit(f"{spec['c']}|{float(x).hex()}")
    if k == "intish":
        return 1 if x < c else 1 + math.sin((x - c) / w)
    if k == "plateau":
        return min(max((x - c) / w, 0.0), 1.0)
    raise ValueError(k)


def make(spec, fault=None):
    """Scalar, list, tuple or array valued function of one number."""
    from . import sampling as S
    from . import simtasks as T

    shape = spec["shape"]
    sess = {}

    def f(x):
        xf = float(x)
        S.STATE["calls"].append(xf)
        if S.STATE["limit"] is not None and len(S.STATE["calls"]) > S.STATE["limit"]:
            raise Violation("does-not-stop", f"more than {S.STATE['limit']} evaluations")
        epoch = S.STATE["epoch"]
        s = sched.CURRENT
        t = s.current() if s is not None else None
        if t is not None:
            if spec.get("delay"):
                s.sleep(0.05 * T.unit(xf.hex()))
            else:
                s.yield_("f")
        flt = S.STATE["fail"]
        if flt is not None and epoch == S.STATE["epoch"]:
            hit = (flt["at"] is not None and len(S.STATE["calls"]) >= flt["at"]) or (flt["x"] is not None and xf > flt["x"])
            if hit:
                S.STATE["fail"] = None
                S.STATE["fired"] = True
                if flt["exc"] == "death":
                    raise simjoblib.WorkerDies()
                raise T.EXCS[flt["exc"]]()
        if spec["k"] == "rcwa":
            v = S.rcwa(spec, xf)
        else:
            v = S.value(spec, xf)
        if shape == "scalar":
            return v
        if shape == "npscalar":
            import numpy as np

            return np.float64(v)
        if shape == "list":
            return [v, 2 * v + xf, xf]
        if shape == "tuple":
            return (v, -xf)
        if shape == "cplx":
            return [v, v + 1j * xf]
        if shape == "one":
            return [v]
        if shape == "zerod":  # what an answer on the current backend looks like
            bk = _current().backend
            return bk.array(float(v), dtype=bk.float64)
        import numpy as np

        return np.array([v, xf, 1.0, v * v])

    return f


def _current():
    import nannos

    return nannos


def rcwa(spec, x):
    import nannos

    lat = nannos.Lattice(1.0, discretization=(32, 1))
    pw = nannos.PlaneWave(wavelength=1.05 + 0.2 * abs(x), angles=(0, 0, 0))
    sup, sub = lat.Layer("Superstrate", epsilon=1), lat.Layer("Substrate", epsilon=1)
    lay = lat.Layer("g", thickness=0.3)
    e = lat.ones() * 1.0
    e[:12] = 6.0
    lay.epsilon = e
    sim = nannos.Simulation([sup, lay, sub], pw, nh=3)
    R, _ = sim.diffraction_efficiencies()
    return float(R)


KINDS = ["lorentz", "lorentz", "fano", "step", "smoothstep", "abs", "sin", "const", "lin", "two", "noise", "plateau", "intish"]


def gen_spec(rng, i):
    lo = round(rng.choice([0.0, -1.0, 1.0, 100.0, rng.uniform(-5, 5)]), 3)
    span = rng.choice([1.0, 1.0, 0.01, 1000.0, round(rng.uniform(0.5, 5), 3)])
    n = rng.choice([2, 3, 3, 4, 5, 7, 11, 15, 21])
    k = rng.choice(KINDS)
    if rng.random() < 0.04:
        k, lo, span, n = "rcwa", 0.0, 1.0, rng.choice([3, 5, 9])
    if rng.random() < 0.6:
        grid = [lo + span * j / (n - 1) for j in range(n)]
    else:
        pts = {0, 10**6}
        while len(pts) < n:
            pts.add(rng.randrange(10**6))
        grid = [lo + span * p / 10**6 for p in sorted(pts)]
        # points too close together are outside the documented use
        if min(b - a for a, b in zip(grid, grid[1:])) < 1e-4 * span:
            grid = [lo + span * j / (n - 1) for j in range(n)]
    spec = dict(k=k, c=round(lo + span * rng.uniform(0.1, 0.9), 5), w=round(span * rng.choice([0.3, 0.1, 0.02, 0.004]), 7),
                grid=grid, shape=rng.choice(["scalar", "scalar", "npscalar", "list", "tuple", "array", "one", "cplx", "zerod"]))
    par = {}
    if rng.random() < 0.7:
        par["max_bend"] = rng.choice([10, 5, 20, 45, 2, 90])
    if rng.random() < 0.7:
        par["max_x_rel"] = rng.choice([1e-3, 1e-2, 0.05, 3e-3, 0.2])
    if rng.random() < 0.7:
        par["max_df"] = rng.choice([0.05, 0.01, 0.2, 0.0, 0.5])
    if k == "noise":
        par["max_x_rel"] = rng.choice([0.02, 0.05, 0.01])
    spec["par"] = par
    spec["pos"] = rng.random() < 0.1
    r = rng.random()
    if r < 0.2:  # the grid is handed over in another order
        spec["perm"] = list(range(len(grid)))[::-1] if r < 0.08 else rng.sample(range(len(grid)), len(grid))
    return spec


def full_params(spec):
    return dict(max_bend=10, max_x_rel=1e-3, max_df=0.05) | spec["par"]


def limit(spec):
    return len(spec["grid"]) + int(2.0 / full_params(spec)["max_x_rel"]) + 10


def sample(nn, spec, f, n_jobs):
    import numpy as np

    x = np.array(spec["grid"], dtype=float)
    if spec.get("perm"):
        x = x[spec["perm"]]
    keep = x.copy()
    p = full_params(spec)
    if spec["pos"]:
        args, kw = (p["max_bend"], p["max_x_rel"], p["max_df"]), dict(n_jobs=n_jobs)
    else:
        args, kw = (), dict(spec["par"], n_jobs=n_jobs)
        if n_jobs == 1 and spec.get("omit"):
            kw.pop("n_jobs")
    out = nn.adaptive_sampler(f, x, *args, **kw)
    if not (x == keep).all():
        raise Violation("input-changed", "the starting grid passed in was modified")
    return out


def plain(v):
    import numpy as np

    return np.array([np.array(u, dtype=complex) for u in v])
