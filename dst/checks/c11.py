import json
import math

from .. import instrument, sampling, sched, simjoblib, simtasks
from ..core import HarnessError, SimAbort, Violation, forked
from .c10 import C10

EPS = 1e-9


def asks(x3, y3, span, yspan, p, slack):
    """Does the middle point of three ask for refinement? slack > 0: surely, < 0: possibly."""
    (xp, x0, xn), (yp, y0, yn) = x3, y3
    a, b = x0 - xp, xn - x0
    # the slack is relative: comparisons that hold by a hair count as undecided
    def lt(u, v):  # u < v for sure (slack>0) or possibly (slack<0)
        return u < v - slack * max(abs(u), abs(v), 1e-300)

    def surely_not_lt(u, v):
        return u >= v + slack * max(abs(u), abs(v), 1e-300)

    dx = p["max_x_rel"] * span
    dy = p["max_df"] * yspan
    # any of these excuses the point
    both_short = surely_not_lt(a, dx) or surely_not_lt(b, dx)  # True: not both short
    both_flat = surely_not_lt(abs(y0 - yp), dy) or surely_not_lt(abs(yn - y0), dy)
    r = max(yp, y0, yn) - min(yp, y0, yn)
    unequal = lt(3 * b, a) or lt(3 * a, b)
    bent = False
    if r > 0:
        u0, u1 = a / (xn - xp), b / (xn - xp)
        v0, v1 = (y0 - yp) / r, (yn - y0) / r
        cosang = (u0 * u1 + v0 * v1) / math.sqrt((u0 * u0 + v0 * v0) * (u1 * u1 + v1 * v1))
        bent = cosang < math.cos(math.radians(p["max_bend"])) - slack
    elif slack < 0:
        bent = True  # no variation at all: the angle is not defined, either choice is accepted
    return (unequal or bent) and both_short and both_flat


def metric(v):
    return float(v[0].real if hasattr(v, "__len__") and getattr(v, "shape", None) != () and len(v) else v)


def run_refine(nn, plan):
    import warnings

    import numpy as np

    warnings.filterwarnings("ignore")
    np.seterr(all="ignore")
    simjoblib.install()
    simtasks.reset(dict(delays="none", seed=plan["dseed"]))
    S = sampling.STATE
    log = []
    c = dict(points=0, added=0, runs=0, justified=0)
    inter, traces = [], []
    for n, o in enumerate(plan["ops"]):
        spec = dict(plan["specs"][o["spec"]])
        p = sampling.full_params(spec)
        f = sampling.make(spec)
        S.update(calls=[], fail=None, epoch=S["epoch"] + 1, limit=2 * sampling.limit(spec), fired=False)
        what = f"run {n} of the sampler ({o['jobs']} jobs) on {json.dumps(plan['specs'][o['spec']])}"
        res = {}

        def go():
            res["v"] = sampling.sample(nn, spec, f, o["jobs"])

        if o["jobs"] == 1:
            try:
                with instrument.watching(budget=40_000_000):
                    go()
            except instrument.StepBudget as e:
                raise Violation("does-not-stop", f"{what}: still running after 40 million source lines ({e})")
        else:
            s = sched.Sched(o["sched"], max_steps=3_000_000)
            tasks = s.run([go])
            traces.append([n, s.trace])
            inter.append(s.interleaving())
            if tasks[0].exc is not None:
                raise tasks[0].exc
        calls = list(S["calls"])
        x = [float(v) for v in res["v"][0]]
        y = [metric(v) for v in res["v"][1]]
        span = x[-1] - x[0]
        yspan = max(y) - min(y)
        dx = p["max_x_rel"] * span
        # the spacing that the parameters allow
        grid = spec["grid"]
        known = dict(zip(x, y))
        if [v for v in calls if v not in known]:
            raise Violation("lost-point", f"{what}: an evaluated point is not among the returned ones")
        if o["jobs"] == 1:
            check_added(what, spec, p, calls, known, c)
        else:
            for a, b in zip(x, x[1:]):
                if b - a < 0.5 * dx * (1 - 1e-9) and not (a in grid and b in grid):
                    raise Violation("too-close", f"{what}: points {a!r} and {b!r} are closer than half the minimum spacing {dx!r}")
        for i in range(1, len(x) - 1):
            if asks(x[i - 1:i + 2], y[i - 1:i + 2], span, yspan, p, EPS):
                raise Violation("unrefined", f"{what}: the returned point x={x[i]!r} still asks for refinement")
        c["points"] += len(x)
        c["added"] += len(x) - len(grid)
        c["runs"] += 1
        log.append([n, len(x), sum(x), sum(y)])
    return dict(log=log, counts=c, inter=inter, traces=traces)


def check_added(what, spec, p, calls, known, c):
    """Every point evaluated after the starting grid halves an interval of the points known so
    far, long enough, next to a point that asked for it."""
    import bisect

    pts = sorted(spec["grid"])
    # earlier states of the point set; the points of one round belong to the state before it
    rest = list(calls)
    for g in pts:
        if g in rest:
            rest.remove(g)
    span = pts[-1] - pts[0]
    dx = p["max_x_rel"] * span
    cur = list(pts)
    history = [list(cur)]
    hist_max = 400
    for v in rest:
        k = bisect.bisect_left(cur, v)
        if k == 0 or k == len(cur) or cur[k] == v:
            raise Violation("not-a-midpoint", f"{what}: added point {v!r} is outside the grid or not new")
        a, b = cur[k - 1], cur[k]
        if abs(v - 0.5 * (a + b)) > 1e-9 * (b - a) + 4e-16 * max(abs(a), abs(b)):
            raise Violation("not-a-midpoint", f"{what}: added point {v!r} is not the middle of [{a!r}, {b!r}]")
        if b - a < dx * (1 - 1e-9):
            raise Violation("too-close", f"{what}: the interval [{a!r}, {b!r}] is shorter than the minimum spacing {dx!r} and was divided at {v!r}")
        if len(known) <= hist_max and not justified(a, b, history, known, span, p):
            raise Violation("unasked", f"{what}: no point asked to divide [{a!r}, {b!r}] at {v!r}")
        c["justified"] += 1
        cur.insert(k, v)
        if len(known) <= hist_max:
            history.append(list(cur))


def justified(a, b, history, known, span, p):
    import bisect

    for pts in reversed(history):
        i = bisect.bisect_left(pts, a)
        if not (i + 1 < len(pts) and pts[i] == a and pts[i + 1] == b):
            return False
        ys = [known[q] for q in pts]
        yspan = max(ys) - min(ys)
        for m in (i, i + 1):  # centre a or centre b
            if 0 < m < len(pts) - 1 and asks(pts[m - 1:m + 2], ys[m - 1:m + 2], span, yspan, p, -EPS):
                return True
    return False


class C11(C10):
    id = "C11"
    title = "the adaptive sampler refines where its parameters say, and stops"
    runs = dict(quick=1500, thorough=80000)
    rule = "one case is one series of sampler runs judged point by point against the refinement rule, with step and evaluation budgets; non-trivial if points were added"
    assumptions = ["comparisons that hold by less than 1e-9 are accepted either way", "the rule for added points is judged on serial runs with at most 400 points"]

    def gen(self, rng, i, tier):
        plan = dict(specs=[sampling.gen_spec(rng, j) for j in range(rng.choice([1, 2, 2]))], ops=[], dseed=rng.randrange(10**6))
        for k in range(len(plan["specs"])):
            jobs = rng.choice([1, 1, 1, 1, 3])
            o = dict(spec=k, jobs=jobs)
            if jobs > 1:
                o["sched"] = dict(mode="random", seed=rng.randrange(2**40), p=0.02)
            plan["ops"].append(o)
        return plan

    def concretise(self, nn, plan):
        return plan

    def run(self, nn, plan):
        out = forked(run_refine, nn, plan)
        st = dict(out["counts"], inter=out["inter"], faults={}, nontrivial=int(out["counts"]["added"] > 0))
        return dict(log=out["log"] + out["inter"], stats=st)


CHECK = C11()
