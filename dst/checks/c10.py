import json

from .. import sampling, sched, simjoblib, simtasks
from ..check import Check
from ..core import HarnessError, SimAbort, Violation, forked


def run_sampler(nn, plan):
    import warnings

    import numpy as np

    warnings.filterwarnings("ignore")
    np.seterr(all="ignore")
    simjoblib.install()
    simjoblib.STATS.clear()
    simtasks.reset(dict(delays="none", seed=plan["dseed"]))
    S = sampling.STATE
    log = []
    counts = dict(points=0, added=0, runs=0, failures=0)
    inter, simtime, switches, steps = [], 0.0, 0, 0
    traces = []
    base = {}
    fired = {}
    for n, o in enumerate(plan["ops"]):
        spec = dict(plan["specs"][o["spec"]], delay=o.get("delay"))
        f = sampling.make(spec)
        S.update(calls=[], fail=o.get("fail"), epoch=S["epoch"] + 1, limit=2 * sampling.limit(spec), fired=False)
        res = {}

        def go():
            try:
                res["v"] = sampling.sample(nn, spec, f, o["jobs"])
            except (SimAbort, HarnessError, Violation):
                raise
            except BaseException as e:  # noqa
                import traceback

                res["e"] = (type(e).__name__, repr(e.args), "".join(traceback.format_exception(e))[-600:])

        what = f"run {n} of the sampler ({o['jobs']} jobs) on {json.dumps(plan['specs'][o['spec']])}"
        if o["jobs"] == 1:
            go()
        else:
            s = sched.Sched(o["sched"], max_steps=2_000_000)
            tasks = s.run([go])
            traces.append([n, s.trace])
            for t in tasks[:1]:
                if t.exc is not None:
                    raise t.exc
            inter.append(s.interleaving())
            simtime += s.clock.elapsed
            switches += s.switches
            steps += s.step
        counts["runs"] += 1
        calls = list(S["calls"])
        if S["fired"]:
            k = "task:" + o["fail"]["exc"]
            fired[k] = fired.get(k, 0) + 1
        S["epoch"] += 1
        if "e" in res:
            if not S["fired"]:
                raise Violation("raised", f"{what} raised {res['e'][0]}{res['e'][1]} {res['e'][2]}")
            fl = o["fail"]["exc"]
            want = ("TerminatedWorkerError", None) if fl == "death" else (type(simtasks.EXCS[fl]()).__name__, repr(simtasks.EXCS[fl]().args))
            if res["e"][0] != want[0] or (want[1] is not None and want[1] != res["e"][1]):
                raise Violation("wrong-error", f"{what}: the evaluation failed with {want} but the sampler raised {res['e'][:2]} {res['e'][2]}")
            counts["failures"] += 1
            log.append([n, "e", res["e"][0]])
            continue
        if S["fired"]:
            raise Violation("swallowed", f"{what} returned although an evaluation failed with {o['fail']}")
        try:
            xs, ys = res["v"]
            x = np.array(xs, dtype=float)
            y = sampling.plain(ys)
        except Exception as e:  # noqa
            raise Violation("bad-return", f"{what}: {type(e).__name__} {e}: {str(res['v'])[:200]}")
        if x.ndim != 1 or len(y) != len(x):
            raise Violation("bad-return", f"{what}: {len(y)} values for {x.shape} points")
        if not (np.diff(x) > 0).all():
            raise Violation("not-increasing", f"{what}: the returned points do not increase")
        miss = [g for g in spec["grid"] if g not in set(x.tolist())]
        if miss:
            raise Violation("grid-lost", f"{what}: starting points {miss[:3]} are not among the returned points")
        S["fail"] = None
        mark = len(S["calls"])
        pure = sampling.make(dict(plan["specs"][o["spec"]]))
        S["limit"] = None
        w = np.array([np.array(pure(v), dtype=complex) for v in x])
        if w.shape != y.shape or not np.array_equal(w, y):
            i = 0 if w.shape != y.shape else [bool(np.array_equal(a, b)) for a, b in zip(w, y)].index(False)
            raise Violation("wrong-value", f"{what}: point {i} x={x[i]!r} is paired with {y[i].tolist()} but the function gives {w[i].tolist()}")
        if sorted(calls) != x.tolist():
            extra = len(calls) - len(x)
            raise Violation("evaluations", f"{what}: {len(calls)} evaluations for {len(x)} returned points")
        key = o["spec"]
        if key in base and not (np.array_equal(base[key][0], x) and np.array_equal(base[key][1], y)):
            raise Violation("differs", f"{what}: {len(x)} points, while an earlier run of the same sampling ({base[key][2]} jobs) gave {len(base[key][0])} points or other values")
        base.setdefault(key, (x, y, o["jobs"]))
        counts["points"] += len(x)
        counts["added"] += len(x) - len(spec["grid"])
        log.append([n, len(x), float(x.sum()), float(abs(y.sum()))])
    return dict(log=log, counts=counts, inter=inter, simtime=simtime, switches=switches, steps=steps, pool=dict(simjoblib.STATS), traces=traces, fired=fired)


class C10(Check):
    id = "C10"
    title = "the adaptive sampler returns exact samples, serial or parallel"
    runs = dict(quick=1300, thorough=60000)
    lists = ("ops",)
    rule = "one case is one series of sampler runs, serial and parallel, with failing evaluations, each parallel run under one seeded worker schedule; non-trivial if points were added and a parallel run was compared to another run"
    components = dict(real=["nannos.sample, nannos.parallel", "joblib.Parallel", "nannos simulations as sampled functions in some runs"],
                      stub=["joblib worker pools", "clock (virtual)"])
    assumptions = ["starting grids have at least two distinct points, in any order; relative spacing limits of 1e-3 and above"]

    def gen(self, rng, i, tier):
        plan = dict(specs=[sampling.gen_spec(rng, j) for j in range(rng.choice([1, 1, 2]))], ops=[], dseed=rng.randrange(10**6))
        for _ in range(rng.choice([2, 3, 3, 4])):
            o = dict(spec=rng.randrange(len(plan["specs"])), jobs=rng.choice([1, 1, 2, 2, 3, 4, 6]))
            if o["jobs"] > 1:
                o["sched"] = dict(mode="random", seed=rng.randrange(2**40), p=rng.choice([0.01, 0.1]))
                o["delay"] = rng.random() < 0.5
            if rng.random() < 0.25:
                sp = plan["specs"][o["spec"]]
                lo, hi = sp["grid"][0], sp["grid"][-1]
                exc = rng.choice(sorted(simtasks.EXCS) + (["death"] * 3 if o["jobs"] > 1 else []))
                if rng.random() < 0.5:
                    o["fail"] = dict(at=rng.choice([1, 2, 3, 5, 8, 14, 30]), x=None, exc=exc)
                else:
                    o["fail"] = dict(at=None, x=lo + (hi - lo) * rng.random(), exc=exc)
            plan["ops"].append(o)
        if len({(o["spec"], o["jobs"] > 1) for o in plan["ops"]}) < 2:
            o = dict(spec=plan["ops"][0]["spec"], jobs=1 if plan["ops"][0]["jobs"] > 1 else 3)
            if o["jobs"] > 1:
                o["sched"] = dict(mode="random", seed=rng.randrange(2**40), p=0.05)
            plan["ops"].append(o)
        return plan

    def concretise(self, nn, plan):
        plan = json.loads(json.dumps(plan))
        try:
            out = forked(run_sampler, nn, plan)
        except Violation:
            return plan  # the seeded schedules stay: they repeat exactly as well
        for n, tr in out["traces"]:
            plan["ops"][n]["sched"] = dict(mode="explicit", sw=tr)
        return plan

    def run(self, nn, plan):
        out = forked(run_sampler, nn, plan)
        c = out["counts"]
        par = sum(o["jobs"] > 1 and not o.get("fail") for o in plan["ops"])
        st = dict(c, inter=out["inter"], simtime=out["simtime"], switches=out["switches"], steps=out["steps"], pool=out["pool"], faults=out["fired"],
                  nontrivial=int(c["added"] > 0 and par > 0 and c["runs"] - c["failures"] >= 2))
        return dict(log=out["log"] + out["inter"], stats=st)

    def shrink(self, plan):
        for j, sp in enumerate(plan["specs"]):
            cand = []
            if sp["shape"] != "scalar":
                cand.append(dict(sp, shape="scalar"))
            if len(sp["grid"]) > 3:
                cand.append(dict(sp, grid=sp["grid"][:: 2] if len(sp["grid"]) % 2 else sp["grid"][:-1]))
            if sp["par"]:
                cand.append(dict(sp, par={}))
            for c in cand:
                p = json.loads(json.dumps(plan))
                p["specs"][j] = c
                yield p


CHECK = C10()
