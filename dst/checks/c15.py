import json

from .. import instrument, opt, simtasks
from ..core import Violation, forked
from .c14 import C14, ev_digest, levels


def fresh(nn, plan, spec):
    import numpy as np

    np.seterr(all="ignore")
    opt.setup(nn, plan)
    opt.FAULT.update(spec=None, count=0, fired=None)
    r, ev, _, _ = opt.attempt(nn, spec)
    return r[:3] if r[0] == "ok" else r[:3], ev_digest(ev), len([e for e in ev if e[0] == "f"])


def lines(nn, plan, spec):
    """Number of nannos lines one minimise executes."""
    import numpy as np

    np.seterr(all="ignore")
    opt.setup(nn, plan)
    opt.FAULT.update(spec=None, count=0, fired=None)
    o, _ = opt.build(nn, spec, opt.objective(nn, spec), opt.callback(nn, spec))
    with instrument.watching() as p:
        try:
            o.minimize()
        except Exception:  # noqa
            pass
    return p.count


def run_faults(nn, plan, refs):
    import numpy as np

    np.seterr(all="ignore")
    opt.setup(nn, plan)
    log = []
    c = dict(runs=0, evaluations=0, later=0)
    faults = {}
    os_ = {}
    failed = False
    for n, o in enumerate(plan["ops"]):
        spec = dict(plan["specs"][o["spec"]], fallback=bool(plan.get("nlopt_missing")))
        f = o.get("fault")
        key = (o["spec"], o.get("inst", 0))
        what = f"optimization {n} ({plan['backend']}, fault {json.dumps(f)}) {json.dumps({k: spec[k] for k in ('k', 'x0', 'xk', 'method', 'thr', 'maxiter', 'stopval', 'options')})}"
        opt.FAULT.update(spec=None, count=0, fired=None)
        if key not in os_:
            os_[key] = opt.build(nn, spec, opt.objective(nn, spec), opt.callback(nn, spec))[0]
        fired = None
        if f is not None and f["where"] == "line":
            e = simtasks.EXCS[f["exc"]]()
            with instrument.watching(at=f["at"], exc=e) as p:
                r, ev, _, _ = opt.attempt(nn, spec, os_[key])
            fired = e if p.fired else None
            loc = p.fired
        else:
            opt.FAULT.update(spec=f, count=0, fired=None)
            r, ev, _, _ = opt.attempt(nn, spec, os_[key])
            fired = opt.FAULT["fired"]
            loc = f and f["where"]
            opt.FAULT.update(spec=None, count=0, fired=None)
        c["runs"] += 1
        c["evaluations"] += len(ev)
        log.append([n, r[0], r[1] if r[0] == "exc" else float(r[2]), len(ev), bool(fired)])
        if fired:
            k = f"{f['where']}:{f['exc']}"
            faults[k] = faults.get(k, 0) + 1
            want = simtasks.EXCS[f["exc"]]()
            if r[0] == "ok":
                raise Violation("swallowed", f"{what}: returned {r[2]} although {type(want).__name__} was raised in {loc}")
            if r[1] != type(want).__name__ or r[2] != repr(want.args):
                raise Violation("wrong-error", f"{what}: {type(want).__name__}{want.args} raised in {loc} arrived as {r[1]}{r[2]}; {r[3]}")
            failed = True
            continue
        ref, refev, _ = refs[o["spec"]]
        if r[0] == "exc":
            if ref[0] == "exc" and ref[1] == r[1]:
                continue
            raise Violation("raised", f"{what} raised {r[1]}{r[2]} {r[3]}")
        if ref[0] != "ok" or not np.array_equal(ref[1], r[1]) or ref[2] != r[2] or refev != ev_digest(ev):
            raise Violation("differs", f"{what}: gives {r[2]} but a fresh optimizer gives {ref[2]}")
        opt.judge_run(spec, r, ev, levels(spec), what)
        c["later"] += failed
    return dict(log=log, counts=c, faults=faults)


class C15(C14):
    id = "C15"
    title = "optimizer failures surface and leave the optimizer usable"
    runs = dict(quick=2500, thorough=100000)
    lists = ("ops",)
    rule = "one case is one sequence of optimizations on reused optimizers with exceptions injected into objective, gradient, callback or at a source line; non-trivial if a fault fired and a later run was compared with a fresh optimizer"

    def gen(self, rng, i, tier):
        plan = dict(backend=rng.choice(["autograd", "autograd", "torch"]), specs=[opt.gen_spec(rng) for _ in range(rng.choice([1, 1, 2]))],
                    nlopt_missing=rng.random() < 0.15, ops=[])
        for s in plan["specs"]:
            if s.pop("stopq", None) is not None:
                s["stopval"] = rng.choice([0.05, 0.5, 2.0, -0.5])
            s["verbose"] = False
        for _ in range(rng.choice([2, 3, 4, 5])):
            o = dict(spec=rng.randrange(len(plan["specs"])), inst=rng.choice([0, 0, 0, 1]))
            if rng.random() < 0.65:
                o["fault"] = dict(where=rng.choice(["fun", "fun", "grad", "cb", "line"]), n=rng.choice([1, 1, 2, 3, 4, 6, 9, 14]), exc=rng.choice(sorted(simtasks.EXCS)))
                if o["fault"]["where"] == "line":
                    o["fault"] = dict(where="line", q=rng.random(), exc=rng.choice(["KeyboardInterrupt", "MemoryError", "KeyboardInterrupt"]))
            plan["ops"].append(o)
        plan["ops"].append({k: v for k, v in plan["ops"][-1].items() if k != "fault"})
        return plan

    def prepare(self, nn, plan):
        if any(o.get("fault", {}).get("where") == "line" and "at" not in o["fault"] for o in plan["ops"]):
            plan = json.loads(json.dumps(plan))
            n = {}
            for o in plan["ops"]:
                f = o.get("fault")
                if f and f["where"] == "line" and "at" not in f:
                    if o["spec"] not in n:
                        n[o["spec"]] = forked(lines, nn, plan, plan["specs"][o["spec"]])
                    f["at"] = 1 + int(f["q"] * max(n[o["spec"]] - 1, 1))
        return plan

    def run(self, nn, plan):
        refs = {}
        for o in plan["ops"]:
            if o["spec"] not in refs:
                refs[o["spec"]] = forked(fresh, nn, plan, dict(plan["specs"][o["spec"]], fallback=bool(plan.get("nlopt_missing"))))
        out = forked(run_faults, nn, plan, refs)
        c = out["counts"]
        fl = dict(out["faults"])
        if plan.get("nlopt_missing"):
            fl["nlopt missing"] = 1
        return dict(log=out["log"], stats=dict(c, faults=fl, nontrivial=int(bool(out["faults"]) and c["later"] > 0)))

    def shrink(self, plan):
        for p in super().shrink(plan):
            yield p


CHECK = C15()
