import json

from .. import opt, simtasks
from ..check import Check
from ..core import HarnessError, Violation, digest, forked


def levels(spec):
    return list(range(*spec["thr"]))


def ev_digest(ev):
    return digest([[e[0], e[1].tolist()] + e[2:] for e in ev])


def run_opt(nn, plan):
    import numpy as np

    np.seterr(all="ignore")
    opt.setup(nn, plan)
    log = []
    c = dict(runs=0, evaluations=0, levels=0, stops=0)
    for n, spec in enumerate(plan["specs"]):
        spec = dict(spec)
        spec["fallback"] = bool(plan.get("nlopt_missing"))
        what = f"optimization {n} ({plan['backend']}) {json.dumps({k: spec[k] for k in ('k', 'x0', 'xk', 'method', 'thr', 'maxiter', 'stopval', 'options')})}"
        opt.FAULT.update(spec=None, count=0, fired=None)
        if "stopq" in spec:
            free, ev, _, _ = opt.attempt(nn, dict(spec, stopval=None))
            vals = sorted({e[4] for e in ev if e[0] == "f"})
            if free[0] == "ok" and len(vals) > 1:
                j = min(int(spec["stopq"] * (len(vals) - 1)), len(vals) - 2)
                spec["stopval"] = 0.5 * (vals[j] + vals[j + 1])
                if "stop0" in spec:
                    spec.update(off=spec["stopval"], stopval=spec["stop0"])
        r, ev, o, held = opt.attempt(nn, spec)
        if r[0] == "exc":
            if r[1] == "RoundoffLimited":  # the optimizer library itself gives up, with an error
                log.append([n, "roundoff"])
                continue
            raise Violation("raised", f"{what} raised {r[1]}{r[2]} {r[3]}")
        f = opt.judge_run(spec, r, ev, levels(spec), what)
        if spec["stopval"] is not None and f[-1][4] < spec["stopval"]:
            c["stops"] += 1
        # the same optimizer again
        r2, ev2, _, _ = opt.attempt(nn, spec, o)
        if r2[0] == "exc":
            raise Violation("rerun", f"{what}: running it again raised {r2[1]}{r2[2]} {r2[3]}")
        opt.judge_run(spec, r2, ev2, levels(spec), what + " (second run)")
        if not np.array_equal(r[1], r2[1]) or r[2] != r2[2] or ev_digest(ev) != ev_digest(ev2):
            raise Violation("rerun", f"{what}: the second run gives {r2[2]} after {len(ev2)} events, the first gave {r[2]} after {len(ev)}")
        # each level starts from the result of the optimization that ends one level earlier
        lv = levels(spec)
        for m in range(1, len(lv)):
            step = spec["thr"][2] if len(spec["thr"]) > 2 else 1
            short = dict(spec, thr=[lv[0], lv[m], step])
            p, evp, _, _ = opt.attempt(nn, short)
            if p[0] == "exc":
                raise Violation("raised", f"{what}: shorter schedule {short['thr']} raised {p[1]}{p[2]}")
            start = [e for e in f if e[2] == simtasks.canon(2 ** lv[m])][0]
            if not np.allclose(start[1], p[1], rtol=0, atol=1e-12):
                raise Violation("warm-start", f"{what}: level {2 ** lv[m]} started at {start[1].tolist()} but the previous level ended at {p[1].tolist()}")
        c["runs"] += 1
        c["evaluations"] += len(f)
        c["levels"] += len(lv)
        log.append([n, r[2], r[1].tolist(), ev_digest(ev)])
    return dict(log=log, counts=c)


class C14(Check):
    id = "C14"
    title = "the topology optimizer returns a point it evaluated, within bounds, on schedule"
    runs = dict(quick=1500, thorough=60000)
    lists = ("specs",)
    block = ("jax",)
    rule = "one case is one or two optimizations with recorded evaluations, each run twice and with every shortened schedule; non-trivial if at least four evaluations were judged"
    components = dict(real=["nannos.optimize, nannos simulations", "scipy L-BFGS-B, nlopt MMA", "autograd and torch gradients"], stub=["nlopt absent in some runs (hidden package)", "clock (virtual)"])
    assumptions = ["starting designs inside [0, 1], non-empty schedules, args given", "an nlopt RoundoffLimited error is the library's answer and not judged"]

    def gen(self, rng, i, tier):
        return dict(backend=rng.choice(["autograd", "autograd", "torch"]), specs=[opt.gen_spec(rng) for _ in range(rng.choice([1, 1, 2]))],
                    nlopt_missing=rng.random() < 0.15)

    def run(self, nn, plan):
        out = forked(run_opt, nn, plan)
        c = out["counts"]
        fl = {"nlopt missing": 1} if plan.get("nlopt_missing") else {}
        return dict(log=out["log"], stats=dict(c, faults=fl, nontrivial=int(c["evaluations"] >= 4)))

    def shrink(self, plan):
        for j, sp in enumerate(plan["specs"]):
            cand = []
            if len(range(*sp["thr"])) > 1:
                cand.append(dict(sp, thr=[sp["thr"][0], sp["thr"][0] + 1]))
                cand.append(dict(sp, thr=[sp["thr"][0], sp["thr"][0] + 2]))
            for k, v in dict(extra=[], options=None, xk="np", verbose=False, tup=False, a0=1).items():
                if sp[k] != v:
                    cand.append(dict(sp, **{k: v}))
            if sp["maxiter"] > 1:
                cand.append(dict(sp, maxiter=sp["maxiter"] // 2))
            for c in cand:
                p = json.loads(json.dumps(plan))
                p["specs"][j] = c
                yield p


CHECK = C14()
