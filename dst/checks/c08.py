import json

from .. import sched, simjoblib, simtasks
from ..check import Check
from ..core import SimAbort, Violation, forked

ARGVALS = [3, [1, 2], "q", None, 0.5, (4,), {"z": 1}]
KWNAMES = ["n_jobs", "prefer", "scale", "args", "kwargs", "func", "timeout", "backend", "return_as", "batch_size", "y"]
KINDS = ["tuple", "tuple", "list", "none", "array", "empty", "excval", "nested", "rcwa"]


def gen_loops(rng, n):
    out = []
    for i in range(n):
        kind = rng.choice(KINDS)
        l = dict(kind=kind, n=rng.choice([1, 2, 2, 3, 4, 7, -1, -2]), prefer=rng.choice([None, None, "threads", "threads", "processes"]))
        l["style"] = rng.choice(["kw", "kw", "pos", "default"] if l["n"] == 1 and l["prefer"] is None else ["kw", "kw", "pos"])
        if kind == "nested":
            l["inner"] = dict(n=rng.choice([1, 2, 3]), prefer=rng.choice([None, "threads", "processes"]))
        out.append(l)
    return out


def gen_call(rng, plan, kinds=None):
    l = rng.randrange(len(plan["loops"]))
    k = rng.choice(kinds or ["list", "list", "tuple", "gen", "gen", "iter", "map", "range", "np", "np2", "dict", "str", "objs"])
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 20] + ([60, 120] if rng.random() < 0.3 else []))
    if plan["loops"][l]["kind"] == "nested":
        n = min(n, 8)
    if plan["loops"][l]["kind"] == "rcwa":
        n = min(n, 5)
    inp = dict(k=k, n=n, s=rng.randrange(50))
    if rng.random() < 0.25:
        inp["dup"] = True
    a = [rng.choice(ARGVALS) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    kw = {rng.choice(KWNAMES): rng.choice(ARGVALS) for _ in range(rng.choice([0, 0, 1, 2]))}
    return dict(loop=l, inp=inp, a=[list(x) if isinstance(x, tuple) else x for x in a], kw={k: list(v) if isinstance(v, tuple) else v for k, v in kw.items()})


def decorate(nn, l, tag):
    inner = None
    if l["kind"] == "nested":
        inner = nn.parloop(n_jobs=l["inner"]["n"], prefer=l["inner"]["prefer"])(simtasks.make("tuple", tag + "i"))
    f = simtasks.make(l["kind"], tag, inner)
    if l["style"] == "pos":
        return nn.parloop(l["n"], l["prefer"])(f), f
    if l["style"] == "default":
        return nn.parloop()(f), f
    return nn.parloop(n_jobs=l["n"], prefer=l["prefer"])(f), f


def expected(plan, c):
    """Sequential reference: list of results and the evaluations it makes."""
    l = plan["loops"][c["loop"]]
    tag = f"L{c['loop']}"
    f = simtasks.make(l["kind"], tag, (lambda xs, *a, **k: [simtasks.make("tuple", tag + "i")(x, *a, **k) for x in xs]))
    return [f(x, *c["a"], **c["kw"]) for x in simtasks.elements(c["inp"])]


def run_calls(nn, plan):
    simjoblib.install()
    simjoblib.STATS.clear()
    simtasks.reset(dict(delays="none", seed=0))
    allcalls = [c for th in plan["threads"] for c in th]
    want = {}
    evals = {}
    for c in allcalls:
        key = json.dumps(c, sort_keys=True)
        if key not in want:
            before = dict(simtasks.CALLS)
            want[key] = [simtasks.canon(v) for v in expected(plan, c)]
            evals[key] = {k: v - before.get(k, 0) for k, v in simtasks.CALLS.items() if v != before.get(k, 0)}
    simtasks.reset(dict(delays=plan["delays"], seed=plan["dseed"]))
    loops = [decorate(nn, l, f"L{i}")[0] for i, l in enumerate(plan["loops"])]
    out = {}

    def body(t):
        def go():
            for n, c in enumerate(plan["threads"][t]):
                used = []
                inp = simtasks.container(c["inp"], used)
                r = loops[c["loop"]](inp, *json.loads(json.dumps(c["a"])), **json.loads(json.dumps(c["kw"])))
                out[(t, n)] = (r, used)
        return go

    s = sched.Sched(plan["sched"], max_steps=3_000_000)
    try:
        tasks = s.run([body(t) for t in range(len(plan["threads"]))])
    except Violation as v:
        return dict(failed=[v.cls, v.msg], trace=s.trace)
    for t in tasks[: len(plan["threads"])]:
        if t.exc is not None:
            if isinstance(t.exc, Violation):
                return dict(failed=[t.exc.cls, t.exc.msg], trace=s.trace)
            import traceback

            tb = "".join(traceback.format_exception(t.exc))[-400:]
            return dict(failed=["raised", f"caller {t.tid} got {type(t.exc).__name__}: {t.exc} {tb}"], trace=s.trace)
    bad = None
    total = {}
    for (t, n), (r, used) in sorted(out.items()):
        c = plan["threads"][t][n]
        key = json.dumps(c, sort_keys=True)
        w = want[key]
        for k, v in evals[key].items():
            total[k] = total.get(k, 0) + v
        if type(r) is not list:
            bad = ("wrong-type", f"call {json.dumps(c)} returned a {type(r).__name__}")
            break
        g = [simtasks.canon(v) for v in r]
        if g != w:
            if len(g) != len(w):
                bad = ("wrong-result", f"call {json.dumps(c)} returned {len(g)} results for {len(w)} elements")
            else:
                i = [a == b for a, b in zip(g, w)].index(False)
                bad = ("wrong-result", f"call {json.dumps(c)}: result {i} is {g[i][:120]} instead of {w[i][:120]}")
            break
        if c["inp"]["k"] == "gen" and used != list(range(len(w))):
            bad = ("wrong-consumption", f"call {json.dumps(c)} took the elements {used} from the generator")
            break
    if bad is None and simtasks.CALLS != total:
        k = sorted(k for k in set(total) | set(simtasks.CALLS) if total.get(k) != simtasks.CALLS.get(k))[0]
        bad = ("evaluations", f"element {k} was evaluated {simtasks.CALLS.get(k, 0)} times instead of {total.get(k, 0)}")
    ret = dict(trace=s.trace, inter=s.interleaving(), steps=s.step, switches=s.switches, simtime=s.clock.elapsed, pool=dict(simjoblib.STATS))
    if bad:
        ret["failed"] = bad
    ret["n"] = sum(len(w) for w in (want[json.dumps(c, sort_keys=True)] for c in allcalls))
    return ret


class C08(Check):
    id = "C08"
    title = "a parallel loop returns what the sequential loop returns"
    runs = dict(quick=3000, thorough=120000)
    lists = ("threads.0", "threads.1", "threads.2", "sched.sw")
    rule = "one case is one set of caller threads and decorated loops executed under one seeded schedule; non-trivial if a simulated pool delivered at least two batches"
    components = dict(real=["nannos.parallel", "joblib.Parallel (dispatch, batching, ordering)", "nannos simulations inside some loops"],
                      stub=["joblib worker pools (threads and processes: scheduler tasks, pickled exchange for processes)", "clock and sleeps (virtual)"])
    assumptions = ["joblib's own source is preempted only at its waits and at nannos lines", "simulated machine with 4 processors; at most 12 workers per pool"]

    def gen(self, rng, i, tier):
        plan = dict(loops=gen_loops(rng, rng.choice([1, 1, 2, 3])))
        nt = rng.choice([1, 1, 1, 2, 3])
        plan["threads"] = [[gen_call(rng, plan) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(nt)]
        if nt > 1 and rng.random() < 0.3:
            plan["threads"][1][0] = plan["threads"][0][0]
        plan["delays"] = rng.choice(["none", "short", "mixed", "stall"])
        plan["dseed"] = rng.randrange(10**6)
        plan["sched"] = dict(mode="random", seed=rng.randrange(2**40), p=rng.choice([0.01, 0.1, 0.3]))
        return plan

    def concretise(self, nn, plan):
        if plan["sched"]["mode"] == "random":
            out = forked(run_calls, nn, plan)
            plan = json.loads(json.dumps(plan))
            plan["sched"] = dict(mode="explicit", sw=out["trace"])
        return plan

    def run(self, nn, plan):
        out = forked(run_calls, nn, plan)
        if "failed" in out:
            raise Violation(out["failed"][0], out["failed"][1])
        st = dict(elements=out["n"], switches=out["switches"], steps=out["steps"], inter=[out["inter"]], simtime=out["simtime"],
                  pool=out["pool"], faults={f"delays:{plan['delays']}": 1}, nontrivial=int(out["pool"].get("deliveries", 0) >= 2))
        return dict(log=[out["inter"], out["steps"], out["n"], out["simtime"]], stats=st)

    def shrink(self, plan):
        def cp():
            return json.loads(json.dumps(plan))

        for t, th in enumerate(plan["threads"]):
            if not th and len(plan["threads"]) > 1:
                p = cp()
                del p["threads"][t]
                yield p
            for n, c in enumerate(th):
                if c["inp"]["n"] > 1:
                    for m in (c["inp"]["n"] // 2, c["inp"]["n"] - 1):
                        p = cp()
                        p["threads"][t][n]["inp"]["n"] = m
                        yield p
                if c["a"]:
                    p = cp()
                    p["threads"][t][n]["a"] = []
                    yield p
                if c["kw"]:
                    p = cp()
                    p["threads"][t][n]["kw"] = {}
                    yield p
                if c["inp"]["k"] != "list":
                    p = cp()
                    p["threads"][t][n]["inp"]["k"] = "list"
                    yield p
        for l, lo in enumerate(plan["loops"]):
            if lo["kind"] not in ("tuple",):
                p = cp()
                p["loops"][l] = dict(lo, kind="tuple")
                yield p
            if lo["n"] not in (1, 2):
                p = cp()
                p["loops"][l]["n"] = 2
                yield p
        if plan["delays"] != "none":
            p = cp()
            p["delays"] = "none"
            yield p


CHECK = C08()
