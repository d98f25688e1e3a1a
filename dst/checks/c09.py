import json

from .. import sched, simjoblib, simtasks
from ..core import HarnessError, SimAbort, Violation, forked
from .c08 import C08, decorate, expected, gen_call, gen_loops

SEQ = ("list", "tuple", "gen", "gen", "iter", "map", "range", "np")


def sleeper_with_kbi(s, clock, kbi):
    """The scheduler's sleep, except that waits of a caller may be interrupted: kbi maps a
    caller to the number of the wait that gets KeyboardInterrupt (counted within a call)."""
    def sleep(dt):
        t = s.current()
        if t is not None and t.tid in kbi and dt == 0.01:
            kbi[t.tid] -= 1
            if kbi[t.tid] <= 0:
                del kbi[t.tid]
                simtasks.FIRED.append([f"caller{t.tid}", "KeyboardInterrupt"])
                raise KeyboardInterrupt("injected")
        return s.sleep(dt)
    return sleep


def run_calls(nn, plan):
    simjoblib.install()
    simjoblib.STATS.clear()
    simtasks.reset(dict(delays="none", seed=0))
    want = {}
    for th in plan["threads"]:
        for c in th:
            key = json.dumps(c, sort_keys=True)
            if key not in want:
                good = dict(c, inp={k: v for k, v in c["inp"].items() if k != "bad"})
                want[key] = [simtasks.canon(v) for v in expected(plan, good)]
    simtasks.reset(dict(delays=plan["delays"], seed=plan["dseed"]))
    s = sched.Sched(plan["sched"], max_steps=3_000_000)
    kbi = {}
    loops = [decorate(nn, l, f"L{i}")[0] for i, l in enumerate(plan["loops"])]
    # each caller has its own copy of the loops' bookkeeping: faults name the caller's loop
    out = {}

    def body(t):
        def go():
            for n, c in enumerate(plan["threads"][t]):
                mark = len(simtasks.FIRED)
                for e, f in c.get("faults", []):
                    el = simtasks.elements(c["inp"])
                    if e < len(el):
                        simtasks.FAULTS[f"L{c['loop']}|{simtasks.canon(el[e])}"] = f
                if c.get("kbi"):
                    kbi[t] = c["kbi"]
                before = dict(simtasks.CALLS)
                rec = dict(st="ok", t0=s.clock.now)
                try:
                    r = loops[c["loop"]](simtasks.container(c["inp"]), *json.loads(json.dumps(c["a"])), **json.loads(json.dumps(c["kw"])))
                    rec["type"] = type(r).__name__
                    rec["r"] = [simtasks.canon(v) for v in r] if isinstance(r, (list, tuple)) else simtasks.canon(r)
                except (SimAbort, HarnessError, Violation):
                    raise
                except BaseException as e:  # noqa
                    import traceback

                    rec.update(st="exc", exc=type(e).__name__, args=repr(e.args), tb="".join(traceback.format_exception(e))[-1500:])
                kbi.pop(t, None)
                if plan["single"]:
                    simtasks.FAULTS.clear()
                    simtasks.EPOCH[0] += 1
                rec["t1"] = s.clock.now
                rec["fired"] = simtasks.FIRED[mark:] if plan["single"] else None
                rec["double"] = [k for k, v in simtasks.CALLS.items() if v - before.get(k, 0) > 1] if plan["single"] else []
                out[(t, n)] = rec
        return go

    # interruptions of waiting callers go through the clock seam
    real_sleep = s.sleep
    s.sleep = sleeper_with_kbi(_Passthrough(s, real_sleep), s.clock, kbi)
    try:
        tasks = s.run([body(t) for t in range(len(plan["threads"]))])
    except Violation as v:
        return dict(failed=[v.cls, v.msg], trace=s.trace)
    for t in tasks[: len(plan["threads"])]:
        if t.exc is not None:
            if isinstance(t.exc, Violation):
                return dict(failed=[t.exc.cls, t.exc.msg], trace=s.trace)
            raise t.exc
    return dict(recs=sorted(out.items()), want=want, trace=s.trace, inter=s.interleaving(), steps=s.step, switches=s.switches,
                simtime=s.clock.elapsed, pool=dict(simjoblib.STATS), fired=list(simtasks.FIRED))


class _Passthrough:
    def __init__(self, s, sleep):
        self.s, self.sleep = s, sleep

    def current(self):
        return self.s.current()


def errors_of(kind):
    if kind == "death":
        return "TerminatedWorkerError", None
    if kind == "input":
        return "TaskError", "(9, 'input')"
    e = simtasks.EXCS[kind]()
    return type(e).__name__, repr(e.args)


class C09(C08):
    id = "C09"
    title = "failures in parallel loop workers reach the caller and do not linger"
    runs = dict(quick=3500, thorough=140000)
    rule = "one case is one set of callers and loops with task exceptions, worker deaths, failing inputs and interrupted callers under one seeded schedule; non-trivial if a fault fired and a later call was judged"

    def gen(self, rng, i, tier):
        while True:
            plan = dict(loops=gen_loops(rng, rng.choice([1, 1, 2])))
            if all(l["kind"] not in ("nested", "rcwa") for l in plan["loops"]):
                break
        plan["single"] = rng.random() < 0.7
        nt = 1 if plan["single"] else rng.choice([2, 3])
        plan["threads"] = []
        for t in range(nt):
            th = []
            for n in range(rng.choice([2, 3, 4])):
                c = gen_call(rng, plan, kinds=SEQ)
                c["inp"].pop("dup", None)
                c["inp"]["n"] = max(c["inp"]["n"], 1)
                if not plan["single"]:
                    c["loop"] = min(c["loop"], len(plan["loops"]) - 1)
                    c["inp"]["s"] = rng.randrange(50)
                N = c["inp"]["n"]
                l = plan["loops"][c["loop"]]
                process = l["n"] != 1 and l["prefer"] in (None, "processes")
                u = rng.random()
                if u < 0.35:
                    c["faults"] = [[rng.randrange(N), rng.choice(sorted(simtasks.EXCS))] for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                elif u < 0.5 and process:
                    c["faults"] = [[rng.randrange(N), "death"]]
                elif u < 0.62 and c["inp"]["k"] == "gen":
                    c["inp"]["bad"] = rng.randrange(N)
                elif u < 0.78:
                    c["kbi"] = rng.choice([1, 1, 2, 3, 5, 9, 40, 150])
                th.append(c)
                if rng.random() < 0.5 and len(th) < 5:  # the same call again, now without fault
                    th.append({k: v for k, v in c.items() if k not in ("faults", "kbi")} | dict(inp={k: v for k, v in c["inp"].items() if k != "bad"}))
            plan["threads"].append(th)
        plan["delays"] = rng.choice(["none", "short", "mixed", "stall"])
        plan["dseed"] = rng.randrange(10**6)
        plan["sched"] = dict(mode="random", seed=rng.randrange(2**40), p=rng.choice([0.01, 0.1, 0.3]))
        return plan

    def concretise(self, nn, plan):
        if plan["sched"]["mode"] == "random":
            out = forked(run_calls, nn, plan)
            plan = json.loads(json.dumps(plan))
            plan["sched"] = dict(mode="explicit", sw=out["trace"])
        return plan

    def run(self, nn, plan):
        out = forked(run_calls, nn, plan)
        if "failed" in out:
            raise Violation(out["failed"][0], f"calls {json.dumps(plan['threads'])}: {out['failed'][1]}")
        judged = 0
        log = [out["inter"], out["steps"]]
        failed_before = False
        after = 0
        for (t, n), r in out["recs"]:
            c = plan["threads"][t][n]
            fired = r["fired"] if plan["single"] else out["fired"]
            log.append([t, n, r["st"], r.get("exc")])
            judged += 1
            if r["st"] == "ok":
                if plan["single"] and fired:
                    raise Violation("swallowed", f"caller {t} call {n} {json.dumps(c)} returned although {fired} failed")
                w = out["want"][json.dumps(c, sort_keys=True)]
                if r["type"] != "list" or r["r"] != w:
                    raise Violation("wrong-result", f"caller {t} call {n} {json.dumps(c)} returned {str(r['r'])[:200]} instead of {str(w)[:200]}")
                if r["double"]:
                    raise Violation("evaluations", f"caller {t} call {n} {json.dumps(c)} evaluated {r['double'][:3]} more than once")
                if failed_before:
                    after += 1
            else:
                failed_before = True
                ok = [errors_of(f[1]) for f in fired]
                if not any(r["exc"] == x and (a is None or a == r["args"]) for x, a in ok):
                    raise Violation("wrong-error", f"caller {t} call {n} {json.dumps(c)} raised {r['exc']}{r['args']} after the failures {fired}; {r['tb'][-600:]}")
                if r["double"]:
                    raise Violation("evaluations", f"caller {t} call {n} {json.dumps(c)} evaluated {r['double'][:3]} more than once")
        faults = {}
        for k, f in out["fired"]:
            f = "caller KeyboardInterrupt" if k.startswith("caller") else f"task:{f}"
            faults[f] = faults.get(f, 0) + 1
        faults[f"delays:{plan['delays']}"] = 1
        st = dict(calls=judged, later_calls=after, switches=out["switches"], steps=out["steps"], inter=[out["inter"]],
                  simtime=out["simtime"], pool=out["pool"], faults=faults, nontrivial=int(bool(out["fired"]) and after > 0))
        return dict(log=log, stats=st)

    def shrink(self, plan):
        for p in super().shrink(plan):
            ok = True
            for th in p["threads"]:
                for c in th:
                    if any(e >= c["inp"]["n"] for e, _ in c.get("faults", [])):
                        ok = False
                    if c["inp"].get("bad", -1) >= c["inp"]["n"] or ("bad" in c["inp"] and c["inp"]["k"] != "gen"):
                        ok = False
            if ok:
                yield p


CHECK = C09()
