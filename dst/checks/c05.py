import json

from .. import sched, session, world
from ..core import HarnessError, SimAbort, Violation, forked, rng_for
from .common import SessionCheck, make_layers, start


def run_threads(nn, plan, todo):
    """Pre-operations, then the threads under the simulated schedule, then post-operations."""
    recs = session.run_ops_ex(nn, plan, todo)
    ex = recs.pop("ex")
    out = dict(pre=recs["recs"])
    results = {}

    def body(t):
        def f():
            for n, o in enumerate(plan["threads"][t]):
                if o["op"] == "build" and o["sim"] in ex.sims:
                    continue
                if "sim" in o and o["op"] != "build" and o["sim"] not in ex.sims:
                    continue
                rec = dict(st="ok")
                try:
                    a = ex.do(o)
                    if o["op"] == "q":
                        rec["ans"] = world.norm(a)
                except SimAbort:
                    raise
                except Violation:
                    raise
                except Exception as e:  # noqa
                    where = session.nannos_frame(e)
                    if where is None:
                        raise
                    rec.update(st="exc", exc=type(e).__name__, msg=str(e)[:200], where=where)
                results[(t, n)] = rec

        return f

    s = sched.Sched(plan["sched"], max_steps=3_000_000)
    try:
        tasks = s.run([body(t) for t in range(len(plan["threads"]))])
    except Violation as v:
        out.update(failed=[v.cls, v.msg], trace=s.trace)
        return out
    for t in tasks:
        if t.exc is not None:
            if isinstance(t.exc, Violation):
                out.update(failed=[t.exc.cls, t.exc.msg], trace=s.trace)
                return out
            raise t.exc
    for t in range(len(plan["threads"])):
        for o in plan["threads"][t]:
            if o["op"] == "build" and o["sim"] not in ex.m.sims and o["sim"] in ex.sims:
                ex.m.apply(o)
    out.update(par=results, trace=s.trace, inter=s.interleaving(), steps=s.step, switches=s.switches)
    post = []
    for n, o in enumerate(plan["post"]):
        if not ex.m.ok(o):
            continue
        rec = dict(n=n, st="ok")
        try:
            rec["ans"] = world.norm(ex.do(o))
        except Exception as e:  # noqa
            where = session.nannos_frame(e)
            if where is None:
                raise
            rec.update(st="exc", exc=type(e).__name__, msg=str(e)[:200], where=where)
        post.append(rec)
    out["post"] = post
    return out


class C05(SessionCheck):
    id = "C05"
    title = "concurrent callers get the same answers as sequential callers"
    runs = dict(quick=1100, thorough=40000)
    lists = ("sched.sw", "threads.0", "threads.1", "threads.2", "threads.3", "post", "ops")
    rule = "one case is one generated set of caller threads executed under one seeded schedule with preemption at nannos source lines; non-trivial if at least two thread switches happened and two answers were compared"

    def gen(self, rng, i, tier):
        plan, m = start(rng, nsims=rng.choice([1, 1, 2, 3]), copies=0.4, max_layers=rng.choice([3, 4, 5]), long_stack=0.02)
        make_layers(plan, m)
        ns = len(plan["sims"])
        nt = rng.choice([2, 2, 3, 4])
        late = [k for k in range(1, ns) if rng.random() < 0.3]
        for k in range(ns):
            if k not in late:
                session.add(plan, m, dict(op="build", sim=k))
                if rng.random() < 0.15:
                    session.add(plan, m, session.gen_query_op(rng, m, k, extra=1))
        mm = m.copy()
        for k in late:
            mm.apply(dict(op="build", sim=k))
        light = ["de", "S", "S", "ff", "flux", "stress", "ord", "de"]
        th = []
        for t in range(nt):
            ops = []
            for k in late:
                if rng.random() < 0.6:
                    ops.append(dict(op="build", sim=k))
                    break
            mine = [o["sim"] for o in ops]
            avail = [k for k in range(ns) if k not in late] + mine
            for _ in range(rng.randint(1, 3)):
                k = rng.choice(avail)
                o = session.gen_query_op(rng, mm, k, kinds=light) if rng.random() < 0.92 else dict(op="solve", sim=k)
                ops.append(o)
            th.append(ops)
        if rng.random() < 0.4:  # the same first question from everybody
            q = session.gen_query_op(rng, mm, 0, kinds=light)
            for ops in th:
                ops.insert(0, q)
        plan["threads"] = th
        # a simulation built in a thread belongs to that thread only
        for k in late:
            owners = [t for t in range(nt) if any(o["op"] == "build" and o["sim"] == k for o in th[t])]
            for t in owners[1:]:
                th[t][:] = [o for o in th[t] if o.get("sim") != k]
        plan["post"] = []
        for k in range(ns):
            plan["post"].append(session.gen_query_op(rng, mm, k, kinds=light))
            plan["post"].append(session.gen_query_op(rng, mm, k, kinds=light))
        plan["sched"] = dict(mode="random", seed=rng.randrange(2**40), p=rng.choice([0.001, 0.004, 0.02, 0.1]))
        return plan

    def wants(self, plan):
        m = session.Model(plan)
        todo = []
        exp = {}
        for i, o in enumerate(plan["ops"]):
            if m.ok(o):
                todo.append(i)
                m.apply(o)
                if o["op"] == "q":
                    exp[("pre", i)] = (m.state(o["sim"]), o["q"])
        for t, ops in enumerate(plan["threads"]):
            for o in ops:
                if o["op"] == "build" and m.ok(o):
                    m.apply(o)
        for t, ops in enumerate(plan["threads"]):
            for n, o in enumerate(ops):
                if o["op"] == "q" and m.ok(o):
                    exp[("par", t, n)] = (m.state(o["sim"]), o["q"])
        for n, o in enumerate(plan["post"]):
            if o["op"] == "q" and m.ok(o):
                exp[("post", n)] = (m.state(o["sim"]), o["q"])
        return todo, exp

    def concretise(self, nn, plan):
        if plan["sched"]["mode"] == "random":
            todo, _ = self.wants(plan)
            out = forked(run_threads, nn, plan, todo)
            plan = json.loads(json.dumps(plan))
            plan["sched"] = dict(mode="explicit", sw=out["trace"])
        return plan

    def run(self, nn, plan):
        todo, exp = self.wants(plan)
        out = forked(run_threads, nn, plan, todo)
        if "failed" in out:
            raise Violation(out["failed"][0], f"concurrent calls {json.dumps(plan['threads'])}: {out['failed'][1]}")
        recs = [(("pre", r["i"]), r, plan["ops"][r["i"]]) for r in out["pre"]]
        recs += [(("par",) + k, r, plan["threads"][k[0]][k[1]]) for k, r in sorted(out["par"].items())]
        recs += [(("post", r["n"]), r, plan["post"][r["n"]]) for r in out["post"]]
        expect = session.Expect(nn)
        expect.prepare([exp[k] for k, r, o in recs if k in exp and r["st"] == "ok" and o["op"] == "q"])
        log = [["trace", out["inter"], out["steps"]]]
        n = 0
        for k, r, o in recs:
            log.append([list(map(str, k)), o["op"], r["st"]])
            if r["st"] == "exc":
                raise Violation("raised", f"{k} {json.dumps(o)} raised {r['exc']}: {r['msg']} in {r['where']}")
            if o["op"] != "q" or k not in exp:
                continue
            st, q = exp[k]
            kind, val = expect.get(st, q)
            if kind == "exc":
                raise Violation("fresh-raises", f"{k}: a fresh simulation cannot answer {json.dumps(q)}: {val}")
            d = world.diff(r["ans"], val, session.tol_of(st))
            n += 1
            if d:
                raise Violation("wrong-answer", f"{k} query {json.dumps(q)} on simulation {o['sim']}: {d}")
        return dict(log=log, stats=dict(answers=n, switches=out["switches"], steps=out["steps"], inter=[out["inter"]],
                                        nontrivial=int(out["switches"] >= 2 and n >= 2), faults={}))

    def shrink(self, plan):
        import copy as cp

        for p in session.shrink_candidates(plan):
            ok = True
            for o in [o for t in p["threads"] for o in t] + p["post"]:
                if o["op"] == "q":
                    n = len(p["sims"][o["sim"]]["lays"])
                    q = o["q"]
                    if (q.get("lay") and q["lay"]["i"] >= n) or (q.get("ind") and q["ind"][1] >= n):
                        ok = False
            if ok:
                yield p


CHECK = C05()
