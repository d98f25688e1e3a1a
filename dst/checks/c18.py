import copy
import io
import json
import pickle

from .. import session
from ..core import Violation, forked
from ..server import Server
from .common import SessionCheck, make_layers, start

HOWS = ["deepcopy", "deepcopy", "pickle2", "pickle4", "pickle5", "pure", "cloud", "process", "process"]


def clone_model(m, plan, o):
    n = session.Model(plan)
    keep = list(m.sims) if o["what"] in ("all", "sims") else [o["sim"]] if o["what"] == "one" else []
    n.sims = {k: dict(m.sims[k]) for k in keep if k in m.sims}
    lays = list(m.lays) if o["what"] in ("all", "layers") else sorted({j for k in n.sims for j in n.sims[k]["lays"]})
    n.lays = {j: copy.deepcopy(m.lays[j]) for j in lays}
    return n


def objects(ex, o):
    """What the caller saves."""
    if o["what"] == "all":
        return dict(lats=ex.lats, pws=ex.pws, lays=ex.lays, sims=ex.sims)
    if o["what"] == "layers":
        return dict(lats=ex.lats, pws=ex.pws, lays=ex.lays, sims={})
    if o["what"] == "sims":
        return {k: ex.sims[k] for k in sorted(ex.sims)}
    return ex.sims[o["sim"]]


def adopt(nn, plan, m, o, obj):
    """A session on restored objects."""
    ex = session.Exec.__new__(session.Exec)
    ex.nn, ex.plan, ex.m, ex.last = nn, plan, m, None
    if o["what"] in ("all", "layers"):
        ex.lats, ex.pws, ex.lays, ex.sims = obj["lats"], obj["pws"], dict(obj["lays"]), dict(obj["sims"])
        return ex
    ex.sims = dict(obj) if o["what"] == "sims" else {o["sim"]: obj}
    ex.lays, ex.lats, ex.pws = {}, [None] * len(plan["lats"]), [None] * len(plan["pws"])
    for k, s in ex.sims.items():
        for j, lay in zip(m.sims[k]["lays"], s.layers):
            ex.lays[j] = lay
            ex.lats[m.lays[j]["lat"]] = s.lattice
        ex.pws[m.sims[k]["pw"]] = s.excitation
    return ex


def ship(obj, how):
    if how == "pure":
        b = io.BytesIO()
        pickle._Pickler(b, 3).dump(obj)
        return b.getvalue()
    if how == "cloud":
        import cloudpickle

        return cloudpickle.dumps(obj)
    return pickle.dumps(obj, protocol=int(how[-1]) if how.startswith("pickle") else pickle.DEFAULT_PROTOCOL)


def remote(nn, plan, data, m, o, idx, profile):
    try:
        obj = pickle.loads(data)
    except Exception as e:  # noqa
        raise Violation("restore-failed", f"restoring in a new process raised {type(e).__name__}: {e}")
    ex = adopt(nn, plan, m, o, obj)
    return session.run_ops_on(ex, idx, None, profile)


def plan_universes(plan):
    """Which operations run in which universe; expectations per operation."""
    us = {0: session.Model(plan)}
    far = set()
    todo, exp = [], {}
    have = {0: (set(range(len(plan["lats"]))), set(range(len(plan["pws"]))))}
    for i, o in enumerate(plan["ops"]):
        u = o["u"]
        if u not in us:
            continue
        m = us[u]
        if o["op"] == "save":
            if u in far or (o["what"] == "one" and o["sim"] not in m.sims) or (o["what"] == "sims" and not m.sims) or o["to"] in us:
                continue
            n = clone_model(m, plan, o)
            us[o["to"]] = n
            if o["what"] in ("all", "layers"):
                have[o["to"]] = have[u]
            else:
                have[o["to"]] = ({n.lays[j]["lat"] for j in n.lays}, {s["pw"] for s in n.sims.values()})
            if o["how"] == "process":
                far.add(o["to"])
            todo.append(i)
            continue
        if not m.ok(o):
            continue
        if o["op"] == "build" and plan["sims"][o["sim"]]["pw"] not in have[u][1]:
            continue
        if o["op"] == "mklay" and "copy" not in plan["lays"][o["lay"]] and plan["lays"][o["lay"]]["lat"] not in have[u][0]:
            continue
        todo.append(i)
        m.apply(o)
        if o["op"] == "q":
            exp[i] = (m.state(o["sim"]), o["q"])
        elif o["op"] == "peek":
            exp[i] = dict(m.lays[o["lay"]])
    return todo, exp, far


def execute(nn, plan, todo, far, profile):
    exs = {0: session.Exec(nn, plan)}
    recs = []
    jobs = []
    counts = {}
    for i in todo:
        o = plan["ops"][i]
        if o["op"] == "save":
            ex = exs[o["u"]]
            m = clone_model(ex.m, plan, o)
            counts[o["how"] + ":" + o["what"]] = counts.get(o["how"] + ":" + o["what"], 0) + 1
            try:
                obj = objects(ex, o)
                if o["how"] == "deepcopy":
                    new = copy.deepcopy(obj)
                elif o["how"] == "process":
                    data = ship(obj, "pickle4")
                else:
                    new = pickle.loads(ship(obj, o["how"]))
            except Exception as e:  # noqa
                raise Violation("save-failed", f"op {i} {json.dumps(o)} raised {type(e).__name__}: {e}", i)
            if o["how"] == "process":
                jobs.append((data, m, o, [j for j in todo if plan["ops"][j]["u"] == o["to"] and j > i]))
            else:
                exs[o["to"]] = adopt(nn, plan, m, o, new)
            recs.append(dict(i=i, st="ok", ans=None))
        elif o["u"] in far:
            continue
        else:
            recs += session.run_ops_on(exs[o["u"]], [i], None, profile)
            if recs and recs[-1]["st"] == "exc":
                break
    return recs, jobs, counts


class C18(SessionCheck):
    id = "C18"
    title = "saved and restored or cloned sessions continue with the same answers"
    runs = dict(quick=1000, thorough=40000)
    rule = "one case is one generated session during which simulations are saved or cloned and used on both sides; non-trivial if a restored and an original object each gave an answer"

    def init(self, nn):
        self.far = Server(env=dict(PYTHONHASHSEED="4242"), block=self.block)

    def gen(self, rng, i, tier):
        plan, m = start(rng, nsims=rng.choice([1, 1, 2, 3]), nlats=rng.choice([1, 1, 2]), copies=0.35, max_layers=rng.choice([3, 4, 5]), long_stack=0.03)
        make_layers(plan, m)
        for o in plan["ops"]:
            o["u"] = 0
        for k in range(len(plan["sims"])):
            session.add(plan, m, dict(op="build", sim=k, u=0))
        us = {0: m}
        far = set()

        def fault():
            if rng.random() < 0.65:
                return dict(kind="kbi", exc="KeyboardInterrupt", f1=rng.random(), f2=rng.random())
            return dict(kind="num", exc=rng.choice(["MemoryError", "LinAlgError"]), f1=rng.random(), f2=0)

        light = ["de", "S", "ff", "flux", "stress", "eps", "ord", "lat", "fg"]
        for step in range(rng.randint(4, 9) if tier == "quick" else rng.randint(4, 14)):
            u = rng.choice(sorted(us))
            m = us[u]
            r = rng.random()
            if (r < 0.3 or step == 2) and u not in far and len(us) < 5 and (m.sims or m.lays):
                what = rng.choice(["all", "all", "sims", "one", "one", "layers"] if m.sims else ["all"])
                o = dict(op="save", u=u, to=len(us), how=rng.choice(HOWS), what=what)
                if what == "one":
                    o["sim"] = rng.choice(sorted(m.sims))
                n = clone_model(m, plan, o)
                us[len(us)] = n
                if o["how"] == "process":
                    far.add(o["to"])
                plan["ops"].append(o)
                continue
            if r < 0.45 and m.lays:
                o = session.gen_edit(rng, plan, m, rng.choice(sorted(m.lays)))
                if o is not None:
                    session.add(plan, m, dict(o, u=u))
                continue
            if r < 0.5 and m.sims:
                session.add(plan, m, dict(op="reset", sim=rng.choice(sorted(m.sims)), p=rng.choice(["S", "solve", "all"]), u=u))
                continue
            if r < 0.56 and m.lays:
                session.add(plan, m, dict(op="peek", lay=rng.choice(sorted(m.lays)), u=u))
                continue
            if (r < 0.62 or not m.sims) and m.lays:  # a further simulation of these layers
                full = [k for k, s in enumerate(plan["sims"]) if k not in m.sims and all(j in m.lays for j in s["lays"])]
                if full:
                    session.add(plan, m, dict(op="build", sim=rng.choice(full), u=u))
                    continue
                n0 = len(plan["ops"])
                session.new_sim(rng, plan, m)
                for o in plan["ops"][n0:]:
                    o["u"] = u
                continue
            if not m.sims:
                continue
            o = dict(session.gen_query_op(rng, m, rng.choice(sorted(m.sims)), kinds=light), u=u)
            if rng.random() < 0.15:
                session.add(plan, m, dict(o, fault=fault()))
            else:
                session.add(plan, m, o)
        for u in sorted(us):
            m = us[u]
            for k in sorted(m.sims):
                if rng.random() < 0.7:
                    session.add(plan, m, dict(session.gen_query_op(rng, m, k, kinds=light), u=u))
        return plan

    def everything(self, nn, plan, profile=False):
        todo, exp, far = plan_universes(plan)
        recs, jobs, counts = forked(execute, nn, plan, todo, far, profile)
        for data, m, o, idx in jobs:
            recs += self.far.call(remote, plan, data, m, o, idx, profile)
        recs.sort(key=lambda r: r["i"])
        return recs, exp, counts

    def prepare(self, nn, plan):
        if any(o.get("fault") and "at" not in o["fault"] for o in plan["ops"]):
            recs, _, _ = self.everything(nn, plan, True)
            plan = json.loads(json.dumps(plan))
            for r in recs:
                f = plan["ops"][r["i"]].get("fault")
                if f is not None:
                    if r.get("at") is None:
                        del plan["ops"][r["i"]]["fault"]
                    else:
                        f["at"] = r["at"]
        return plan

    def run(self, nn, plan):
        recs, exp, counts = self.everything(nn, plan)
        expect = session.Expect(nn)
        expect.prepare(exp[r["i"]] for r in recs if plan["ops"][r["i"]]["op"] == "q" and r["st"] == "ok")
        log = session.judge(plan, recs, exp, expect)
        st = self.stats(plan, recs, expect)
        st["saves"] = counts
        us = [plan["ops"][r["i"]]["u"] for r in recs if r["ans"] is not None]
        st["restored_answers"] = sum(u > 0 for u in us)
        st["nontrivial"] = int(any(u > 0 for u in us) and any(u == 0 for u in us))
        return dict(log=log, stats=st)


CHECK = C18()
