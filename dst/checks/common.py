"""Session-type checks: gen produces a plan of operations, run executes it in a forked process
and judges every answer against a fresh simulation in another process."""
import json

from .. import session, world
from ..check import Check
from ..core import Violation, forked

REAL = ["nannos (all numerical modules, simulation, layers, lattice, source, logging)", "numpy/scipy"]


class SessionCheck(Check):
    components = dict(real=REAL, stub=["clock (virtual)", "optional packages torch and jax (hidden)"])
    assumptions = ["sessions of at most a few dozen operations on stacks of at most 16 layers and 13 harmonics",
                   "a fresh simulation in a process of its own is the reference for history-dependent properties"]
    rule = "one case is one generated session executed from a forked pristine process; non-trivial if at least two answers were compared"

    def concretise(self, nn, plan):
        return plan

    def prepare(self, nn, plan):
        if any(o.get("fault") and "at" not in o["fault"] for o in plan["ops"]):
            todo, _ = session.expectations(plan)
            recs = forked(session.run_ops, nn, plan, todo, None, True)
            plan = json.loads(json.dumps(plan))
            for r in recs:
                f = plan["ops"][r["i"]].get("fault")
                if f is not None:
                    if r.get("at") is None:
                        del plan["ops"][r["i"]]["fault"]
                    else:
                        f["at"] = r["at"]
        return plan

    def run(self, nn, plan):
        todo, exp = session.expectations(plan)
        recs = forked(session.run_ops, nn, plan, todo)
        expect = session.Expect(nn)
        expect.prepare(exp[r["i"]] for r in recs if plan["ops"][r["i"]]["op"] == "q" and r["st"] == "ok")
        log = session.judge(plan, recs, exp, expect)
        return dict(log=log, stats=self.stats(plan, recs, expect))

    def stats(self, plan, recs, expect):
        st = dict(ops=len(recs), answers=sum(r["ans"] is not None for r in recs), oracle_processes=expect.forks)
        faults = {}
        q = {}
        for r in recs:
            o = plan["ops"][r["i"]]
            if r.get("fired"):
                k = o["fault"]["kind"] + ":" + o["fault"]["exc"]
                faults[k] = faults.get(k, 0) + 1
            k = o["op"] + (":" + o["q"]["k"] if o["op"] == "q" else "")
            q[k] = q.get(k, 0) + 1
        st["faults"] = faults
        st["operations"] = q
        st["nontrivial"] = int(st["answers"] >= 2)
        forms = {}
        for s in plan["sims"]:
            lat = plan["lats"][plan["lays"][s["lays"][0]]["lat"]]
            k = f"{lat['kind']}/{s['form']}"
            forms[k] = forms.get(k, 0) + 1
        st["worlds"] = forms
        return st

    def shrink(self, plan):
        return session.shrink_candidates(plan)


def start(rng, **kw):
    """A world with distinct layer names in each simulation, and its model."""
    while True:
        plan = session.gen_world(rng, **kw)
        if rng.random() < 0.15:
            session.add_twins(rng, plan)
        if session.names_ok(plan):
            return plan, session.Model(plan)


def make_layers(plan, m, js=None):
    for j in js if js is not None else range(len(plan["lays"])):
        if j not in m.lays:
            session.add(plan, m, dict(op="mklay", lay=j))
