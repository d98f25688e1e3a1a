from .. import plots, session
from ..core import Violation, forked
from .common import REAL, SessionCheck, make_layers, start


class C24(SessionCheck):
    id = "C24"
    title = "plots show the structure as it is, and plotting leaves no trace"
    runs = dict(quick=900, thorough=40000)
    rule = "one case is one generated session with plots (some failing inside the drawing package) between queries, edits and resets; non-trivial if at least one plot was judged and two answers were compared"
    components = dict(real=REAL + ["pyvista meshes", "matplotlib transforms"], stub=["axes and plotters (recording stand-ins, no rendering)", "clock (virtual)", "torch and jax (hidden)"])
    assumptions = ["what is handed to the axes or the plotter is judged, not the pixels they render", "anisotropic layers cannot be plotted and are not asked for"]

    def gen(self, rng, i, tier):
        plan, m = start(rng, nsims=rng.choice([1, 1, 2]), copies=0.3, max_layers=rng.choice([3, 4, 5]), long_stack=0.03)
        make_layers(plan, m)
        todo = list(range(len(plan["sims"])))
        n = rng.randint(3, 9) if tier == "quick" else rng.randint(3, 16)
        for _ in range(n):
            built = sorted(m.sims)
            if todo and (not built or rng.random() < 0.4):
                session.add(plan, m, dict(op="build", sim=todo.pop()))
                continue
            k = rng.choice(built)
            r = rng.random()
            if r < 0.5:
                self.add_plot(rng, plan, m, k)
            elif r < 0.56:
                session.add(plan, m, dict(op="solve", sim=k))
            elif r < 0.72:
                o = session.gen_edit(rng, plan, m, rng.choice(sorted(m.lays)))
                if o is not None:
                    session.add(plan, m, o)
                    if rng.random() < 0.5:
                        self.add_plot(rng, plan, m, k)
            elif r < 0.78:
                session.add(plan, m, dict(op="peek", lay=rng.choice(sorted(m.lays))))
            else:
                session.add(plan, m, session.gen_query_op(rng, m, k, extra=1))
        for k in sorted(m.sims):
            self.add_plot(rng, plan, m, k)
            session.add(plan, m, session.gen_query_op(rng, m, k))
        return plan

    def add_plot(self, rng, plan, m, k):
        q = plots.gen(rng, m.state(k))
        if q is not None:
            session.add(plan, m, dict(op="q", sim=k, q=q))

    def run(self, nn, plan):
        todo, exp = session.expectations(plan)
        recs = forked(session.run_ops, nn, plan, todo)
        expect = session.Expect(nn)
        expect.prepare(exp[r["i"]] for r in recs if plan["ops"][r["i"]]["op"] == "q" and r["st"] == "ok")
        judged = failed = 0
        for r in recs:
            o = plan["ops"][r["i"]]
            if o["op"] == "q" and o["q"]["k"] in ("plotl", "plots") and r["st"] == "ok":
                st, q = exp[r["i"]]
                d = plots.judge(st, q, r["ans"])
                if d:
                    raise Violation("wrong-plot", f"op {r['i']} {q} on simulation {o['sim']} (lattice {st['lat']['kind']}, {st['lat']['disc']}): {d}", r["i"])
                judged += 1
                failed += isinstance(r["ans"][0], str)
        log = session.judge(plan, recs, exp, expect)
        stats = self.stats(plan, recs, expect)
        stats["plots"] = judged
        stats["faults"]["drawing failed"] = failed
        stats["nontrivial"] = int(judged >= 1 and stats["answers"] >= 2)
        return dict(log=log, stats=stats)


CHECK = C24()
