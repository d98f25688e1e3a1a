from .. import session, world
from .common import SessionCheck, make_layers, start


class C06(SessionCheck):
    id = "C06"
    title = "a query that fails or is interrupted does not damage the simulation"
    level = "exploration"
    runs = dict(quick=1100, thorough=45000)
    rule = "one case is one generated session in which operations are interrupted at chosen source lines or numerical calls; non-trivial if at least one fault fired and two answers were compared"

    def gen(self, rng, i, tier):
        plan, m = start(rng, nsims=rng.choice([1, 1, 2, 3]), copies=0.35, max_layers=rng.choice([3, 4, 5]), long_stack=0.04)
        make_layers(plan, m)
        for k in range(len(plan["sims"])):
            session.add(plan, m, dict(op="build", sim=k))
        n = rng.randint(2, 6) if tier == "quick" else rng.randint(2, 10)
        light = ["de", "S", "ff", "flux", "stress", "eps", "ord", "lat"]

        def fault():
            if rng.random() < 0.65:
                return dict(kind="kbi", exc="KeyboardInterrupt", f1=rng.random(), f2=rng.random())
            return dict(kind="num", exc=rng.choice(["MemoryError", "LinAlgError"]), f1=rng.random(), f2=0)

        for _ in range(n):
            k = rng.randrange(len(plan["sims"]))
            r = rng.random()
            if r < 0.12:
                session.add(plan, m, dict(op="reset", sim=k, p=rng.choice(["S", "solve", "all"])))
            elif r < 0.2:
                lay = rng.choice(sorted(m.lays))
                o = session.gen_edit(rng, plan, m, lay)
                if o is not None:
                    session.add(plan, m, o)
            o = dict(op="solve", sim=k) if rng.random() < 0.15 else session.gen_query_op(rng, m, k, kinds=light)
            if rng.random() < 0.8:
                f = dict(o, fault=fault())
                session.add(plan, m, f)
                if rng.random() < 0.25:  # the retry fails as well, elsewhere
                    session.add(plan, m, dict(o, fault=fault()))
                if rng.random() < 0.6:
                    session.add(plan, m, o)
            else:
                session.add(plan, m, o)
        for k in range(len(plan["sims"])):
            session.add(plan, m, session.gen_query_op(rng, m, k, kinds=light))
            session.add(plan, m, session.gen_query_op(rng, m, k, kinds=light))
        return plan

    def stats(self, plan, recs, expect):
        st = super().stats(plan, recs, expect)
        st["nontrivial"] = int(st["answers"] >= 2 and sum(st["faults"].values()) >= 1)
        st["fault_sites"] = {}
        for r in recs:
            if r.get("fired"):
                f = str(r["fired"])
                st["fault_sites"][f] = st["fault_sites"].get(f, 0) + 1
        return st


CHECK = C06()
