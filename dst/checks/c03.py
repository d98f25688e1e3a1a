from .. import session, world
from .common import SessionCheck, make_layers, start


class C03(SessionCheck):
    id = "C03"
    title = "simulations sharing layers, lattices or sources do not disturb each other"
    runs = dict(quick=1100, thorough=45000)

    def gen(self, rng, i, tier):
        plan, m = start(rng, nsims=rng.choice([2, 2, 3, 4]), copies=0.35, max_layers=rng.choice([3, 4, 5]), long_stack=0.03)
        make_layers(plan, m)
        todo = list(range(len(plan["sims"])))
        rng.shuffle(todo)
        n = rng.randint(5, 14) if tier == "quick" else rng.randint(5, 24)
        for step in range(n):
            built = sorted(m.sims)
            if todo and (not built or rng.random() < 0.4):
                session.add(plan, m, dict(op="build", sim=todo.pop()))
                continue
            k = rng.choice(built)
            r = rng.random()
            if r < 0.1:
                session.add(plan, m, dict(op="solve", sim=k))
            elif r < 0.2:
                session.add(plan, m, dict(op="reset", sim=k, p=rng.choice(["S", "solve", "all"])))
            elif r < 0.3:
                lay = rng.choice(sorted(m.lays))
                o = session.gen_edit(rng, plan, m, lay)
                if o is not None:
                    session.add(plan, m, o)
            elif r < 0.37:
                session.add(plan, m, dict(op="peek", lay=rng.choice(sorted(m.lays))))
            else:
                session.add(plan, m, session.gen_query_op(rng, m, k, extra=1))
        for k in todo:
            session.add(plan, m, dict(op="build", sim=k))
        order = sorted(m.sims)
        rng.shuffle(order)
        for k in order:
            session.add(plan, m, session.gen_query_op(rng, m, k, kinds=["de", "ff", "flux", "S"]))
        return plan


CHECK = C03()
