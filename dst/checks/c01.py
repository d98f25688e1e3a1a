from .. import session, world
from .common import SessionCheck, make_layers, start


class C01(SessionCheck):
    id = "C01"
    title = "answers do not depend on which queries came before"
    runs = dict(quick=1500, thorough=60000)

    def gen(self, rng, i, tier):
        plan, m = start(rng, nsims=1, copies=0.3, max_layers=rng.choice([3, 4, 6, 7]), long_stack=0.12)
        make_layers(plan, m)
        session.add(plan, m, dict(op="build", sim=0))
        n = rng.randint(2, 8) if tier == "quick" else rng.randint(2, 14)
        mix = rng.choice([None, None, ["S"], ["S", "ff", "fg"], ["de", "ord"], ["S", "de"]])
        for _ in range(n):
            r = rng.random()
            if r < 0.08:
                session.add(plan, m, dict(op="solve", sim=0))
            elif r < 0.2:
                session.add(plan, m, dict(op="reset", sim=0, p=rng.choice(["S", "solve", "all"])))
            else:
                o = session.gen_query_op(rng, m, 0, kinds=mix, extra=1)
                session.add(plan, m, o)
                if rng.random() < 0.15:  # ask again
                    session.add(plan, m, dict(o))
        return plan


CHECK = C01()
