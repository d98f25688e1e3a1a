from .. import session, world
from .common import SessionCheck, make_layers, start


class C02(SessionCheck):
    id = "C02"
    title = "editing layers and resetting equals rebuilding from scratch"
    runs = dict(quick=1300, thorough=50000)

    def gen(self, rng, i, tier):
        plan, m = start(rng, nsims=rng.choice([1, 1, 2]), copies=0.25, max_layers=rng.choice([3, 4, 6]), long_stack=0.1)
        make_layers(plan, m)
        for k in range(len(plan["sims"])):
            session.add(plan, m, dict(op="build", sim=k))
        n = rng.randint(3, 9) if tier == "quick" else rng.randint(3, 16)
        mix = rng.choice([None, None, None, ["S"], ["de"], ["ff", "S", "de"]])
        history = []
        for _ in range(n):
            k = rng.randrange(len(plan["sims"]))
            r = rng.random()
            if r < 0.45:
                lay = rng.choice(sorted({j for s in plan["sims"] for j in s["lays"]}))
                back = [h for h in history if h["lay"] == lay]
                if back and rng.random() < 0.3:
                    o = dict(rng.choice(back))  # back to an earlier value
                else:
                    old = {a: m.lays[lay][a] for a in ("th", "eps", "tft", "tf")}
                    o = session.gen_edit(rng, plan, m, lay)
                    if o is not None:
                        history.append(dict(o, val=old[o["attr"]]))
                if o is not None:
                    session.add(plan, m, o)
            elif r < 0.5:
                lat = plan["lats"][m.lays[plan["sims"][k]["lays"][0]]["lat"]]
                session.add(plan, m, dict(op="form", sim=k, val=world.gen_form(rng, lat)))
            elif r < 0.6:
                session.add(plan, m, dict(op="reset", sim=k, p=rng.choice(["S", "solve", "all"])))
            elif r < 0.65:
                session.add(plan, m, dict(op="solve", sim=k))
            else:
                session.add(plan, m, session.gen_query_op(rng, m, k, kinds=mix, extra=1))
        for k in range(len(plan["sims"])):
            session.add(plan, m, session.gen_query_op(rng, m, k, kinds=mix, extra=1))
            session.add(plan, m, session.gen_query_op(rng, m, k, extra=1))
        return plan


CHECK = C02()
