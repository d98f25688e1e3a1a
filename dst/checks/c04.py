from .. import session, world
from .common import SessionCheck, make_layers, start


class C04(SessionCheck):
    id = "C04"
    title = "copied layers behave exactly like independently built layers"
    runs = dict(quick=1200, thorough=50000)

    def gen(self, rng, i, tier):
        plan, m = start(rng, nsims=1, copies=0.5, max_layers=rng.choice([3, 3, 4]), long_stack=0.0)
        make_layers(plan, m)
        if rng.random() < 0.5:
            session.add(plan, m, dict(op="build", sim=0))
        n = rng.randint(4, 12) if tier == "quick" else rng.randint(4, 20)
        for _ in range(n):
            built = sorted(m.sims)
            r = rng.random()
            if r < 0.25:
                j = session.new_copy(rng, plan, m)
                if j is not None and rng.random() < 0.35:  # change the copy or its original at once
                    lay = rng.choice([j, plan["lays"][j]["copy"]])
                    o = session.gen_edit(rng, plan, m, lay, attrs=("th", "eps", "eps", "tft"))
                    if o:
                        session.add(plan, m, o)
            elif r < 0.45 or not built:
                cps = [j for j in m.lays if "copy" in plan["lays"][j]]
                session.new_sim(rng, plan, m, must=rng.sample(cps, min(len(cps), rng.randint(0, 2))))
            elif r < 0.6:
                lay = rng.choice(sorted(m.lays))
                o = session.gen_edit(rng, plan, m, lay, attrs=("th", "eps", "eps", "tft"))
                if o is not None:
                    session.add(plan, m, o)
            elif r < 0.7:
                session.add(plan, m, dict(op="peek", lay=rng.choice(sorted(m.lays))))
            else:
                session.add(plan, m, session.gen_query_op(rng, m, rng.choice(built), extra=1))
        cps = [j for j in m.lays if "copy" in plan["lays"][j]]
        session.new_sim(rng, plan, m, must=cps)
        for k in sorted(m.sims):
            session.add(plan, m, session.gen_query_op(rng, m, k, kinds=["de", "ff", "flux"]))
        for j in sorted(m.lays):
            if any(plan["lays"][c].get("copy") == j for c in m.lays):
                session.add(plan, m, dict(op="peek", lay=j))
        return plan


CHECK = C04()
