import json
import warnings

from .. import gradients, instrument, session, world
from ..core import Violation, digest, forked
from .common import SessionCheck, make_layers, start


def run_session(nn, plan, todo, profile=False):
    warnings.filterwarnings("ignore")
    import numpy as np

    np.seterr(all="ignore")
    nn.set_backend(plan["backend"])
    instrument.collect()
    return session.run_ops(nn, plan, todo, None, profile)


class C23(SessionCheck):
    id = "C23"
    title = "gradients are those of the answers, and differentiating leaves no trace"
    runs = dict(quick=600, thorough=30000)
    block = ("jax",)
    rule = "one case is one generated session with differentiated queries (some interrupted) on autograd or torch; non-trivial if at least one gradient was compared and one plain answer followed or preceded it"
    components = dict(real=["nannos (whole package)", "numpy, autograd, torch (CPU)"], stub=["clock (virtual)", "jax (hidden)"])
    assumptions = ["values and gradients are compared with a fresh object on the same backend, gradients also with differences on numpy",
                   "gradients are judged where the eigenvalues of the patterned layers are distinct (elsewhere the derivative of the modes does not exist) or not involved",
                   "layers given traced values are given back their plain values and reset as documented"]

    def gen(self, rng, i, tier):
        plan, m = start(rng, nsims=rng.choice([1, 2, 2, 3]), copies=0.3, max_layers=rng.choice([3, 4, 5]), long_stack=0)
        plan["backend"] = rng.choice(["autograd", "autograd", "torch"])
        for s in plan["sims"]:
            if s["form"] == "pol":
                s["form"] = "original"
            if rng.random() < 0.5:
                s["form"] = "original"
        if rng.random() < 0.7:  # no symmetry, so that modes can be differentiated
            for p in plan["pws"]:
                lat = plan["lats"][p["lat"]]
                a = p["ang"]
                old = list(a)
                p["ang"] = [max(7.3, a[0]), a[1] if lat["kind"] == "1d" else 23.0 + a[1] % 10, a[2]]
                if not world.cutoff_ok(lat, p, [[1.0, 0.0]] + plan["pool"][p["lat"]], 1.0):
                    p["ang"] = old
        make_layers(plan, m)
        todo = list(range(len(plan["sims"])))
        rng.shuffle(todo)
        n = rng.randint(3, 8) if tier == "quick" else rng.randint(3, 16)
        kinds = ["de", "de", "S", "ff", "flux", "stress", "eps", "ord"]
        for _ in range(n):
            built = sorted(m.sims)
            if todo and (not built or rng.random() < 0.4):
                session.add(plan, m, dict(op="build", sim=todo.pop()))
                continue
            k = rng.choice(built)
            r = rng.random()
            if r < 0.45:
                self.add_grad(rng, plan, m, k)
            elif r < 0.52:
                session.add(plan, m, dict(op="solve", sim=k))
            elif r < 0.6:
                o = session.gen_edit(rng, plan, m, rng.choice(sorted(m.lays)))
                if o is not None:
                    session.add(plan, m, o)
            elif r < 0.65:
                session.add(plan, m, dict(op="peek", lay=rng.choice(sorted(m.lays))))
            else:
                session.add(plan, m, session.gen_query_op(rng, m, k, kinds=kinds))
        k = rng.choice(sorted(m.sims))
        self.add_grad(rng, plan, m, k)
        for k in sorted(m.sims):
            session.add(plan, m, session.gen_query_op(rng, m, k, kinds=kinds))
        return plan

    def add_grad(self, rng, plan, m, k):
        st = m.state(k)
        o = dict(op="q", sim=k, q=gradients.gen(rng, st, {a: st["pw"][a] for a in ("wl", "ang")}))
        if rng.random() < 0.2:
            o = dict(o, fault=dict(kind="kbi", exc="KeyboardInterrupt", f1=rng.random(), f2=rng.random()) if rng.random() < 0.7 else
                     dict(kind="num", exc="MemoryError", f1=rng.random(), f2=0))
        session.add(plan, m, o)

    def prepare(self, nn, plan):
        if any(o.get("fault") and "at" not in o["fault"] for o in plan["ops"]):
            todo, _ = session.expectations(plan)
            recs = forked(run_session, nn, plan, todo, True)
            plan = json.loads(json.dumps(plan))
            for r in recs:
                f = plan["ops"][r["i"]].get("fault")
                if f is not None:
                    if r.get("at") is None:
                        del plan["ops"][r["i"]]["fault"]
                    else:
                        f["at"] = r["at"]
        return plan

    def run(self, nn, plan):
        import numpy as np

        todo, exp = session.expectations(plan)
        recs = forked(run_session, nn, plan, todo)
        expect = session.Expect(nn, plan["backend"])
        good = [r for r in recs if plan["ops"][r["i"]]["op"] == "q" and r["st"] == "ok"]
        expect.prepare(exp[r["i"]] for r in good)
        # gradients are judged here, everything else as usual
        c = dict(gradients=0, differences=0, degenerate=0)
        grads = [r for r in good if exp[r["i"]][1]["k"] == "grad"]
        answers = {}
        for r in grads:
            st, q = exp[r["i"]]
            kind, val = expect.get(st, q)
            o = plan["ops"][r["i"]]
            what = f"op {r['i']} {json.dumps({k: v for k, v in q.items() if k != 'pw'})} on simulation {o['sim']} ({plan['backend']}, lattice {st['lat']['kind']}, {st['form']})"
            if kind == "exc":
                raise Violation("fresh-raises", f"{what}: a fresh simulation cannot answer: {val}", r["i"])
            v, g, gap = forked(gradients.differences, nn, st, q)
            got, fresh = r["ans"], val
            if q["value"]:
                d = world.diff(got[0], np.array(v), 1e-6, floor=1e-3)
                if d:
                    raise Violation("wrong-value", f"{what}: the value {d}", r["i"])
            if got[1] is None or np.shape(got[1]) != (q["m"],):
                raise Violation("wrong-gradient", f"{what}: gradient {got[1]!r} for {q['m']} parameters", r["i"])
            c["gradients"] += 1
            answers[r["i"]] = r["ans"]
            if gap is not None and gap < 1e-4:
                c["degenerate"] += 1
                continue
            sc = max([abs(x) for x in g if x is not None] + [1e-2 * abs(v), 1e-6])
            for k, x in enumerate(g):
                if x is not None:
                    c["differences"] += 1
                    if not abs(got[1][k] - x) <= 1e-3 * sc:
                        raise Violation("wrong-gradient", f"{what}: gradient {got[1].tolist()}, differences give {g} (value {v!r}); on a fresh object {fresh[1].tolist()}", r["i"])
            d = world.diff(got[1], fresh[1], 1e-6, floor=1e-2 * abs(v) + 1e-6)
            if d:
                raise Violation("wrong-gradient", f"{what}: gradient {got[1].tolist()}, on a fresh object {fresh[1].tolist()} ({d})", r["i"])
        rest = [dict(r, ans=None, st="grad") if r["i"] in answers else r for r in recs]
        log = session.judge(plan, rest, exp, expect)
        log.append(sorted((i, world_digest(a)) for i, a in answers.items()))
        stats = self.stats(plan, recs, expect)
        stats.update(c)
        stats["nontrivial"] = int(c["gradients"] >= 1 and stats["answers"] >= 2)
        return dict(log=log, stats=stats)

    def shrink(self, plan):
        def n_of(p, o):
            return len(p["sims"][o["sim"]]["lays"])

        for p in super().shrink(plan):
            if all(o["op"] != "q" or o["q"]["k"] != "grad" or n_of(p, o) == n_of(plan, a) for o, a in zip(p["ops"], plan["ops"])):
                for o in p["ops"]:
                    if o["op"] == "q" and o["q"]["k"] == "grad":
                        o["q"]["nh"] = p["sims"][o["sim"]]["nh"]
                yield p


def world_digest(a):
    import numpy as np

    return digest([None if x is None else [f"{float(y):.6e}" for y in np.ravel(np.real(x))] for x in a])


CHECK = C23()
