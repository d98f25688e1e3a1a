"""Invalid requests anywhere in a session: each is rejected, and nothing remembers it."""
import json

from .. import session, world
from ..core import Violation, forked
from .common import SessionCheck, make_layers, start

VAL = ["ValueError"]
ASK = ["layer", "ff", "fg", "eps", "stress", "flux"]


def ask(sim, how, lid):
    import numpy as np

    if how == "layer":
        return sim.get_layer(lid)
    if how == "ff":
        return sim.get_field_fourier(lid, z=0.1)
    if how == "fg":
        return sim.get_field_grid(lid, shape=sim.lattice.discretization)
    if how == "eps":
        return sim.get_epsilon(lid)
    if how == "stress":
        return sim.get_z_stress_tensor_integral(lid)
    return sim.get_z_poynting_flux(lid, np.ones(2 * sim.nh), np.ones(2 * sim.nh))


def bad_layer_name(rng, plan, m, sim):
    mine = {m.lays[j]["name"] for j in m.sims[sim]["lays"]}
    others = [v["name"] for v in m.lays.values()] + ["", "nope", "SUPERSTRATE", "sub ", "None", "-7", "2.0", "é", "sup\n", "layer  (copy)"]
    others = [x for x in others if x not in mine]
    return rng.choice(others)


def do_bad(ex, o):
    """Carry out an invalid request; returns the name of the exception, or None if accepted."""
    nn = ex.nn
    b = o["b"]
    k = b["k"]
    sim = ex.sims.get(o.get("sim"))
    lat = ex.lats[b["lat"]] if "lat" in b else None
    undo = None
    try:
        if k == "name":
            ask(sim, b["how"], b["v"])
        elif k == "type":
            ask(sim, b["how"], {"float": 1.5, "none": None, "list": [0], "tuple": (0, 1), "complex": 1j, "bytes": b"sup"}[b["v"]])
        elif k == "stranger":
            ask(sim, b["how"], sim.lattice.Layer(b["v"], thickness=0.1))
        elif k == "range":
            ask(sim, b["how"], b["v"] if b["v"] >= 0 else b["v"])
        elif k == "field":
            sim.get_field_grid(0, shape=sim.lattice.discretization, **b["kw"])
        elif k == "order":
            sim.get_order_index(tuple(b["v"]) if isinstance(b["v"], list) else b["v"])
        elif k == "comp":
            sim.layers[b["i"]].plot(comp=b["v"])
        elif k == "build":
            s = ex.plan["sims"][o["sim"]]
            lays = [ex.lays[j] for j in s["lays"]]
            kw = dict(nh=s["nh"], formulation=s["form"])
            pw = ex.pws[s["pw"]]
            v = b["v"]
            if v == "form":
                kw["formulation"] = b["form"]
            elif v == "dup":
                lays = lays[:1] + [lays[b["i"]].copy(lays[0].name)] + lays[1:]
            elif v == "twice":
                lays = lays[:b["i"]] + [lays[b["i"]]] + lays[b["i"]:]
            elif v == "lat":
                other = world.build_lattice(nn, ex.plan["lats"][0])
                lays = lays[:-1] + [other.Layer("elsewhere")] + lays[-1:] if b["i"] else lays + [other.Layer("elsewhere")]
            elif v == "nyquist":
                d = ex.plan["lats"][0]
                h, n = nn.Lattice(world_basis(d), discretization=128, truncation=d["trunc"]).get_harmonics(b["nh"], sort=True)
                n = 2 * int(abs(world.norm(h)).max()) - b["less"]
                disc = (n, 64) if b["first"] else (64, n)
                l2 = nn.Lattice(world_basis(d), discretization=n if d["kind"] == "1d" else disc, truncation=d["trunc"])
                p = l2.Layer("p", thickness=0.2)
                p.epsilon = world.to_backend(nn, pattern(l2.discretization))
                lays = [l2.Layer("a"), p, l2.Layer("b")]
                kw = dict(nh=b["nh"])
            nn.Simulation(lays, pw, **kw)
        elif k == "trunc":
            nn.Lattice(world_basis(ex.plan["lats"][0]), discretization=16, truncation=b["v"])
        elif k == "nh":
            ex.lats[0].get_harmonics(b["v"])
        elif k == "th":
            ex.lats[0].Layer("l", thickness=b["v"])
        elif k == "mu":
            ex.lats[0].Layer("l", thickness=0.1, mu=b["v"])
        elif k == "shape":
            f = getattr(ex.lats[0], b["v"])
            c = (0.5, 0.5)
            f(*dict(polygon=([(0, 0), (1, 0), (0, 1)],), circle=(c, 0.2), ellipse=(c, (0.2, 0.1)), square=(c, 0.2), rectangle=(c, (0.2, 0.1)))[b["v"]])
        elif k in ("tft", "uaniso"):
            lay = ex.lays[o["lay"]]
            attr = "tangent_field_type" if k == "tft" else "epsilon"
            old = getattr(lay, attr)

            def undo():
                setattr(lay, attr, old)
                for s in ex.m.users(o["lay"]):
                    for p in b["resets"]:
                        ex.sims[s].reset(p)

            if k == "tft":
                setattr(lay, attr, b["v"])
            else:
                import numpy as np

                setattr(lay, attr, nn.backend.array(np.diag([2.0, 3.0, 4.0]) + 0j))
            for s in ex.m.users(o["lay"]):
                for p in b["resets"]:
                    ex.sims[s].reset(p)
            for how in b["how"]:
                got = None
                try:
                    if how == "solve":
                        sim.solve()
                    elif how == "matrix":
                        sim.get_S_matrix()
                    else:
                        sim.diffraction_efficiencies()
                except Exception as e:  # noqa
                    if session.nannos_frame(e) is None:
                        raise
                    got = type(e).__name__
                if got not in o["exc"]:
                    return got
            return got
        return None
    except Exception as e:  # noqa
        if session.nannos_frame(e) is None and k != "range":
            raise
        return type(e).__name__
    finally:
        if undo is not None:
            undo()


def world_basis(L):
    return L["basis"] if not isinstance(L["basis"], list) else tuple(tuple(v) for v in L["basis"])


def pattern(shape):
    import numpy as np

    a = np.ones(shape, dtype=complex)
    a[: shape[0] // 2] = 2
    return a


def gen_bad(rng, plan, m):
    """An invalid request on the objects as they are now, or None."""
    built = sorted(m.sims)
    lat = plan["lats"][0]
    one = lat["kind"] == "1d"
    k = rng.choice(["name", "name", "type", "stranger", "range", "field", "order", "comp", "build", "build", "build", "trunc", "nh", "th", "mu", "shape", "tft", "tft", "uaniso", "uaniso"])
    if k in ("name", "type", "stranger", "range", "field", "order", "comp"):
        s = rng.choice(built)
        n = len(m.sims[s]["lays"])
        b = dict(k=k, how=rng.choice(ASK))
        exc = VAL
        if k == "name":
            b["v"] = bad_layer_name(rng, plan, m, s)
        elif k == "type":
            b["v"] = rng.choice(["float", "none", "list", "tuple", "complex", "bytes"])
        elif k == "stranger":
            b["v"] = bad_layer_name(rng, plan, m, s)
        elif k == "range":
            b["v"] = rng.choice([n, n + 3, -n - 1])
            exc = ["IndexError", "ValueError"]
        elif k == "field":
            b["kw"] = rng.choice([dict(field="D"), dict(field="e"), dict(field=""), dict(component="w"), dict(component="X"), dict(field="E", component="xy"), dict(field="B", component="x")])
        elif k == "order":
            b["v"] = rng.choice([[99, 0], [0, 99], [-77, 5]] + ([1.5] if True else []) + ([] if one else [0, 1]))
            exc = ["KeyError", "ValueError", "IndexError"]
        else:
            b["i"], b["v"] = rng.randrange(n), rng.choice(["abs", "real", "", "RE"])
        return dict(op="bad", sim=s, b=b, exc=exc)
    if k == "build":
        s = rng.choice(built)
        lays = m.sims[s]["lays"]
        v = rng.choice(["form", "form", "dup", "twice", "lat", "nyquist"])
        b = dict(k=k, v=v)
        exc = VAL
        if v == "form":
            b["form"] = rng.choice(["Original", "foo", "", "normal", "tangents", None] + (["jones", "pol"] * 3 if one else []))
        elif v in ("dup", "twice"):
            b["i"] = rng.randrange(1, len(lays))
        elif v == "lat":
            b["i"] = rng.randrange(2)
            exc = ["AssertionError", "ValueError"]
        else:
            b["nh"] = rng.randint(9, 60)
            b["less"] = rng.choice([0, 0, 1, 2])
            b["first"] = rng.random() < 0.5
        return dict(op="bad", sim=s, b=b, exc=exc)
    b = dict(k=k)
    if k == "trunc":
        b["v"] = rng.choice(["Circular", "square", "", "1D", "rectangular"])
    elif k == "nh":
        b["v"] = rng.choice([5.5, 0.5, 100.01])
        if lat["harm"] is not None:
            return None
    elif k == "th":
        b["v"] = rng.choice([-1, -0.001, -1e-12, float("-inf")])
    elif k == "mu":
        b["v"] = rng.choice([2, 1.5, 0, -1])
        return dict(op="bad", b=b, exc=["NotImplementedError", "ValueError"])
    elif k == "shape":
        if not one:
            return None
        b["v"] = rng.choice(["polygon", "circle", "ellipse", "square", "rectangle"])
    else:
        want = [(s, j) for s in built for j in m.sims[s]["lays"][1:-1]
                if (k == "uaniso") == (m.lays[j]["eps"]["k"] == "u") and (k == "uaniso" or (not one and m.sims[s]["form"] != "original" and not m.lays[j].get("tf")))]
        if not want:
            return None
        s, j = rng.choice(want)
        b["resets"] = rng.choice([["all"], ["all"], ["S", "solve"]])
        b["how"] = [rng.choice(["solve", "matrix", "de"]) for _ in range(rng.choice([1, 2, 3]))]
        if k == "tft":
            b["v"] = rng.choice(["FFT", "foo", "min"])
            return dict(op="bad", sim=s, lay=j, b=b, exc=VAL)
        return dict(op="bad", sim=s, lay=j, b=b, exc=["NotImplementedError", "ValueError"])
    return dict(op="bad", b=b, exc=VAL)


def extra(ex, o):
    if o["op"] != "bad":
        return ex.do(o)
    got = do_bad(ex, o)
    if got is None:
        raise Violation("accepted", f"invalid request {json.dumps(o)} was accepted")
    if got not in o["exc"]:
        raise Violation("rejected-oddly", f"invalid request {json.dumps(o)} was rejected with {got} instead of {' or '.join(o['exc'])}")


class C22(SessionCheck):
    id = "C22"
    title = "invalid requests are rejected at any time and leave no trace"
    runs = dict(quick=1500, thorough=60000)
    rule = "one case is one generated session with invalid requests between its operations; non-trivial if at least one was rejected and two answers were compared"

    def gen(self, rng, i, tier):
        plan, m = start(rng, nsims=rng.choice([1, 1, 2]), copies=0.3, max_layers=rng.choice([3, 4, 5]), long_stack=0.03)
        make_layers(plan, m)
        for k in range(len(plan["sims"])):
            session.add(plan, m, dict(op="build", sim=k))
        n = rng.randint(3, 8) if tier == "quick" else rng.randint(3, 14)
        for _ in range(n):
            k = rng.randrange(len(plan["sims"]))
            r = rng.random()
            if r < 0.5:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    o = gen_bad(rng, plan, m)
                    if o is not None:
                        session.add(plan, m, o)
            elif r < 0.58:
                session.add(plan, m, dict(op="reset", sim=k, p=rng.choice(["S", "solve", "all"])))
            elif r < 0.7:
                o = session.gen_edit(rng, plan, m, rng.choice(sorted(m.lays)))
                if o is not None:
                    session.add(plan, m, o)
            else:
                session.add(plan, m, session.gen_query_op(rng, m, k))
        for k in range(len(plan["sims"])):
            session.add(plan, m, session.gen_query_op(rng, m, k, kinds=["de", "ff", "S"]))
            session.add(plan, m, session.gen_query_op(rng, m, k))
        return plan

    def run(self, nn, plan):
        todo, exp = session.expectations(plan)
        recs = forked(session.run_ops, nn, plan, todo, extra)
        expect = session.Expect(nn)
        expect.prepare(exp[r["i"]] for r in recs if plan["ops"][r["i"]]["op"] == "q" and r["st"] == "ok")
        log = session.judge(plan, recs, exp, expect)
        st = self.stats(plan, recs, expect)
        bad = {}
        for r in recs:
            o = plan["ops"][r["i"]]
            if o["op"] == "bad":
                k = o["b"]["k"] + (" " + o["b"]["v"] if o["b"]["k"] == "build" else "")
                bad[k] = bad.get(k, 0) + 1
        st["invalid_requests"] = bad
        st["nontrivial"] = int(st["answers"] >= 2 and bool(bad))
        return dict(log=log, stats=st)


CHECK = C22()
