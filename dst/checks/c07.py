import json

from .. import physics, session, world
from ..core import Violation, forked
from .common import REAL, SessionCheck, make_layers, start


def close(a, b, tol, floor=1e-9):
    import numpy as np

    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} against {b.shape}"
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return "non-finite values"
    s = max(float(np.max(np.abs(b))) if b.size else 0, floor)
    e = float(np.max(np.abs(a - b))) if b.size else 0
    return f"differ by {e:.3e} (scale {s:.3e})" if e > tol * s else None


class Judge:
    def __init__(self):
        self.memo = {}
        self.counts = {}

    def solution(self, st, harm, tans=None):
        k = json.dumps(st, sort_keys=True)
        if k not in self.memo:
            self.memo[k] = physics.Solution(st, harm, tans)
        return self.memo[k]

    def need(self, what, msg, i):
        self.counts[what] = self.counts.get(what, 0) + 1
        if msg:
            raise Violation(what, f"op {i}: {what}: {msg}", i)

    def probe(self, st, q, a, i):
        import numpy as np

        tol = 1e-4 if st["form"] == "pol" else 1e-6
        a = {k: v for k, v in a["D"]}
        h = np.asarray(a["harm"]).astype(int)
        L = st["lat"]
        n = len(st["layers"])
        sub = st["layers"][-1]["eps"]["v"]
        where = f"({L['kind']}, {st['form']}, {n} layers, {h.shape[1]} harmonics, thicknesses {[l['th'] for l in st['layers']]})"
        need = lambda what, msg: self.need(what, msg and f"{msg} {where}", i)  # noqa
        uniq = len({tuple(c) for c in h.T}) == h.shape[1] and (0, 0) in {tuple(c) for c in h.T}
        need("harmonics", None if uniq else f"the harmonics are not distinct or lack (0, 0): {h.tolist()}")
        de = a.get("de")
        if "tot" in a:
            R, T = (float(x) for x in a["tot"])
            if de is not None:
                need("order-sum", close([R, T], [de[0].sum(), de[1].sum()], 1e-9, 1.0))
            lossless = all(l["eps"]["k"] == "u" and l["eps"]["v"][1] == 0 or l["eps"]["k"] in ("st", "ci", "re") and l["eps"]["v"][1] == l["eps"]["bg"][1] == 0
                           or l["eps"]["k"] == "px" and not l["eps"]["im"] for l in st["layers"])
            if physics.conserves(st):
                if lossless:
                    need("energy", None if abs(R + T - 1) < 1e-6 else f"lossless stack with R + T = {R + T!r}")
                else:
                    need("energy", None if R + T < 1 + 1e-6 else f"passive stack with R + T = {R + T!r}")
        if "dict" in a and de is not None:
            for A, B in zip(a["dict"], de):
                got = {(int(x[0]), int(x[1])): complex(x[2]) for x in A}
                need("dictionary", None if set(got) == {tuple(c) for c in h.T} else "dictionary keys are not the harmonics")
                need("dictionary", close([got[tuple(c)] for c in h.T], B, 1e-9))
        if "order" in a and de is not None:
            for o, (h1, h2, r, idx) in enumerate(a["order"]):
                need("get-order", None if int(idx) == o else f"order {int(h1), int(h2)} has index {idx} instead of {o}")
                need("get-order", close(r, de[0][o], 1e-9))
        if "cplx" in a:
            r, t = a["cplx"]
            if de is not None:
                need("complex-R", close((np.abs(r) ** 2).sum(axis=0), de[0], tol, 1e-3))
                if sub[1] == 0:
                    need("complex-T", close((np.abs(t) ** 2).sum(axis=0), de[1], tol, 1e-3))
            if "ctot" in a:
                need("complex-sum", close(a["ctot"][0], r.sum(axis=1), 1e-9))
                need("complex-sum", close(a["ctot"][1], t.sum(axis=1), 1e-9))
        if "S" in a and "Sa" in a:
            if q["m"] == n - 1:
                C = a["Sa"]
            elif a.get("Sb") is not None:
                C = physics.star(a["Sa"], a["Sb"])
            else:
                C = None
            if C is not None:
                for x in range(2):
                    for y in range(2):
                        sc = max(float(np.abs(np.asarray(a["S"][x][y])).max()), 1e-2)
                        need("S-composition", close(C[x][y], a["S"][x][y], tol * 10, sc))
        if "top" in a and "bot" in a:
            t, b = a["top"][0], a["bot"][0]
            for f in range(2):
                s = max(float(np.abs(b[f]).max()), 1e-9)
                need("continuity", close(t[f][:2], b[f][:2], tol * 10, s))
            need("continuity", close(t[1][2], b[1][2], tol * 10, float(np.abs(b[1]).max())))
        if "ff" in a and "grid" in a:
            F = a["ff"][0]
            for f in range(2):
                G = np.asarray(a["grid"][f])[..., 0]
                need("grid", close(G, physics.fourier_sum(F[f], h, q["shape"]), 1e-9))
        if "eps" in a:
            l = st["layers"][q["i"]]["eps"]
            e = world.eps_array(l, L)
            if l["k"] == "u":
                need("epsilon", close(a["eps"], np.asarray(complex(e)), 1e-9))
            else:
                u = e[2, 2] if l["k"] == "aniso" else e
                c = np.fft.fft2(u) / u.size
                need("epsilon", close(a["eps"], physics.fourier_sum(c[h[0], h[1]], h, L["disc"]), 1e-8))
        if physics.covered(st):
            s = self.solution(st, h, a.get("tan"))
            if de is not None:
                R, T = s.efficiencies()
                need("reference-R", close(de[0], R, tol, 1e-2))
                need("reference-T", close(de[1], T, tol, 1e-2))
            if "tot" in a:
                R, T = s.efficiencies()
                need("reference-R", close(a["tot"][0], R.sum(), tol, 1e-2))
                need("reference-T", close(a["tot"][1], T.sum(), tol, 1e-2))
            for key, (l, z) in dict(ff=(q["i"], q["z"]), top=(q["j"], st["layers"][q["j"]]["th"] or 0), bot=(q["j"] + 1, 0)).items():
                if key in a:
                    F = s.fields(l, z)
                    for f in range(2):
                        need("reference-fields", close(a[key][0][f], F[f], tol * 10, float(np.abs(F).max())))
            if "S" in a:
                ref = s.smatrix()
                for x in range(2):
                    for y in range(2):
                        need("reference-S", close(a["S"][x][y], ref[x][y], tol * 10, 1e-2))
            if "zs" in a:
                for k, z in enumerate(q["zs"]):
                    F = s.fields(q["i"], z)
                    for f in range(2):
                        need("reference-fields", close(a["zs"][k][f], F[f], tol * 10, float(np.abs(F).max())))
            if "stress" in a:
                ref = s.stress(q["i"], q["z"])
                F = s.fields(q["i"], q["z"])
                need("reference-stress", close([float(x) for x in a["stress"]], ref, tol * 10, float((np.abs(F) ** 2).sum())))
        return len(a) - 1


class C07(SessionCheck):
    id = "C07"
    title = "all answers given in a session satisfy one consistent physical solution"
    runs = dict(quick=2500, thorough=90000)
    rule = "one case is one generated session of edits, resets, interrupted operations and groups of related queries; non-trivial if at least ten relations between answers, or with the independent model, were evaluated"
    components = dict(real=REAL, stub=["clock (virtual)", "optional packages torch and jax (hidden)"])
    assumptions = ["the independent model takes the tangent fields of the two-dimensional formulations from the library",
                   "outer media isotropic with real permittivity in the superstrate; no order closer than 2e-3 to cut-off",
                   "the set of harmonics is taken from the library"]

    def gen(self, rng, i, tier):
        lossless = rng.choice([None, True, True])
        plan, m = start(rng, nsims=rng.choice([1, 1, 2]), copies=0.3, max_layers=rng.choice([3, 4, 5, 6]), lossless=lossless)
        if rng.random() < 0.3:
            session.add_twins(rng, plan)
            m = session.Model(plan)
        make_layers(plan, m)
        for k in range(len(plan["sims"])):
            session.add(plan, m, dict(op="build", sim=k))
        n = rng.randint(1, 3) if tier == "quick" else rng.randint(1, 7)
        for t in range(n):
            k = rng.randrange(len(plan["sims"]))
            for _ in range(rng.randint(0, 2) if t else 0):
                r = rng.random()
                if r < 0.5:
                    o = session.gen_edit(rng, plan, m, rng.choice(sorted(m.lays)))
                    if o is not None and not (lossless and o["attr"] == "eps"):
                        session.add(plan, m, o)
                elif r < 0.7:
                    session.add(plan, m, dict(op="reset", sim=k, p=rng.choice(["S", "solve", "all"])))
                else:
                    f = dict(kind="kbi", exc="KeyboardInterrupt", f1=rng.random(), f2=rng.random()) if rng.random() < 0.5 else \
                        dict(kind="num", exc=rng.choice(["MemoryError", "LinAlgError"]), f1=rng.random(), f2=0)
                    session.add(plan, m, dict(session.gen_query_op(rng, m, k, kinds=["de", "S", "ff"]), fault=f))
            session.add(plan, m, dict(op="q", sim=k, q=world.gen_probe(rng, m.state(k))))
        return plan

    def run(self, nn, plan):
        todo, exp = session.expectations(plan)
        recs = forked(session.run_ops, nn, plan, todo)
        j = Judge()
        log = []
        for rec in recs:
            i = rec["i"]
            o = plan["ops"][i]
            log.append([i, o["op"], rec["st"], rec.get("fired")])
            if rec["st"] == "exc":
                raise Violation("raised", f"op {i} {json.dumps(o)} raised {rec['exc']}: {rec['msg']} in {rec['where']}", i)
            if rec["st"] == "ok" and o["op"] == "q" and o["q"]["k"] == "probe":
                j.probe(exp[i][0], o["q"], rec["ans"], i)
        st = super().stats(plan, recs, type("E", (), dict(forks=0)))
        st.pop("oracle_processes")
        st["relations"] = j.counts
        st["reference_solutions"] = len(j.memo)
        st["nontrivial"] = int(sum(j.counts.values()) >= 10)
        log.append(sorted(j.counts.items()))
        return dict(log=log, stats=st)

    def shrink(self, plan):
        for i, o in enumerate(plan["ops"]):
            if o["op"] == "q" and o["q"]["k"] == "probe" and len(o["q"]["parts"]) > 1:
                for x in o["q"]["parts"]:
                    p = json.loads(json.dumps(plan))
                    p["ops"][i]["q"]["parts"].remove(x)
                    yield p
        for p in super().shrink(plan):
            if all(a["op"] != "q" or a["q"]["k"] != "probe" for a in plan["ops"]) or self.fits(p):
                # a generic candidate replaces probes by plain queries: keep those that do not
                if sum(o["op"] == "q" and o["q"]["k"] == "probe" for o in p["ops"]) == sum(o["op"] == "q" and o["q"]["k"] == "probe" for o in plan["ops"]):
                    yield p

    def fits(self, p):
        for o in p["ops"]:
            if o["op"] == "q" and o["q"]["k"] == "probe":
                n = len(p["sims"][o["sim"]]["lays"])
                if not (o["q"]["i"] < n and o["q"]["j"] < n - 1 and o["q"]["m"] < n):
                    return False
        return True


CHECK = C07()
