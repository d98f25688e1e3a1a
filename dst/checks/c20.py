"""The same session on several backends: each backend lives in a process of its own."""
import json
import os
import warnings

from .. import instrument, sampling, session, world
from ..backends import scratch_env
from ..core import HarnessError, Violation, digest, forked
from ..server import Server
from .common import SessionCheck, make_layers, start

OTHERS = ("autograd", "torch", "scipy", "jax")


def switch(nn, backend):
    warnings.filterwarnings("ignore")
    if backend != "numpy":
        nn.set_backend(backend)
        instrument.collect()
    if nn.get_backend() != backend:
        raise Violation("backend", f"asked for {backend}, got {nn.get_backend()}")


# ---------------------------------------------------------------- sessions
def extra(ex, o):
    a = ex.do(o)
    if o["op"] != "q":
        return a
    return [ex.sims[o["sim"]].harmonics, a]


def run_session(nn, plan, backend):
    switch(nn, backend)
    todo, _ = session.expectations(plan)
    return session.run_ops(nn, plan, todo, extra)


def profile_session(nn, plan, backend):
    switch(nn, backend)
    todo, _ = session.expectations(plan)
    return [(r["i"], r.get("at")) for r in session.run_ops(nn, plan, todo, None, True) if "at" in r]


def comparable(st, q):
    """Does the answer not depend on the choice of eigenvectors?"""
    lays = st["layers"]
    uni = [session.is_u(l["eps"]) for l in lays]
    if st["form"] == "jones" and any(not u and l["eps"]["k"] != "px" and not l.get("tf") for u, l in zip(uni, lays)):
        return q["k"] in ("eps", "glay")  # directions of the tangent field are rounding noise where symmetry makes it vanish
    if q["k"] == "S":
        i, j = q["ind"] or (0, len(lays) - 1)
        return uni[i] and uni[j]
    if q["k"] == "flux":
        return uni[q["lay"]["i"]]
    return True


def reorder(a, p, q):
    """The answer with its harmonics in the order of the reference (p[i]: place of the i-th)."""
    import numpy as np

    k = q["k"]
    if k == "S":
        n = len(p)
        pp = np.concatenate([p, p + n])
        return [[b[np.ix_(pp, pp)] for b in r] for r in a]
    if k == "de" and q["orders"] and not q["dict"]:
        return [b[..., p] for b in a]
    if k == "ff":
        return a[..., p]
    return a


def align(got, ref, q):
    """None if the harmonics are the same set, with got's answer in the order of ref."""
    import numpy as np

    (h, a), (h0, a0) = got, ref
    h, h0 = (np.asarray(x).astype(int) for x in (h, h0))
    place = {tuple(c): n for n, c in enumerate(h.T)}
    if set(place) != {tuple(c) for c in h0.T} or h.shape != h0.shape:
        return None, f"harmonics {h.T.tolist()} instead of {h0.T.tolist()}"
    if (h == h0).all():
        return a, None
    if q["k"] in ("flux", "ord"):
        return a0, None
    return reorder(a, np.array([place[tuple(c)] for c in h0.T]), q), None


def compare(a, b, q, st):
    import numpy as np

    # tangent fields of two-dimensional patterns come from an iterative minimisation
    TOL = 1e-8 if st["form"] == "original" or st["lat"]["kind"] == "1d" else 1e-5

    if q["k"] != "de" or not q["complex"]:
        return world.diff(a, b, TOL, floor=1e-2)
    if not q["orders"]:
        return world.diff(a, b, 3e-7, floor=1.0)

    # amplitudes of evanescent orders are square roots of rounding noise instead of zero
    def clean(x):
        if isinstance(x, dict):
            return {"D": [[k, clean(v)] for k, v in x["D"]]}
        if isinstance(x, list):
            return [clean(v) for v in x]
        return np.where(np.abs(x) < 3e-7, 0, x) if isinstance(x, np.ndarray) else x

    return world.diff(clean(a), clean(b), TOL, floor=1.0)


# ---------------------------------------------------------------- other parts of the library
def misc_op(nn, o):
    import numpy as np

    from nannos import optimize, utils

    w = o["op"]
    bk = nn.backend
    r = np.random.RandomState(o["s"])
    real = lambda a: world.to_backend(nn, a, cplx=False)  # noqa
    if w == "lattice":
        lat = world.build_lattice(nn, o["lat"])
        h, n = lat.get_harmonics(o["nh"], sort=o["sort"])
        return [lat.grid, lat.reciprocal, lat.area, int(n), sorted([int(x), int(y)] for x, y in zip(h[0], h[1])), lat.ones(), lat.zeros(), lat.constant(1.5 + 0.5j)]
    if w == "shape":
        lat = world.build_lattice(nn, o["lat"])
        c, s = o["c"], o["shape"]
        m = dict(circle=lambda: lat.circle(c, o["w"]), ellipse=lambda: lat.ellipse(c, (o["w"], o["v"]), rotate=o["rot"]),
                 square=lambda: lat.square(c, o["w"], rotate=o["rot"]), rectangle=lambda: lat.rectangle(c, (o["w"], o["v"]), rotate=o["rot"]),
                 polygon=lambda: lat.polygon([(c[0] - 0.2, c[1] - o["v"]), (c[0] + o["w"], c[1]), (c[0], c[1] + 0.3)]),
                 stripe=lambda: lat.stripe(c[0], o["w"]))[s]()
        return [m]
    if w == "source":
        p = world.build_pw(nn, o["pw"])
        return [p.wavevector, p.amplitude, p.a0 if hasattr(p, "a0") else None, p.frequency_scaled, p.theta]
    if w == "design":
        x = real(r.rand(*o["n"]))
        out = [optimize.project(x, o["b"], 0.4), optimize.simp(x, 1.0, 4.0, o["p"]), optimize.apply_filter(x, o["r"])]
        y = real(r.rand(o["n"][0]))
        return out + [optimize.multi_project(y, o["b"], 3), optimize.multi_simp(y, [1.0, 2.0, 4.0], o["p"])]
    if w == "fft":
        x = world.to_backend(nn, r.rand(*o["n"]) + 1j * r.rand(*o["n"]))
        f = nn.formulations.fft
        return [f.fourier_transform(x), f.inverse_fourier_transform(x)]
    if w == "tangent":
        lat = world.build_lattice(nn, o["lat"])
        lay = lat.Layer("g", thickness=0.3, tangent_field_type=o["type"])
        lay.epsilon = world.to_backend(nn, world.eps_array(o["eps"], o["lat"]))
        h, _ = lat.get_harmonics(o["nh"], sort=True)
        # directions are ill-determined where the field vanishes: weighted by its squared size
        t = lay.get_tangent_field(h, normalize=False, type=o["type"])
        t0 = [world.norm(x) for x in t]
        w = t0[0] ** 2 + t0[1] ** 2
        w = w / w.max()
        out = t0
        if o["norm"]:
            out += [w * world.norm(x) for x in lay.get_tangent_field(h, normalize=True, type=o["type"])]
        if o["jones"]:
            out += [w * world.norm(x) for x in lay.get_jones_field(t)]
        return out
    if w == "sample":
        sp = o["spec"]
        f = sampling.make(sp)
        sampling.STATE.update(calls=[], fail=None, limit=2 * sampling.limit(sp), fired=False)
        import numpy

        x, y = nn.adaptive_sampler(f, numpy.array(sp["grid"], dtype=float), **sp["par"])
        return [x, y]
    if w == "grad":
        return grad_of(nn, o, r)
    raise HarnessError(w)


def objective(nn, o):
    """Design -> combination of answers of a session."""
    import numpy as np

    bk = nn.backend
    st = o["st"]
    L = st["lat"]
    g = [j for j, l in enumerate(st["layers"]) if not session.is_u(l["eps"])][0]
    nx, ny = L["disc"]
    r = np.random.RandomState(o["s"] + 1)
    wr, wt = r.rand(2)

    def f(x):
        sim, lays = world.build_fresh(nn, st)
        d = bk.reshape(x, (o["m"], o["m2"]))
        i = np.arange(nx) * o["m"] // nx
        j = np.arange(ny) * o["m2"] // ny
        d = d[i][:, j]
        if o["filter"]:
            d = nn.optimize.apply_filter(d, o["filter"])
        if o["proj"]:
            d = nn.optimize.project(d, o["proj"])
        lays[g].epsilon = nn.optimize.simp(d, 1.0 + 0.3 * 1, 4.0, 2) + 0j * d
        R, T = sim.diffraction_efficiencies(orders=o["orders"])
        if o["orders"]:
            return wr * R[sim.get_order_index((0, 0))] + wt * T[sim.get_order_index((0, 0))]
        return wr * R + wt * T

    return f


def grad_of(nn, o, r):
    import numpy as np

    x = r.rand(o["m"] * o["m2"]) * 0.8 + 0.1
    f = objective(nn, o)
    real = lambda a: world.to_backend(nn, a, cplx=False)  # noqa
    v = float(f(real(x)))
    if nn.get_backend() in ("autograd", "torch"):
        g = nn.grad(f)(real(x))
        return dict(v=v, g=world.norm(g))
    h = 1e-5
    d = []
    for i in range(len(x)):
        e = np.zeros(len(x))
        e[i] = h
        d.append((float(f(real(x + e))) - float(f(real(x - e)))) / (2 * h))
    return dict(v=v, g=np.array(d))


def run_misc(nn, plan, backend):
    import numpy as np

    switch(nn, backend)
    np.seterr(all="ignore")
    out = []
    for o in plan["ops"]:
        if o["op"] == "grad" and backend in ("scipy", "jax"):
            out.append(None)
            continue
        try:
            v = misc_op(nn, o)
            out.append(v if o["op"] == "grad" else world.norm(v))
        except (Violation, HarnessError):
            raise
        except Exception as e:  # noqa
            if session.nannos_frame(e) is None:
                raise
            raise Violation("raised", f"{json.dumps(o)} on {backend} raised {type(e).__name__}: {str(e)[:200]} in {session.nannos_frame(e)}")
    return out


def gen_misc(rng):
    w = rng.choice(["lattice", "shape", "shape", "source", "design", "design", "fft", "tangent", "sample", "grad", "grad", "grad"])
    o = dict(op=w, s=rng.randrange(10**6))
    if w in ("lattice", "shape", "tangent"):
        lat = world.gen_lattice(rng)
        if w == "tangent":
            while lat["kind"] == "1d":
                lat = world.gen_lattice(rng)
        o["lat"] = lat
        o["nh"] = world.gen_nh(rng, lat)
    if w == "lattice":
        o["sort"] = rng.random() < 0.5
    if w == "shape":
        o["shape"] = "stripe" if lat["kind"] == "1d" else rng.choice(["circle", "ellipse", "square", "rectangle", "polygon"])
        u = lambda a, b: round(rng.uniform(a, b), 5)  # noqa
        o.update(c=[u(0.3, 0.6), u(0.3, 0.6)], w=u(0.1, 0.3), v=u(0.1, 0.3), rot=u(-40, 60))
    if w == "source":
        lat = world.gen_lattice(rng)
        o["pw"] = dict(wl=round(rng.uniform(0.5, 2), 4), ang=[round(rng.uniform(0, 60), 2), round(rng.uniform(0, 180), 2), round(rng.uniform(0, 90), 2)])
    if w == "design":
        o.update(n=[rng.randint(3, 9), rng.randint(3, 9)], b=rng.choice([1, 2, 8, 64]), p=rng.choice([1, 2, 3]), r=rng.choice([0, 1.2, 3, [1.0, 2.5]]))
    if w == "fft":
        o["n"] = [rng.randint(1, 9), rng.randint(1, 9)]
    if w == "tangent":
        d = lat["disc"]
        o.update(type=rng.choice(["fft", "opt"]) if d[0] == d[1] else "fft", norm=rng.random() < 0.5, jones=rng.random() < 0.5, eps=world.gen_eps(rng, lat, uniform=False, aniso=0))
    if w == "sample":
        sp = dict(sampling.gen_spec(rng, 0))
        if sp["k"] == "rcwa":
            sp["k"] = "lorentz"
        o["spec"] = sp
    if w == "grad":
        while True:
            plan, m = start(rng, copies=0.0, max_layers=3, long_stack=0)
            make_layers(plan, m)
            session.add(plan, m, dict(op="build", sim=0))
            st = m.state(0)
            if sum(not session.is_u(l["eps"]) for l in st["layers"]) == 1 and st["form"] != "pol" and all(l["eps"]["k"] != "aniso" for l in st["layers"]) and all(not l.get("tf") for l in st["layers"]):
                break
        one = st["lat"]["kind"] == "1d"
        # distinct eigenvalues: the derivative of the modes exists
        st = json.loads(json.dumps(dict(st, form="original", nh=max(5 if one else 13, st["nh"]))))
        a = st["pw"]["ang"]
        st["pw"]["ang"] = [max(7.3, a[0]), a[1] if one else 23.0 + a[1] % 10, a[2]]
        o.update(st=st, m=rng.choice([4, 6, 8]), m2=1 if one else rng.choice([2, 4]), filter=rng.choice([0, 0, 1.5]) if not one else 0, proj=rng.choice([0, 1, 8]), orders=rng.random() < 0.5)
    return o


class C20(SessionCheck):
    id = "C20"
    title = "one session gives the same answers on every backend"
    runs = dict(quick=600, thorough=20000)
    block = ("torch", "jax")
    scratch = True
    rule = "one case is one generated session, some of its queries interrupted and retried, or one series of library calls, executed on two backends in separate processes with every answer compared; non-trivial if at least one answer was compared"
    components = dict(real=["nannos (whole package)", "numpy, scipy, autograd, torch (CPU), jax (CPU)"], stub=["clock (virtual)"])
    assumptions = ["double precision", "partial scattering matrices and amplitudes of patterned layers, which depend on the choice of eigenvectors, are not compared",
                   "gradients only where the library offers them (autograd and torch); numpy differences otherwise"]

    def init(self, nn):
        self.far = {}

    def server(self, backend):
        k = backend if backend in ("jax", "torch") else "np"
        if k not in self.far:
            env = scratch_env(os.path.join(os.environ["DST_SCRATCH"], "jax")) if k == "jax" else {}
            self.far[k] = Server(env=env, block=[b for b in ("torch", "jax") if b != k])
        return self.far[k]

    def gen(self, rng, i, tier):
        j = rng.random() < (0.06 if tier == "quick" else 0.15)
        other = "jax" if j else rng.choice(["autograd", "autograd", "torch", "torch", "torch", "scipy"])
        if rng.random() < 0.4:
            ops = [gen_misc(rng) for _ in range(rng.randint(1, 4))]
            if other == "jax":
                ops = [o for o in ops if o["op"] != "grad"] or [dict(op="fft", n=[4, 5], s=1)]
            return dict(kind="misc", other=other, ops=ops)
        plan, m = start(rng, nsims=rng.choice([1, 1, 2]), copies=0.35, max_layers=rng.choice([3, 4, 5]), long_stack=0.03)
        plan.update(kind="session", other=other)
        for x in plan["sims"]:
            if x["form"] == "pol":  # ill-conditioned where the tangent field vanishes
                x["form"] = "jones"
        make_layers(plan, m)
        for k in range(len(plan["sims"])):
            session.add(plan, m, dict(op="build", sim=k))
        n = rng.randint(3, 8)
        while n > 0:
            k = rng.randrange(len(plan["sims"]))
            r = rng.random()
            n -= 1
            if r < 0.1:
                session.add(plan, m, dict(op="reset", sim=k, p=rng.choice(["S", "solve", "all"])))
            elif r < 0.25:
                o = session.gen_edit(rng, plan, m, rng.choice(sorted(m.lays)))
                if o is not None:
                    session.add(plan, m, o)
            elif r < 0.3:
                session.new_sim(rng, plan, m, form="original")
            else:
                o = session.gen_query_op(rng, m, k)
                if comparable(m.state(k), o["q"]):
                    if rng.random() < 0.2:
                        session.add(plan, m, dict(o, fault=dict(kind="kbi", exc="KeyboardInterrupt", f1=rng.random(), f2=rng.random())))
                    session.add(plan, m, o)
        return plan

    def prepare(self, nn, plan):
        if plan["kind"] == "session" and any(o.get("fault") and "at" not in o["fault"] for o in plan["ops"]):
            plan = json.loads(json.dumps(plan))
            for i, at in self.server(plan["other"]).call(profile_session, plan, plan["other"]):
                if at is None:
                    del plan["ops"][i]["fault"]
                else:
                    plan["ops"][i]["fault"]["at"] = at
        return plan

    def run(self, nn, plan):
        b = plan["other"]
        far = self.server(b)
        if plan["kind"] == "misc":
            far.send(run_misc, plan, b)
            try:
                ref = forked(run_misc, nn, plan, "numpy")
            finally:
                got = far.recv()
            n = 0
            ops = {}
            for i, (o, x, y) in enumerate(zip(plan["ops"], got, ref)):
                if x is None:
                    continue
                n += 1
                ops[o["op"]] = ops.get(o["op"], 0) + 1
                if o["op"] == "grad":
                    d = world.diff(world.norm(x["v"]), world.norm(y["v"]), 1e-6) or world.diff(x["g"].ravel(), y["g"].ravel(), 1e-3, floor=1e-4)
                else:
                    d = world.diff(x, y, 1e-9, floor=1e-3)
                if d:
                    raise Violation("backends-differ", f"op {i} {json.dumps(o)} on {b} compared to numpy: {d}", i)
            return dict(log=[digest([json.dumps(o) for o in plan["ops"]]), n], stats=dict(answers=n, calls=ops, backends={b: 1}, nontrivial=int(n >= 1)))
        _, exp = session.expectations(plan)
        clean = json.loads(json.dumps(plan))
        for o in clean["ops"]:
            o.pop("fault", None)
        far.send(run_session, plan, b)
        try:
            ref = forked(run_session, nn, clean, "numpy")
        finally:
            got = far.recv()
        log = []
        n = 0
        for x, y in zip(got, ref):
            i = x["i"]
            o = plan["ops"][i]
            log.append([i, o["op"], x["st"], x.get("fired")])
            for r, where in ((y, "numpy"), (x, b)):
                if r["st"] == "exc":
                    raise Violation("raised", f"op {i} {json.dumps(o)} on {where} raised {r['exc']}: {r['msg']} in {r['where']}", i)
                if r["st"] == "swallowed":
                    raise Violation("swallowed", f"op {i} {json.dumps(o)} on {where}: the interruption at {r['fired']} never reached the caller", i)
            if o["op"] != "q" or x["st"] != "ok" or "fault" in o:
                continue
            st, q = exp[i]
            a, d = align(x["ans"], y["ans"], q)
            d = d or compare(a, y["ans"][1], q, st)
            if d:
                raise Violation("backends-differ", f"op {i} query {json.dumps(q)} on {b} compared to numpy: {d} (lattice {st['lat']['kind']}, {st['form']})", i)
            n += 1

        class E:
            forks = 0

        s = self.stats(plan, got, E)
        s.pop("oracle_processes")
        s.update(answers=n, backends={b: 1}, nontrivial=int(n >= 1))
        return dict(log=log, stats=s)

    def shrink(self, plan):
        if plan["kind"] == "session":
            for p in session.shrink_candidates(plan):
                yield p


CHECK = C20()
