import copy
import json
import warnings

from .. import instrument, opt, sampling, sched, session, simjoblib, simtasks, world
from ..core import HarnessError, SimAbort, Violation, forked, rng_for
from .common import SessionCheck, make_layers, start


def mark(x):
    """Everything a caller can see of a value, to compare later."""
    import numpy as np

    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("nd", x.shape, [mark(v) for v in x.ravel()])
        return ("nd", str(x.dtype), x.shape, np.ascontiguousarray(x).tobytes())
    if hasattr(x, "detach"):
        return ("t", str(x.dtype), tuple(x.shape), np.ascontiguousarray(x.detach().cpu().numpy()).tobytes(), bool(x.requires_grad))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [mark(v) for v in x])
    if isinstance(x, dict):
        return ("dict", [(repr(k), mark(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(repr(v) for v in x))
    if isinstance(x, (int, float, complex, str, bool, type(None), np.generic)):
        return ("v", type(x).__name__, repr(x))
    return ("o", type(x).__name__, id(x))


class Keeper:
    """What the caller holds: inputs passed in and answers received."""

    def __init__(self, rng):
        self.rng = rng
        self.items = []

    def hold(self, kind, x):
        import numpy as np

        r = self.rng.random()
        if kind == "basis" and isinstance(x, tuple):
            x = [list(v) for v in x] if r < 0.4 else np.array(x) if r < 0.7 else x
        elif kind == "disc" and isinstance(x, tuple) and r < 0.6:
            x = list(x)
        elif kind == "angles":
            x = list(x) if r < 0.4 else np.array(x, dtype=float) if r < 0.8 else x
        elif kind == "z" and isinstance(x, list) and r < 0.4:
            x = np.array(x, dtype=float)
        elif kind == "order" and r < 0.5:
            x = list(x)
        self.keep(kind, x)
        return x

    def keep(self, kind, x):
        self.items.append((kind, x, mark(x)))
        return x

    def check(self, what, step):
        for n, (kind, x, m) in enumerate(self.items):
            if mark(x) != m:
                now = mark(x)
                cls = "answer-changed" if kind == "answer" else "input-changed"
                raise Violation(cls, f"{what} changed {'an earlier answer' if kind == 'answer' else 'the caller’s ' + kind} "
                                     f"(item {n}, {type(x).__name__}): {short(m)} became {short(now)}", step)


def short(m):
    import numpy as np

    if m[0] in ("nd",) and isinstance(m[-1], bytes):
        a = np.frombuffer(m[3], dtype=m[1]).reshape(m[2])
        return f"{m[1]}{list(m[2])} sum {a.sum():.6g} {np.array2string(a.ravel()[:4], precision=4)}"
    return str(m)[:120]


class HeldExec(session.Exec):
    def __init__(self, nn, plan):
        self.k = Keeper(rng_for("held", plan["hs"]))
        world.HOLD = self.k.hold
        super().__init__(nn, plan)
        for n, L in enumerate(plan["lats"]):
            lat = self.lats[n]
            self.k.items += [(f"lattice {a}", v, mark(v)) for a in ("basis_vectors", "discretization", "harmonics_array", "truncation") for v in [getattr(lat, a)]]

    def do(self, o):
        world.HOLD = self.k.hold
        a = super().do(o)
        if o["op"] in ("q", "peek"):
            self.k.keep("answer", a)
        return a


def attrs_ok(ex, plan, step):
    """Layers still are what the caller made them."""
    for j, lay in ex.lays.items():
        v = ex.m.lays[j]
        got = [lay.name, lay.thickness, lay.epsilon, lay.mu, lay.tangent_field_type, bool(lay.is_uniform), lay.tangent_field]
        d = world.diff(world.norm(got), session.peek_value(plan, v), 1e-9)
        if d:
            raise Violation("input-changed", f"layer {j} is not what the caller made it (name, thickness, permittivity, permeability, tangent type, uniform, tangent field): {d}", step)


def layer_list_ok(ex, plan, step):
    for k, sim in ex.sims.items():
        want = [ex.lays[j] for j in plan["sims"][k]["lays"]]
        if len(sim.layers) != len(want) or any(a is not b for a, b in zip(sim.layers, want)):
            raise Violation("input-changed", f"the layers of simulation {k} were replaced", step)


def run_session(nn, plan, todo, profile=False):
    warnings.filterwarnings("ignore")
    if plan["backend"] != "numpy":
        nn.set_backend(plan["backend"])
        instrument.collect()
    ex = HeldExec(nn, plan)
    recs = []
    ex.k.check("setting up", None)
    for i in todo:
        r = session.run_ops_on(ex, [i], None, profile)[0]
        o = plan["ops"][i]
        if r["st"] == "exc":
            raise Violation("raised", f"op {i} {json.dumps(o)} raised {r['exc']}: {r['msg']} in {r['where']}", i)
        if profile:
            recs.append(r)
            continue
        r["ans"] = None if r["ans"] is None else 1
        recs.append(r)
        ex.k.check(f"op {i} {json.dumps({k: v for k, v in o.items() if k != 'fault'})}{' (which failed)' if r['st'] == 'faulted' else ''}", i)
        attrs_ok(ex, plan, i)
        layer_list_ok(ex, plan, i)
    world.HOLD = None
    return recs, len(ex.k.items)


# ---------------------------------------------------------------- other parts of the library
def arr(nn, r, shape, kind):
    import numpy as np

    a = r.rand(*shape)
    if kind == "bk":
        return world.to_backend(nn, a, cplx=False)
    if kind == "list":
        return a.tolist()
    if kind == "f32":
        return a.astype(np.float32)
    return a


def run_misc(nn, plan):
    import numpy as np

    warnings.filterwarnings("ignore")
    np.seterr(all="ignore")
    if plan["backend"] != "numpy":
        nn.set_backend(plan["backend"])
        instrument.collect()
    k = Keeper(rng_for("held", plan["hs"]))
    done = {}
    for n, o in enumerate(plan["ops"]):
        r = np.random.RandomState(o["s"])
        res = None
        f = o.get("fault")
        exc = session.make_exc("KeyboardInterrupt")
        call = build_call(nn, k, o, r)
        try:
            if f is not None:
                with instrument.watching(at=f, exc=exc):
                    res = call()
            else:
                res = call()
            st = "ok"
        except (Violation, SimAbort, HarnessError):
            raise
        except BaseException as e:  # noqa
            if e is exc:
                st = "interrupted"
            elif (o["op"] == "opt" and opt.FAULT["fired"]) or type(e).__name__ == o.get("raises") or (o.get("raises") == "*" and isinstance(e, Exception)):
                st = "failed"
            elif session.nannos_frame(e) is None:
                raise HarnessError(f"{o}: {e!r}")
            else:
                raise Violation("raised", f"op {n} {json.dumps(o)} raised {type(e).__name__}: {e} in {session.nannos_frame(e)}", n)
        if res is not None:
            k.keep("answer", res)
        done[o["op"] + ":" + st] = done.get(o["op"] + ":" + st, 0) + 1
        k.check(f"op {n} {json.dumps(o)}{'' if st == 'ok' else ' (' + st + ')'}", n)
    return done, len(k.items)


def lattice_of(nn, k, o, one=False):
    d = k.keep("discretization", [16, 16])
    if one:
        return nn.Lattice(1.1, discretization=16)
    b = k.keep("basis vectors", [[1.0, 0.0], [0.3 if o["s"] % 2 else 0.0, 0.9]])
    return nn.Lattice(b, discretization=d)


def build_call(nn, k, o, r):
    """The call to make, with all its inputs held by the caller."""
    import numpy as np

    w = o["op"]
    v = o.get("as", "np")
    h = k.keep
    opt_ = nn.optimize
    if w == "shape":
        lat = lattice_of(nn, k, o)
        s = o["shape"]
        if s == "polygon":
            p = [(0.1, 0.1), (0.8, 0.2), (0.5, 0.7)]
            p = h("vertices", [list(q) for q in p] if v == "list" else np.array(p) if v == "np" else p)
            return lambda: lat.polygon(p)
        c = h("center", [0.45, 0.5] if v == "list" else np.array([0.45, 0.5]) if v == "np" else (0.45, 0.5))
        if s == "circle":
            return lambda: lat.circle(c, 0.2)
        if s == "ellipse":
            q = h("radii", [0.2, 0.3] if v == "list" else np.array([0.2, 0.3]))
            return lambda: lat.ellipse(c, q, rotate=20)
        if s == "square":
            return lambda: lat.square(c, 0.3, rotate=10)
        if s == "rectangle":
            q = h("widths", [0.2, 0.3] if v == "list" else np.array([0.2, 0.3]))
            return lambda: lat.rectangle(c, q, rotate=15)
        if s == "stripe":
            return lambda: lattice_of(nn, k, o, True).stripe(0.4, 0.3)
        if s == "transform":
            g = h("grid", world.to_backend(nn, r.rand(2, 5, 5), cplx=False))
            return lambda: lat.transform(g)
        if s == "wrong":
            lat1 = lattice_of(nn, k, o, True)
            return lambda: lat1.circle(c, 0.2)
    if w in ("project", "simp", "multi_project", "multi_simp"):
        x = h("design", arr(nn, r, (o["n"],), v if w == "project" else "bk"))
        if w == "project":
            return lambda: opt_.project(x if v != "list" else world.to_backend(nn, x, cplx=False), o["b"], 0.4)
        if w == "multi_project":
            return lambda: opt_.multi_project(x, o["b"], 3)
        if w == "simp":
            return lambda: opt_.simp(x, 1.0, 4.0, 2)
        e = h("epsilons", [1.0, 2.0, 4.0] if v == "list" else [1.0, 3.0 - 0.1j])
        return lambda: opt_.multi_simp(x, e, 1)
    if w == "filter":
        x = h("design", world.to_backend(nn, r.rand(o["n"], o["n"] + 2), cplx=False))
        rf = o["r"]
        rf = h("radii", tuple(rf)) if isinstance(rf, list) else rf
        vec = h("vectors", [[1.0, 0.0], [0.0, 1.5]]) if o["vec"] else None
        return lambda: nn.utils.apply_filter(x, rf) if vec is None else nn.utils.apply_filter(x, rf, vec)
    if w == "fft":
        x = h("array", world.to_backend(nn, r.rand(6, 8) + 0j))
        f = nn.formulations.fft
        return lambda: (f.fourier_transform(x), f.inverse_fourier_transform(x))
    if w == "tangent":
        lat = lattice_of(nn, k, o)
        lay = lat.Layer("g", thickness=0.3, tangent_field_type=o["type"])
        e = h("permittivity", world.to_backend(nn, 1 + 3 * (r.rand(16, 16) > 0.5)))
        lay.epsilon = e
        hm = h("harmonics", lat.get_harmonics(9, sort=True)[0])
        return lambda: lay.get_tangent_field(hm, normalize=o["norm"], type=o["type"])
    if w == "jones":
        lat = lattice_of(nn, k, o)
        lay = lat.Layer("g", thickness=0.3)
        e = h("permittivity", world.to_backend(nn, 1 + 3 * (r.rand(16, 16) > 0.5)))
        lay.epsilon = e
        t = h("tangent field", lay.get_tangent_field(lat.get_harmonics(9)[0], type="fft"))
        return lambda: lay.get_jones_field(t)
    if w == "source":
        a = h("angles", [10, 20, 30] if v == "list" else np.array([10.0, 20, 30]))
        wl = h("wavelength", np.array(1.3)) if v == "np" else 1.3
        return lambda: nn.PlaneWave(wl, angles=a).a0
    if w == "badsim":
        lat = lattice_of(nn, k, o)
        ls = h("layers", [lat.Layer("a"), lat.Layer("a" if o["bad"] == "names" else "b", epsilon=2.0)])
        e = h("permittivity", world.to_backend(nn, 1 + 3 * (r.rand(16, 16) > 0.5)))
        g = lat.Layer("g", thickness=0.2)
        g.epsilon = e
        ls2 = h("layers", [ls[0], g, ls[1]])
        kw = h("options", dict(nh=5 if o["bad"] != "nyquist" else 700, formulation="no" if o["bad"] == "form" else "original"))
        return lambda: nn.Simulation(ls2, nn.PlaneWave(1.4), **kw)
    if w == "sample":
        sp = o["spec"]
        x = h("starting grid", np.array(sp["grid"], dtype=float))
        fl = o.get("fail")
        f0 = sampling.make(sp)
        given = []

        def f(t):
            if fl is not None and len(given) >= fl:
                raise ZeroDivisionError("injected")
            y = f0(t)
            if isinstance(y, (list, np.ndarray)):
                given.append(h("value returned by the sampled function", y))
            else:
                given.append(y)
            return y

        sampling.STATE.update(calls=[], fail=None, limit=2 * sampling.limit(sp), fired=False)
        kw = h("options", dict(sp["par"]))
        return lambda: nn.adaptive_sampler(f, x, **kw)
    if w == "loop":
        simjoblib.install()
        simtasks.reset(dict(delays="none", seed=0))
        items = h("inputs", [h("element", [r.rand(), {"a": [1, 2]}]) for _ in range(o["n"])])
        if v == "np":
            items = h("inputs", r.rand(o["n"], 3))
        a = h("argument", np.arange(3.0))
        kw = h("keyword arguments", dict(scale=h("argument", [1.0, 2.0])))

        def g(x, y, scale):
            if o.get("fail") and len(str(x)) >= 0:
                raise ZeroDivisionError("injected")
            return [np.array(x[0] if isinstance(x, list) else x) * scale[1], y]

        loop = nn.parloop(n_jobs=o["jobs"], prefer=o["prefer"])(g)

        def call():
            out = {}

            def go():
                out["v"] = loop(items, a, **kw)

            s = sched.Sched(dict(mode="random", seed=o["s"], p=0.1))
            t = s.run([go])[0]
            if t.exc is not None:
                raise t.exc
            return out["v"]

        return call
    if w == "opt":
        sp = o["spec"]
        opt.EVENTS.clear()
        opt.FAULT.update(spec=o.get("inject"), count=0, fired=None)
        fun = opt.objective(nn, sp)
        cb0 = opt.callback(nn, sp)

        def cb(x, y, *args):
            h("design given to the callback", x)
            h("value given to the callback", y)
            h("arguments given to the callback", args)
            return cb0(x, y, *args)

        op, (x0, args, options) = opt.build(nn, sp, fun, cb)
        h("starting design", x0)
        h("arguments", args)
        if options is not None:
            h("options", options)
        thr = op.threshold
        h("thresholds", thr)
        return op.minimize
    raise ValueError(w)


def gen_misc(rng, backend):
    w = rng.choice(["shape", "shape", "project", "simp", "multi_project", "multi_simp", "filter", "filter", "fft", "tangent", "jones", "source", "badsim", "sample", "sample", "loop", "loop"] +
                   (["opt"] * 5 if backend in ("autograd", "torch") else []))
    o = dict(op=w, s=rng.randrange(10**6))
    v = o["as"] = rng.choice(["np", "list", "bk", "tuple"])
    if w == "shape":
        o["shape"] = rng.choice(["polygon", "circle", "ellipse", "square", "rectangle", "stripe", "transform", "wrong"])
        if o["shape"] == "wrong":
            o["raises"] = "ValueError"
    if w in ("project", "simp", "multi_project", "multi_simp"):
        o["n"], o["b"] = rng.choice([1, 3, 8]), rng.choice([1, 8, 64])
        if w == "project" and backend == "torch":
            o["as"] = "bk"
    if w == "filter":
        o["n"], o["r"], o["vec"] = rng.choice([4, 7]), rng.choice([1.5, [2.0, 1.0], 0, [0, 0]]), rng.random() < 0.5
    if w == "tangent":
        o["type"], o["norm"] = rng.choice(["fft", "opt"]), rng.random() < 0.5
    if w == "badsim":
        o["bad"] = rng.choice(["names", "nyquist", "form"])
        o["raises"] = "ValueError"
    if w == "sample":
        o["spec"] = dict(sampling.gen_spec(rng, 0))
        if o["spec"]["k"] == "rcwa":
            o["spec"]["k"] = "lorentz"
        if rng.random() < 0.4:
            o["spec"]["grid"] = rng.sample(o["spec"]["grid"], len(o["spec"]["grid"]))
        if rng.random() < 0.3:
            o["fail"], o["raises"] = rng.choice([1, 3, 8, 20]), "ZeroDivisionError"
    if w == "loop":
        o["n"], o["jobs"], o["prefer"] = rng.choice([1, 3, 6]), rng.choice([1, 2, 3]), rng.choice([None, "threads", "processes"])
        if rng.random() < 0.3:
            o["fail"], o["raises"] = True, "ZeroDivisionError"
    if w == "opt":
        o["spec"] = opt.gen_spec(rng)
        if o["spec"]["k"] == "rcwa":
            o["spec"] = dict(o["spec"], k="sine")
        o["raises"] = "*"
        if rng.random() < 0.3:
            o["inject"] = dict(where=rng.choice(["fun", "grad", "cb"]), n=rng.choice([1, 2, 4]), exc=rng.choice(sorted(simtasks.EXCS)))
    elif w not in ("loop", "badsim") and rng.random() < 0.2 and "raises" not in o:
        o["fault"] = rng.randint(1, 40)
    return o


class C19(SessionCheck):
    id = "C19"
    title = "the library never modifies what the caller passed in or holds"
    runs = dict(quick=1500, thorough=60000)
    block = ("jax",)
    rule = "one case is one generated session or series of library calls, some interrupted or failing, after each step of which every input passed in and every answer received is compared to what it was; non-trivial if at least five held values were compared"

    def gen(self, rng, i, tier):
        r = rng.random()
        backend = rng.choice(["numpy", "numpy", "autograd", "torch"])
        if r < 0.4:
            return dict(kind="misc", backend=backend, hs=rng.randrange(10**6), ops=[gen_misc(rng, backend) for _ in range(rng.randint(2, 7))])
        plan, m = start(rng, nsims=rng.choice([1, 1, 2, 3]), copies=0.35, max_layers=rng.choice([3, 4, 5]), long_stack=0.03)
        plan.update(kind="session", backend=backend if rng.random() < 0.5 else "numpy", hs=rng.randrange(10**6))
        make_layers(plan, m)
        for k in range(len(plan["sims"])):
            session.add(plan, m, dict(op="build", sim=k))
        for _ in range(rng.randint(3, 9)):
            k = rng.randrange(len(plan["sims"]))
            r = rng.random()
            if r < 0.1:
                session.add(plan, m, dict(op="reset", sim=k, p=rng.choice(["S", "solve", "all"])))
            elif r < 0.25:
                o = session.gen_edit(rng, plan, m, rng.choice(sorted(m.lays)))
                if o is not None:
                    session.add(plan, m, o)
            elif r < 0.32:
                session.add(plan, m, dict(op="solve", sim=k))
            elif r < 0.37:
                session.new_copy(rng, plan, m)
            elif r < 0.42:
                session.new_sim(rng, plan, m)
            else:
                o = session.gen_query_op(rng, m, k, extra=1)
                if rng.random() < 0.3:
                    f = dict(kind="kbi", exc="KeyboardInterrupt", f1=rng.random(), f2=rng.random()) if rng.random() < 0.65 else \
                        dict(kind="num", exc=rng.choice(["MemoryError", "LinAlgError"]), f1=rng.random(), f2=0)
                    if plan["backend"] == "torch":
                        f = dict(kind="kbi", exc="KeyboardInterrupt", f1=rng.random(), f2=rng.random())
                    o["fault"] = f
                session.add(plan, m, o)
        return plan

    def prepare(self, nn, plan):
        if plan["kind"] == "session" and any(o.get("fault") and "at" not in o["fault"] for o in plan["ops"]):
            todo, _ = session.expectations(plan)
            recs, _ = forked(run_session, nn, plan, todo, True)
            plan = json.loads(json.dumps(plan))
            for r in recs:
                f = plan["ops"][r["i"]].get("fault")
                if f is not None:
                    if r.get("at") is None:
                        del plan["ops"][r["i"]]["fault"]
                    else:
                        f["at"] = r["at"]
        return plan

    def run(self, nn, plan):
        if plan["kind"] == "misc":
            done, n = forked(run_misc, nn, plan)
            fl = {}
            for k, v in done.items():
                if k.endswith(":failed") or k.endswith(":interrupted"):
                    fl[k.split(":")[1]] = fl.get(k.split(":")[1], 0) + v
            return dict(log=[sorted(done.items()), n], stats=dict(calls=done, held=n, faults=fl, nontrivial=int(n >= 5)))
        todo, _ = session.expectations(plan)
        recs, n = forked(run_session, nn, plan, todo)

        class E:
            forks = 0

        st = self.stats(plan, recs, E)
        st.update(held=n, nontrivial=int(n >= 5), backends={plan["backend"]: 1})
        st.pop("oracle_processes")
        return dict(log=[[r["i"], r["st"]] for r in recs] + [n], stats=st)

    def shrink(self, plan):
        if plan["backend"] != "numpy" and not any(o["op"] == "opt" for o in plan["ops"]):
            yield dict(plan, backend="numpy")
        if plan["kind"] == "session":
            yield from session.shrink_candidates(plan)


CHECK = C19()
