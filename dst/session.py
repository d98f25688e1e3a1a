"""Sessions: generated sequences of operations on simulations, their execution against the
real code, and the expectation for every query (a fresh simulation in a process of its own)."""
import copy
import json
import traceback

from . import world
from .core import HarnessError, Violation, forked

NUM_FUNCS = [("linalg", "solve"), ("linalg", "inv"), ("linalg", "eig"), ("", "einsum"), ("", "diag"), ("", "exp"), ("fft", "fft2")]


# ================================================================ model (pure, no nannos)
class Model:
    """What the objects of a session should be worth at each step."""

    def __init__(self, plan):
        self.plan = plan
        self.lays = {}
        self.sims = {}

    def copy(self):
        m = Model(self.plan)
        m.lays = copy.deepcopy(self.lays)
        m.sims = copy.deepcopy(self.sims)
        return m

    def ok(self, o):
        """Can this operation be carried out (its objects exist)?"""
        k = o["op"]
        if k == "mklay":
            s = self.plan["lays"][o["lay"]]
            return o["lay"] not in self.lays and ("copy" not in s or s["copy"] in self.lays)
        if k == "build":
            return o["sim"] not in self.sims and all(j in self.lays for j in self.plan["sims"][o["sim"]]["lays"])
        if k in ("q", "solve", "reset", "form", "matrix"):
            return o["sim"] in self.sims
        if k in ("edit", "peek"):
            return o["lay"] in self.lays
        if k == "bad":
            return ("sim" not in o or o["sim"] in self.sims) and ("lay" not in o or (o["lay"] in self.lays and o["lay"] in self.sims[o["sim"]]["lays"]))
        return True

    def apply(self, o):
        k = o["op"]
        if k == "mklay":
            s = self.plan["lays"][o["lay"]]
            if "copy" in s:
                v = copy.deepcopy(self.lays[s["copy"]])
                v["name"] = v["name"] + " (copy)" if s["name"] is None else s["name"]
            else:
                v = {a: copy.deepcopy(s.get(a)) for a in ("name", "th", "eps", "tft", "tf")}
                v["lat"] = s["lat"]
            self.lays[o["lay"]] = v
        elif k == "build":
            self.sims[o["sim"]] = dict(self.plan["sims"][o["sim"]])
        elif k == "edit":
            self.lays[o["lay"]][o["attr"]] = o["val"]
        elif k == "form":
            self.sims[o["sim"]]["form"] = o["val"]

    def users(self, lay):
        return [k for k in sorted(self.sims) if lay in self.sims[k]["lays"]]

    def state(self, sim):
        s = self.sims[sim]
        lays = [self.lays[j] for j in s["lays"]]
        return dict(
            lat=self.plan["lats"][lays[0]["lat"]],
            pw=self.plan["pws"][s["pw"]],
            layers=[{a: l[a] for a in ("name", "th", "eps", "tft", "tf")} for l in lays],
            nh=s["nh"],
            form=s["form"],
        )


def expectations(plan):
    """For each query operation: (state key, state, query). Operations that cannot be carried
    out (after minimisation removed what they need) are skipped."""
    m = Model(plan)
    out = {}
    todo = []
    for i, o in enumerate(plan["ops"]):
        if not m.ok(o):
            continue
        todo.append(i)
        m.apply(o)
        if o["op"] == "q":
            out[i] = (m.state(o["sim"]), o["q"])
        elif o["op"] == "peek":
            out[i] = dict(m.lays[o["lay"]])
    return todo, out


def peek_value(plan, v):
    """What a layer should look like, without nannos."""
    import numpy as np

    e = world.eps_array(v["eps"], plan["lats"][v["lat"]])
    return [v["name"], world.norm(v["th"]), world.norm(np.array(e)), world.norm(1.0), v["tft"], v["eps"]["k"] == "u",
            world.norm(world.tf_array(v.get("tf"), plan["lats"][v["lat"]]))]


# ================================================================ execution
def nannos_frame(e):
    """Last frame of the traceback inside nannos, or None."""
    from . import instrument

    last = None
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(instrument.ROOT or "/repo/nannos"):
            last = f"{f.filename.rsplit('/', 1)[-1]}:{f.name}"
    return last


class NumFaults:
    """Numerical kernels that can be made to fail at a chosen call."""

    def __init__(self):
        self.n = 0
        self.at = None
        self.exc = None
        self.active = False
        self.fired = None
        self.installed = False

    def install(self):
        if self.installed:
            return
        self.installed = True
        import sys

        import numpy as np

        from . import instrument

        for sub, name in NUM_FUNCS:
            mod = getattr(np, sub) if sub else np
            real = getattr(mod, name)

            def wrapped(*a, _real=real, _name=name, **k):
                if self.active and sys._getframe(1).f_code.co_filename.startswith(instrument.ROOT):
                    self.n += 1
                    if self.at is not None and self.n == self.at:
                        self.at = None
                        self.fired = _name
                        raise self.exc
                return _real(*a, **k)

            if name not in ("eig", "inv"):
                wrapped.__name__ = name
            setattr(mod, name, wrapped)


NUM = NumFaults()


def make_exc(name):
    import numpy as np

    return {"MemoryError": MemoryError("injected"), "LinAlgError": np.linalg.LinAlgError("injected"),
            "KeyboardInterrupt": KeyboardInterrupt("injected")}[name]


class Exec:
    """Carries out the operations of a plan on real objects."""

    def __init__(self, nn, plan):
        self.nn = nn
        self.plan = plan
        self.m = Model(plan)
        self.lats = [world.build_lattice(nn, L) for L in plan["lats"]]
        self.pws = [world.build_pw(nn, p) for p in plan["pws"]]
        self.lays = {}
        self.sims = {}
        self.last = None

    def do(self, o):
        k = o["op"]
        nn = self.nn
        if k == "mklay":
            s = self.plan["lays"][o["lay"]]
            if "copy" in s:
                src = self.lays[s["copy"]]
                self.lays[o["lay"]] = src.copy() if s["name"] is None else src.copy(s["name"])
            else:
                self.lays[o["lay"]] = world.build_layer(nn, self.lats[s["lat"]], s, self.plan["lats"][s["lat"]])
        elif k == "build":
            s = self.plan["sims"][o["sim"]]
            self.sims[o["sim"]] = nn.Simulation(world.held("layers", [self.lays[j] for j in s["lays"]]), self.pws[s["pw"]], nh=s["nh"], formulation=s["form"])
        elif k == "q":
            return world.do_query(nn, self.sims[o["sim"]], o["q"])
        elif k == "solve":
            self.sims[o["sim"]].solve()
        elif k == "matrix":
            self.sims[o["sim"]].build_matrix(o["i"])
        elif k == "reset":
            self.sims[o["sim"]].reset(o["p"])
        elif k == "edit":
            lay = self.lays[o["lay"]]
            if o["attr"] == "th":
                lay.thickness = o["val"]
            elif o["attr"] == "tf":
                lay.tangent_field = world.build_tf(nn, o["val"], self.plan["lats"][self.m.lays[o["lay"]]["lat"]])
            elif o["attr"] == "tft":
                lay.tangent_field_type = o["val"]
            else:
                L = self.plan["lats"][self.m.lays[o["lay"]]["lat"]]
                a = world.eps_array(o["val"], L)
                lay.epsilon = world.held("eps", nn.backend.array(a, dtype=nn.get_types()[1]) if o["val"]["k"] == "u" else world.to_backend(nn, a))
            for s in self.m.users(o["lay"]):
                for p in o["resets"]:
                    self.sims[s].reset(p)
        elif k == "form":
            self.sims[o["sim"]].formulation = o["val"]
            self.sims[o["sim"]].reset("all")
        elif k == "peek":
            lay = self.lays[o["lay"]]
            return [lay.name, lay.thickness, lay.epsilon, lay.mu, lay.tangent_field_type, bool(lay.is_uniform), lay.tangent_field]
        else:
            raise HarnessError(f"unknown op {o}")
        return None


def run_ops(nn, plan, todo, extra=None, profile=False):
    """Execute the listed operations; returns one record per operation."""
    from . import instrument

    return run_ops_ex(nn, plan, todo, extra, profile)["recs"]


def run_ops_ex(nn, plan, todo, extra=None, profile=False):
    """As run_ops, but also returns the executor with its objects."""
    ex = Exec(nn, plan)
    return dict(recs=run_ops_on(ex, todo, extra, profile), ex=ex)


def run_ops_on(ex, todo, extra=None, profile=False):
    plan = ex.plan
    recs = []
    for i in todo:
        o = plan["ops"][i]
        if not ex.m.ok(o):
            raise HarnessError(f"op {i} not executable: {o}")
        f = o.get("fault")
        rec = dict(i=i, st="ok", ans=None)
        if profile and f is not None:
            rec.update(_profile(ex, o, f))
        elif f is not None and "at" in f:
            rec.update(_faulty(ex, o, f))
        else:
            try:
                a = extra(ex, o) if extra is not None else ex.do(o)
                if o["op"] in ("q", "peek"):
                    rec["ans"] = world.norm(a)
            except (Violation, HarnessError):
                raise
            except Exception as e:  # noqa
                where = nannos_frame(e)
                if where is None:
                    raise
                rec.update(st="exc", exc=type(e).__name__, msg=str(e)[:200], where=where)
        ex.m.apply(o)
        recs.append(rec)
        if rec["st"] == "exc":
            break  # a violation: what follows would only stumble over it
    return recs


def _profile(ex, o, f):
    """Run the operation once without the fault to see where it can strike."""
    from . import instrument

    if f["kind"] == "kbi":
        with instrument.watching(record=True) as p:
            ex.do(o)
        seq = p.record
        if not seq:
            return dict(at=None)
        occ = {}
        for n, loc in enumerate(seq):
            occ.setdefault(loc, []).append(n + 1)
        keys = list(occ)
        c = occ[keys[int(f["f1"] * len(keys))]]
        return dict(at=c[int(f["f2"] * len(c))], lines=len(seq))
    NUM.install()
    NUM.n, NUM.at, NUM.active = 0, None, True
    try:
        ex.do(o)
    finally:
        NUM.active = False
    return dict(at=1 + int(f["f1"] * NUM.n) if NUM.n else None, lines=NUM.n)


def _faulty(ex, o, f):
    """Run the operation with the fault; the injected exception must come out."""
    from . import instrument

    exc = make_exc(f["exc"])
    fired = None
    out = dict()
    try:
        if f["kind"] == "kbi":
            with instrument.watching(at=f["at"], exc=exc) as p:
                ans = ex.do(o)
        else:
            NUM.install()
            NUM.n, NUM.at, NUM.exc, NUM.fired, NUM.active = 0, f["at"], exc, None, True
            try:
                ans = ex.do(o)
            finally:
                NUM.active = False
        fired = instrument.P.fired if f["kind"] == "kbi" else NUM.fired
        if fired is not None:
            out.update(st="swallowed", fired=str(fired))
        else:
            out.update(st="ok", fired=None)
            if o["op"] == "q":
                out["ans"] = world.norm(ans)
    except BaseException as e:  # noqa
        fired = instrument.P.fired if f["kind"] == "kbi" else NUM.fired
        if e is exc:
            out.update(st="faulted", fired=str(fired))
        elif fired is not None and (e.__cause__ is exc or e.__context__ is exc) and isinstance(e, type(exc)):
            out.update(st="faulted", fired=str(fired))
        else:
            if nannos_frame(e) is None:
                raise
            out.update(st="exc", exc=type(e).__name__, msg=str(e)[:200], where=nannos_frame(e), fired=str(fired))
    return out


def fresh_answers(nn, st, queries, backend=None):
    """Each query on a fresh simulation of its own."""
    out = []
    if backend is not None:
        nn.set_backend(backend)
    for q in queries:
        try:
            sim, _ = world.build_fresh(nn, st)
            out.append(("ok", world.norm(world.do_query(nn, sim, q))))
        except Exception as e:  # noqa
            where = nannos_frame(e)
            if where is None:
                raise
            out.append(("exc", f"{type(e).__name__}: {e} in {where}"))
    return out


class Expect:
    """Expected answers, computed in forked processes and remembered."""

    def __init__(self, nn, backend=None):
        self.nn = nn
        self.memo = {}
        self.forks = 0
        self.backend = backend

    def prepare(self, wants):
        groups = {}
        for st, q in wants:
            st, q = world.canonical(st, q)
            k = json.dumps(st, sort_keys=True)
            kq = json.dumps(q, sort_keys=True)
            if (k, kq) in self.memo:
                continue
            groups.setdefault(k, (st, {}))[1][kq] = q
        for k, (st, qs) in groups.items():
            self.forks += 1
            res = forked(fresh_answers, self.nn, st, list(qs.values()), self.backend)
            for kq, r in zip(qs, res):
                self.memo[(k, kq)] = r

    def get(self, st, q):
        st, q = world.canonical(st, q)
        return self.memo[(json.dumps(st, sort_keys=True), json.dumps(q, sort_keys=True))]


def tol_of(st):
    return 1e-5 if st["form"] == "pol" else 1e-8


def judge(plan, recs, exp, expect, cls="wrong-answer"):
    """Compare all records with the expectations; raises Violation. Returns log lines."""
    log = []
    for rec in recs:
        i = rec["i"]
        o = plan["ops"][i]
        tag = o["op"] + (":" + o["q"]["k"] if o["op"] == "q" else "")
        log.append([i, tag, rec["st"], rec.get("fired")])
        if rec["st"] == "exc":
            raise Violation("raised", f"op {i} {json.dumps(o)} raised {rec['exc']}: {rec['msg']} in {rec['where']}", i)
        if rec["st"] == "swallowed":
            raise Violation("swallowed", f"op {i} {json.dumps(o)}: the injected failure at {rec['fired']} never reached the caller", i)
        if o["op"] == "peek" and rec["st"] == "ok":
            d = world.diff(rec["ans"], peek_value(plan, exp[i]), 1e-9)
            if d:
                raise Violation("layer-changed", f"op {i}: layer {o['lay']} is not what the caller made it (name, thickness, permittivity, permeability, tangent type, uniform): {d}", i)
        if o["op"] == "q" and rec["st"] == "ok":
            st, q = exp[i]
            kind, val = expect.get(st, q)
            if kind == "exc":
                raise Violation("fresh-raises", f"op {i}: a fresh simulation cannot answer {json.dumps(q)}: {val}", i)
            d = world.diff(rec["ans"], val, tol_of(st))
            if d:
                d += f" (lattice {st['lat']['kind']}, {st['form']})"
                raise Violation(cls, f"op {i} query {json.dumps(q)} on simulation {o['sim']}: {d}", i)
    return log


# ================================================================ generation
def gen_world(rng, nsims=1, nlats=1, share=1.0, copies=0.3, max_layers=6, lossless=None, forms=True, two_patterned=False, long_stack=0.08):
    """Lattices, sources, layers and simulations (not yet operations)."""
    lats = [world.gen_lattice(rng) for _ in range(nlats)]
    plan = dict(lats=lats, pws=[], lays=[], sims=[], ops=[])
    pool0 = [[1.0, 0.0], [round(rng.uniform(1.2, 3.0), 3), 0.0]]
    pools = []
    for li, lat in enumerate(lats):
        pool = list(pool0)
        for _ in range(3):
            e = world.gen_eps(rng, lat, uniform=True, lossless=lossless)["v"]
            pool.append(e)
        pools.append(pool)
    for li, lat in enumerate(lats):
        for _ in range(rng.choice([1, 2, 2])):
            for _try in range(50):
                pw = world.gen_pw(rng, lat, pools[li], 1.0)
                if all(world.cutoff_ok(lat, pw, pools[li], e[0]) for e in pool0):
                    break
            else:
                continue
            pw["lat"] = li
            plan["pws"].append(pw)
            if nsims > 1 and rng.random() < 0.15:  # another source, almost the same
                pw = copy.deepcopy(pw)
                if rng.random() < 0.5:
                    pw["wl"] *= 1 + abs(world.small(rng)) / 10
                else:
                    pw["ang"][rng.randrange(2) * 2] += rng.choice([1e-2, 1e-4, 1e-5])
                if world.cutoff_ok(lats[li], pw, pools[li], 1.0, tol=1e-3):
                    plan["pws"].append(pw)
        if not any(p["lat"] == li for p in plan["pws"]):
            return gen_world(rng, nsims, nlats, share, copies, max_layers, lossless, forms, two_patterned, long_stack)
    plan["pool"] = pools
    names = list(world.NAMES)
    rng.shuffle(names)

    def newlay(li, uniform=None, outer=None):
        lat = lats[li]
        if outer is not None:
            eps = dict(k="u", v=rng.choice(pool0 if outer == 0 else (pools[li][:2] + pools[li][:3] if lossless is not True else pools[li][:2])))
        elif uniform or (uniform is None and rng.random() < 0.35):
            eps = dict(k="u", v=rng.choice(pools[li]))
        else:
            eps = world.gen_eps(rng, lat, uniform=False, lossless=lossless)
        spec = dict(lat=li, name=names[len(plan["lays"]) % len(names)] if len(plan["lays"]) < len(names) else f"l{len(plan['lays'])}",
                    th=0 if outer is not None else world.gen_thickness(rng), eps=eps,
                    tft="opt" if rng.random() < 0.25 and world.square(lat) else "fft",
                    tf=world.gen_tf(rng) if eps["k"] != "u" and lat["kind"] != "1d" and rng.random() < 0.12 else None)
        plan["lays"].append(spec)
        return len(plan["lays"]) - 1

    base = {}
    for li in range(nlats):
        n_in = rng.randint(1, max_layers - 2)
        if rng.random() < long_stack:
            n_in = rng.randint(10, 13)
        inner = [newlay(li, uniform=False if t == 0 or (two_patterned and t == 1) else None) for t in range(n_in)]
        rng.shuffle(inner)
        base[li] = dict(sup=[newlay(li, outer=0) for _ in range(1 + (rng.random() < 0.3))],
                        sub=[newlay(li, outer=1) for _ in range(1 + (rng.random() < 0.3))], inner=inner)
        # copies
        if rng.random() < copies:
            for _ in range(rng.randint(1, 3)):
                src = rng.choice(base[li]["inner"])
                nm = None if rng.random() < 0.4 else f"cp{len(plan['lays'])}"
                if nm is None and any("copy" in s and s["copy"] == src and s["name"] is None for s in plan["lays"]):
                    nm = f"cp{len(plan['lays'])}"
                plan["lays"].append(dict(copy=src, lat=li, name=nm))
                j = len(plan["lays"]) - 1
                base[li]["inner"].insert(rng.randrange(len(base[li]["inner"]) + 1), j)
    for k in range(nsims):
        li = rng.randrange(nlats)
        b = base[li]
        inner = list(b["inner"])
        if k > 0 and rng.random() < 0.6:
            inner = rng.sample(inner, rng.randint(1, len(inner)))
        if rng.random() < 0.05:
            inner = []
        pws = [i for i, p in enumerate(plan["pws"]) if p["lat"] == li]
        plan["sims"].append(dict(lays=[rng.choice(b["sup"])] + inner + [rng.choice(b["sub"])], pw=rng.choice(pws),
                                 nh=world.gen_nh(rng, lats[li]), form=world.gen_form(rng, lats[li]) if forms else "original"))
    return plan


def names_ok(plan):
    """Layer names within each simulation must be distinct."""
    nm = {}
    for j, s in enumerate(plan["lays"]):
        nm[j] = (nm[s["copy"]] + " (copy)" if s["name"] is None else s["name"]) if "copy" in s else s["name"]
    return all(len({nm[j] for j in s["lays"]}) == len(s["lays"]) for s in plan["sims"])


def is_u(e):
    return e["k"] == "u"


def gen_edit(rng, plan, m, lay, attrs=("th", "th", "eps", "tft")):
    """One legal edit of a layer, with resets, or None."""
    v = m.lays[lay]
    li = v["lat"]
    lat = plan["lats"][li]
    users = m.users(lay)
    attr = rng.choice(attrs)
    if attr == "tft" and lat["kind"] != "1d" and not is_u(v["eps"]) and rng.random() < 0.35:
        attr = "tf"
    outer = any(m.sims[s]["lays"][0] == lay or m.sims[s]["lays"][-1] == lay for s in users) or \
        any(s["lays"][0] == lay or s["lays"][-1] == lay for s in plan["sims"])
    first = any(s["lays"][0] == lay for s in plan["sims"])
    if attr == "th":
        if outer:
            return None
        val = world.gen_thickness(rng) if rng.random() < 0.8 or not v["th"] else v["th"] * (1 + world.small(rng))
        resets = rng.choice([["S"], ["S"], ["S"], ["all"], ["S", "solve"]])
    elif attr == "tf":
        val = None if v.get("tf") and rng.random() < 0.5 else world.gen_tf(rng)
        resets = rng.choice([["all"], ["all"], ["S", "solve"], ["solve", "S"]])
    elif attr == "tft":
        if not world.square(lat):
            return None
        val = "fft" if v["tft"] == "opt" else "opt"
        resets = rng.choice([["all"], ["all"], ["S", "solve"], ["solve", "S"]])
    else:
        if first:
            return None
        if rng.random() < 0.2:
            val = world.nudge_eps(rng, v["eps"], lat)
        elif is_u(v["eps"]):
            val = dict(k="u", v=rng.choice(plan["pool"][li] if not outer else plan["pool"][li][:3]))
        else:
            val = world.gen_eps(rng, lat, uniform=False)
        resets = rng.choice([["all"], ["all"], ["S", "solve"], ["solve", "S"]])
    return dict(op="edit", lay=lay, attr=attr, val=val, resets=resets)


def add_twins(rng, plan):
    """Neighbouring layers with (almost) the same permittivity that are not copies."""
    for _ in range(rng.randint(1, 2)):
        cand = [j for j, l in enumerate(plan["lays"]) if "copy" not in l and l["eps"]["k"] != "u"]
        src_i = rng.choice(cand)
        src = plan["lays"][src_i]
        new = copy.deepcopy(src)
        new["name"] = f"twin{len(plan['lays'])}"
        new["th"] = rng.choice([new["th"], 0.0, 0.05])
        v = rng.random()
        if v < 0.4 and world.square(plan["lats"][new["lat"]]):
            new["tft"] = "fft" if new["tft"] == "opt" else "opt"
        elif v < 0.6:
            new["eps"] = world.nudge_eps(rng, new["eps"], plan["lats"][new["lat"]])
        elif v < 0.9 and "v" in new["eps"]:
            new["eps"]["v"][0] *= 1 + rng.choice([1e-15, 1e-13, 1e-10, 1e-7, 1e-4])
        plan["lays"].append(new)
        for s in plan["sims"]:
            if src_i in s["lays"][1:-1]:
                s["lays"].insert(s["lays"].index(src_i) + rng.choice([0, 1]), len(plan["lays"]) - 1)


def new_copy(rng, plan, m, src=None):
    """Append a copy of an inner layer to the plan and make it now."""
    outer = {s["lays"][0] for s in plan["sims"]} | {s["lays"][-1] for s in plan["sims"]}
    inner = [j for j in sorted(m.lays) if j not in outer]
    if not inner:
        return None
    src = rng.choice(inner) if src is None else src
    j = len(plan["lays"])
    plan["lays"].append(dict(copy=src, lat=m.lays[src]["lat"], name=None if rng.random() < 0.35 else f"cp{j}"))
    add(plan, m, dict(op="mklay", lay=j))
    return j


def new_sim(rng, plan, m, must=(), form=None):
    """Append a simulation made of existing layers (distinct names) and build it now."""
    bases = [s for s in plan["sims"] if s["lays"][0] in m.lays and s["lays"][-1] in m.lays]
    if not bases:
        return None
    base = rng.choice(bases)
    sup, sub = base["lays"][0], base["lays"][-1]
    li = m.lays[sup]["lat"]
    outer = {s["lays"][0] for s in plan["sims"]} | {s["lays"][-1] for s in plan["sims"]}
    inner = [j for j in sorted(m.lays) if j not in outer and m.lays[j]["lat"] == li]
    want = [j for j in must if j in inner]
    rest = [j for j in inner if j not in want]
    rng.shuffle(rest)
    chosen = want + rest[: rng.randint(0, min(4, len(rest)))]
    rng.shuffle(chosen)
    names = {m.lays[sup]["name"], m.lays[sub]["name"]}
    lays = []
    for j in chosen:
        if m.lays[j]["name"] not in names:
            names.add(m.lays[j]["name"])
            lays.append(j)
    if m.lays[sup]["name"] == m.lays[sub]["name"]:
        return None
    pws = [i for i, p in enumerate(plan["pws"]) if p["lat"] == li]
    k = len(plan["sims"])
    lat = plan["lats"][li]
    plan["sims"].append(dict(lays=[sup] + lays + [sub], pw=rng.choice(pws), nh=world.gen_nh(rng, lat), form=form or world.gen_form(rng, lat)))
    add(plan, m, dict(op="build", sim=k))
    return k


def add(plan, m, o):
    plan["ops"].append(o)
    m.apply(o)


def gen_query_op(rng, m, k, **kw):
    return dict(op="q", sim=k, q=world.gen_query(rng, m.state(k), **kw))


# ================================================================ shrinking
def shrink_candidates(plan):
    """Simpler variants of a plan, other than dropping operations."""
    used_s = {o["sim"] for o in plan["ops"] if "sim" in o}
    # drop inner layers from simulations
    for k in sorted(used_s):
        lays = plan["sims"][k]["lays"]
        for j in range(1, len(lays) - 1):
            p = copy.deepcopy(plan)
            del p["sims"][k]["lays"][j]
            qs = [o["q"] for o in p["ops"] if o["op"] == "q" and o["sim"] == k]
            n = len(p["sims"][k]["lays"])
            if all((q.get("lay") is None or q["lay"]["i"] < n) and (q.get("ind") is None or q["ind"][1] < n) for q in qs):
                yield p
    for k in sorted(used_s):
        s = plan["sims"][k]
        if s["nh"] > 3:
            p = copy.deepcopy(plan)
            p["sims"][k]["nh"] = 5 if s["nh"] > 5 else 3
            yield p
        if s["form"] != "original":
            p = copy.deepcopy(plan)
            p["sims"][k]["form"] = "original"
            yield p
    for i, o in enumerate(plan["ops"]):
        if o["op"] == "edit" and len(o["resets"]) > 1:
            p = copy.deepcopy(plan)
            p["ops"][i]["resets"] = ["all"]
            yield p
        if o["op"] == "q" and o["q"]["k"] not in ("de", "S"):
            p = copy.deepcopy(plan)
            p["ops"][i]["q"] = dict(k="de", orders=False, complex=False, dict=False)
            yield p
        if o["op"] == "q" and o["q"]["k"] in ("ff", "fg", "stress") and isinstance(o["q"]["z"], list):
            p = copy.deepcopy(plan)
            p["ops"][i]["q"]["z"] = o["q"]["z"][0]
            yield p
        if o.get("fault"):
            p = copy.deepcopy(plan)
            del p["ops"][i]["fault"]
            yield p
