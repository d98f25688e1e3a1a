"""Start-up: the library imported in processes where packages, their metadata or devices are
missing or broken and where the environment says anything."""
import email.message
import importlib
import json
import os
import sys

from .. import backends
from ..check import Check
from ..core import Violation, forked
from ..session import nannos_frame
from .c12 import check_probe, gen_parts

ENTRIES = ["nannos"] * 6 + ["nannos.simulation", "nannos.utils", "nannos.utils.helpers", "nannos.optimize", "nannos.formulations.fft", "nannos.formulations",
                            "nannos.layers", "nannos.lattice", "nannos.parallel", "nannos.sample", "nannos.log", "nannos.constants", "nannos.geometry", "nannos.plot", "nannos.__about__", "*"]
HOW = ["missing", "missing", "missing", "ImportError", "OSError", "RuntimeError", "AttributeError"]
PKGS = ["torch", "jax", "nlopt"]
NAMES = ["numpy", "scipy", "autograd", "torch", "jax"]


def break_metadata(plan):
    """Seams: what the system says about installed distributions."""
    from importlib import metadata

    how = plan.get("meta")
    gone = {h["pkg"] for h in plan["hidden"]}
    if how:
        gone.add("nannos")
    real = {k: getattr(metadata, k) for k in ("metadata", "version", "distribution")}

    def fake(k):
        def f(name, *a):
            if name == "nannos" and how:
                if how == "empty":
                    return email.message.Message() if k == "metadata" else "0" if k == "version" else real[k](name)
                raise dict(missing=metadata.PackageNotFoundError("nannos"), OSError=OSError("injected"), ValueError=ValueError("injected"))[how]
            if name in gone:
                raise metadata.PackageNotFoundError(name)
            return real[k](name, *a)
        return f

    for k in real:
        setattr(metadata, k, fake(k))
    import pkg_resources

    get = pkg_resources.get_distribution

    def dist(name, *a):
        if name in gone and how != "empty":
            raise pkg_resources.DistributionNotFound(pkg_resources.Requirement.parse(name), None)
        return get(name, *a)

    pkg_resources.get_distribution = dist


def small_opt(nn):
    """A small design problem with both optimizers; plain results."""
    import numpy as np

    def f(x, level):
        bk = nn.backend
        w = bk.array([1.0, 2.0, 0.5], dtype=nn.get_types()[0])
        t = bk.array([0.2, 0.9, 0.4], dtype=nn.get_types()[0])
        return bk.sum(w * (x - t) ** 2)

    out = {}
    for m in ("nlopt", "scipy"):
        o = nn.optimize.TopologyOptimizer(f, np.array([0.5, 0.1, 0.7]), method=m, threshold=(0, 2), maxiter=6, args=(1,))
        x, v = o.minimize()
        out[m] = [[float(a) for a in x], float(v)]
    return out


def start_up(plan):
    """In a forked process: import with the faults in place, then the operations."""
    sink, out = backends.Sink(), backends.Sink()
    sys.stderr, sys.stdout = sink, out
    broken = backends.Broken()
    for h in plan["hidden"]:
        broken.hide(h["pkg"], h["how"])
    break_metadata(plan)
    backends.purge()
    for k in ("NANNOS_BACKEND", "NANNOS_GPU", "NANNOS_LOG"):
        os.environ.pop(k, None)
    os.environ.update(plan["env"])
    recs = []

    def attempt(i, o, f):
        rec = dict(op=o["op"], i=i, st="ok")
        said = len(sink.text)
        n = len(out.text)
        try:
            f(rec)
        except Exception as e:  # noqa
            w = nannos_frame(e)
            if w is None and o["op"] != "import":
                raise
            rec.update(st="exc", exc=type(e).__name__, msg=str(e)[:200], where=w)
        rec["said"] = "".join(sink.text[said:])[-400:]
        rec["printed"] = "".join(out.text[n:])[-600:]
        recs.append(rec)
        return rec["st"] == "ok"

    def imp(rec):
        if plan["entry"] == "*":
            ns = {}
            exec("from nannos import *", ns)
            rec["names"] = sorted(k for k in ("Simulation", "Lattice", "PlaneWave", "parloop", "adaptive_sampler", "set_backend") if k in ns)
        else:
            importlib.import_module(plan["entry"])
        nn = sys.modules["nannos"]
        rec["report"] = dict(backends.report(nn), types=backends.type_names(nn.get_types()))
        rec["gpu"] = [nn.HAS_TORCH, nn.HAS_JAX, nn.HAS_CUDA]

    if not attempt(None, dict(op="import"), imp):
        return recs
    nn = sys.modules["nannos"]
    for i, o in enumerate(plan["ops"]):
        def do(rec):
            k = o["op"]
            if k == "probe":
                rec["report"], rec["out"] = backends.probe(nn, o["parts"])
            elif k == "backend":
                nn.set_backend(o["v"])
                rec["report"] = dict(backends.report(nn), types=backends.type_names(nn.get_types()))
            elif k == "gpu":
                nn.use_gpu(o["v"])
                rec["report"] = dict(backends.report(nn), types=backends.type_names(nn.get_types()))
            elif k == "info":
                nn.print_info()
                rec["v"] = [str(nn.__version__), str(nn.__author__), str(nn.__description__)]
            elif k == "table":
                nn.utils.VersionTable().nannos_version_table()
            elif k == "opt" and nn.get_backend() in ("autograd", "torch"):
                rec["v"] = small_opt(nn)
        attempt(i, o, do)
    return recs


class C21(Check):
    id = "C21"
    title = "the library imports and works whatever optional parts are missing"
    block = ()
    scratch = True
    runs = dict(quick=700, thorough=20000)
    rule = "one case is one start-up of the library with missing or broken packages, metadata or devices and an environment, followed by switches and probes; non-trivial if something was missing, broken or asked for and a probe was compared"
    components = dict(real=["nannos (whole package)", "numpy, scipy, autograd, torch (CPU), jax (CPU), nlopt"],
                      stub=["the import system and the metadata of distributions, where the plan says so", "no GPU exists: only the fallback is exercised"])
    assumptions = ["required packages are installed"]

    def init(self, nn):
        self.refs = backends.Refs()

    def gen(self, rng, i, tier):
        jax = rng.random() < (0.1 if tier == "quick" else 0.25)
        env = {}
        r = rng.random()
        pool = NAMES if jax else NAMES[:4]
        if r < 0.75:
            env["NANNOS_BACKEND"] = rng.choice(pool + pool + ["nonsense", "", "Torch", " numpy", "numpy,torch", "0", "tensorflow", "é"])
        if rng.random() < 0.35:
            env["NANNOS_GPU"] = rng.choice(["1", "0", "", "true", "cuda:7"])
        hidden = [dict(pkg=p, how=rng.choice(HOW)) for p in PKGS if rng.random() < 0.4]
        if not jax and not any(h["pkg"] == "jax" for h in hidden) and rng.random() < 0.5:
            hidden.append(dict(pkg="jax", how=rng.choice(HOW)))
        gone = {h["pkg"] for h in hidden}
        ops = []
        b = env.get("NANNOS_BACKEND")
        cur = b if b in NAMES and b not in gone else "numpy"
        njax = 0
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < 0.4 and (cur != "jax" or njax < 1):
                njax += cur == "jax"
                ops.append(dict(op="probe", parts=gen_parts(rng, cur)))
            elif r < 0.55:
                hid = sorted(gone & {"torch", "jax"})
                v = rng.choice(hid) if hid and rng.random() < 0.5 else rng.choice(pool)
                ops.append(dict(op="backend", v=v))
                cur = v if v not in gone else "numpy"
            elif r < 0.65:
                ops.append(dict(op="gpu", v=rng.random() < 0.6))
            elif r < 0.75:
                ops.append(dict(op="info"))
            elif r < 0.85:
                ops.append(dict(op="table"))
            elif cur in ("autograd", "torch"):
                ops.append(dict(op="opt"))
        if cur != "jax" or njax < 1:
            ops.append(dict(op="probe", parts=gen_parts(rng, cur)))
        return dict(env=env, hidden=hidden, meta=rng.choice([None] * 4 + ["missing", "OSError", "ValueError", "empty"]), entry=rng.choice(ENTRIES), ops=ops)

    def run(self, nn, plan):
        recs = forked(start_up, plan)
        gone = {h["pkg"] for h in plan["hidden"]}
        b = plan["env"].get("NANNOS_BACKEND")
        avail = [n for n in NAMES if n not in gone]
        cur = b if b in avail else "numpy"
        how = f"(environment {plan['env']}, unavailable {plan['hidden']}, metadata {plan['meta']}, entry {plan['entry']})"
        probes = 0
        for rec in recs:
            k, i = rec["op"], rec.get("i")
            o = plan["ops"][i] if i is not None else dict(op="import")
            if rec["st"] == "exc":
                raise Violation("raised", f"op {i} {json.dumps(o)} {how} raised {rec['exc']}: {rec['msg']} in {rec['where']}", i)
            if k == "backend":
                if o["v"] in gone and not rec["said"]:
                    raise Violation("silent", f"op {i}: selecting {o['v']} {how} fell back without a warning", i)
                cur = o["v"] if o["v"] in avail else "numpy"
            if k == "import" and rec.get("names") not in (None, ["Lattice", "PlaneWave", "Simulation", "adaptive_sampler", "parloop", "set_backend"]):
                raise Violation("names", f"from nannos import * {how} gives only {rec['names']}", i)
            if "report" in rec:
                want = dict(backend=cur, BACKEND=cur, device="cpu", types=["float64", "complex128"], bkname=backends.EXPECT_BK[cur], available=avail)
                for a, x in want.items():
                    if rec["report"][a] != x:
                        raise Violation("report", f"after op {i} {json.dumps(o)} {how}: {a} is {rec['report'][a]!r}, should be {x!r}", i)
            if k == "probe":
                probes += len(rec["out"])
                check_probe(self.refs, rec, cur, False, i=i)
            if k == "info" and not ("nannos v" in rec["printed"] and rec["v"][0] in rec["printed"]):
                raise Violation("info", f"op {i}: print_info {how} printed {rec['printed']!r}", i)
            if k == "opt" and "v" in rec:
                (x, v), (xs, vs) = rec["v"]["nlopt"], rec["v"]["scipy"]
                if "nlopt" in gone and (x, v) != (xs, vs):
                    raise Violation("fallback", f"op {i}: without nlopt {how} the optimizer gives {x}, {v} instead of what scipy gives ({xs}, {vs})", i)
                for m, (y, w) in rec["v"].items():
                    if not all(-1e-9 <= t <= 1 + 1e-9 for t in y) or not w < 1.0:
                        raise Violation("optimizer", f"op {i}: {m} {how} gives {y}, {w}", i)
        fl = {}
        for h in plan["hidden"]:
            fl[f"{h['pkg']} {h['how']}"] = 1
        if plan["meta"]:
            fl[f"metadata {plan['meta']}"] = 1
        if b is not None and b not in avail:
            fl["unavailable backend requested"] = 1
        if "NANNOS_GPU" in plan["env"]:
            fl["GPU requested, none"] = 1
        return dict(log=[[r["op"], r.get("report"), r.get("v") if r["op"] == "info" else None] for r in recs],
                    stats=dict(probes=probes, ops=len(recs), faults=fl, entries={plan["entry"]: 1}, nontrivial=int(bool(probes and (fl or b or plan["entry"] != "nannos")))))

    def shrink(self, plan):
        for k in sorted(plan["env"]):
            yield dict(plan, env={a: v for a, v in plan["env"].items() if a != k})
        for n in range(len(plan["hidden"])):
            yield dict(plan, hidden=plan["hidden"][:n] + plan["hidden"][n + 1:])
        if plan["meta"]:
            yield dict(plan, meta=None)
        if plan["entry"] != "nannos":
            yield dict(plan, entry="nannos")
        for i, o in enumerate(plan["ops"]):
            if o["op"] == "probe" and len(o["parts"]) > 1:
                for x in o["parts"]:
                    p = json.loads(json.dumps(plan))
                    p["ops"][i]["parts"] = [x]
                    yield p


CHECK = C21()
