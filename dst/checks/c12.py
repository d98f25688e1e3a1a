import json

from .. import backends, world
from ..check import Check
from ..core import Violation, forked

PARTS = ["core", "core", "core", "more", "geometry", "optim", "forms", "aniso"]


def gen_parts(rng, b):
    if b == "jax":
        return [rng.choice(["core", "optim", "geometry"])]
    return rng.sample(sorted(set(PARTS)), rng.randint(1, 4))


def check_probe(refs, rec, backend, bits, hidden=(), i=None):
    """A probe against the process that selected this backend and precision from the start."""
    rep = rec["report"]
    want = dict(backend=backend, BACKEND=backend, device="cpu", types=["float32", "complex64"] if bits else ["float64", "complex128"], bkname=backends.EXPECT_BK[backend])
    for k, x in want.items():
        if rep[k] != x:
            raise Violation("report", f"op {i}: {k} is {rep[k]!r}, should be {x!r}", i)
    for part, got in rec["out"].items():
        vals, ks = refs.get(backend, bits, part)[1][part]
        if got[0] == "exc":
            raise Violation("raised", f"op {i}: '{part}' on {backend}{' in single precision' if bits else ''} raised {got[1]}", i)
        if got[1] != ks:
            d = {n: (got[1].get(n), ks.get(n)) for n in set(got[1]) | set(ks) if got[1].get(n) != ks.get(n)}
            raise Violation("array-type", f"op {i}: '{part}' on {backend} gives other kinds of arrays than a process that selected it from the start: {json.dumps(d)[:300]}", i)
        for n, v in vals.items():
            d = world.diff(got[0][n], v, 1e-4 if bits else 1e-7, floor=0.1 if bits else 1e-6)
            if d:
                raise Violation("wrong-answer", f"op {i}: '{part}.{n}' on {backend}{' in single precision' if bits else ''}: {d}", i)


class C12(Check):
    id = "C12"
    title = "backend, device and precision switches always take effect everywhere"
    block = ()
    scratch = True
    runs = dict(quick=600, thorough=20000)
    rule = "one case is one start-up environment with a sequence of switches and probes; non-trivial if at least two switches changed something and one probe was compared"
    components = dict(real=["nannos (whole package, reloaded in place)", "numpy, scipy, autograd, torch (CPU), jax (CPU)"], stub=["no GPU exists: only the fallback is exercised"])
    assumptions = ["objects made before a switch are not used after it"]

    def init(self, nn):
        self.refs = backends.Refs()

    def gen(self, rng, i, tier):
        jax = rng.random() < (0.12 if tier == "quick" else 0.25)
        pool = backends.BACKENDS if jax else backends.CHEAP
        env = {}
        if rng.random() < 0.4:
            env["NANNOS_BACKEND"] = rng.choice(pool + ["nonsense", ""])
        if rng.random() < 0.25:
            env["NANNOS_GPU"] = rng.choice(["1", "0", ""])
        ops = []
        cur = env.get("NANNOS_BACKEND")
        cur = cur if cur in backends.BACKENDS else "numpy"
        explicit = False
        njax = 0
        for _ in range(rng.randint(2, 7 if tier == "quick" else 14)):
            r = rng.random()
            if r < 0.5:
                cur = rng.choice(pool)
                explicit = True
                ops.append(dict(op="backend", v=cur))
            elif r < 0.68:
                ops.append(dict(op="bits", v=rng.random() < 0.6))
            elif r < 0.82:
                ops.append(dict(op="gpu", v=rng.random() < 0.6))
            elif r < 0.9 and explicit:
                ops.append(dict(op="env", k=rng.choice(["NANNOS_BACKEND", "NANNOS_GPU"]), v=rng.choice(pool + [None])))
            else:
                ops.append(dict(op="keep"))
            if rng.random() < 0.3 and (cur != "jax" or njax < 1):
                njax += cur == "jax"
                ops.append(dict(op="probe", parts=gen_parts(rng, cur)))
        ops.append(dict(op="probe", parts=gen_parts(rng, cur)))
        return dict(env=env, ops=ops)

    def run(self, nn, plan):
        recs = forked(backends.execute, plan)
        e = plan["env"].get("NANNOS_BACKEND")
        cur = e if e in backends.BACKENDS else "numpy"
        bits = False
        changes = probes = 0
        for rec in recs:
            k = rec["op"]
            i = rec.get("i")
            o = plan["ops"][i] if i is not None else None
            if rec.get("st") == "exc":
                raise Violation("raised", f"op {i} {json.dumps(o)} raised {rec['exc']}: {rec['msg']} in {rec['where']}", i)
            if k == "backend":
                changes += cur != o["v"]
                cur = o["v"]
            elif k == "bits":
                changes += bits != o["v"]
                bits = o["v"]
            elif k == "keep":
                if rec["changed"] or not rec["alive"]:
                    raise Violation("noop-changes", f"op {i}: selecting the current backend {cur} again replaced {rec['changed']}", i)
            if k in ("import", "backend", "bits", "gpu"):
                want = dict(backend=cur, BACKEND=cur, device="cpu", types=["float32", "complex64"] if bits else ["float64", "complex128"], bkname=backends.EXPECT_BK[cur],
                            available=backends.BACKENDS)
                for a, x in want.items():
                    if rec["report"][a] != x:
                        raise Violation("report", f"after op {i} {json.dumps(o) if o else 'import'} with environment {plan['env']}: {a} is {rec['report'][a]!r}, should be {x!r}", i)
            if k == "probe":
                probes += len(rec["out"])
                check_probe(self.refs, rec, cur, bits, i=i)
        st = dict(switches=changes, probes=probes, ops=len(recs), nontrivial=int(changes >= 2 and probes >= 1), reached={f"{cur}/{32 if bits else 64}": 1},
                  faults={"no GPU": sum(o["op"] == "gpu" and o["v"] for o in plan["ops"])} if any(o["op"] == "gpu" and o["v"] for o in plan["ops"]) else {})
        log = [[r["op"], r.get("report"), {p: r["out"][p][1] for p in r.get("out", {})}] for r in recs]
        return dict(log=log, stats=st)

    def shrink(self, plan):
        if plan["env"]:
            for k in sorted(plan["env"]):
                yield dict(plan, env={a: b for a, b in plan["env"].items() if a != k})
        for i, o in enumerate(plan["ops"]):
            if o["op"] == "probe" and len(o["parts"]) > 1:
                for x in o["parts"]:
                    p = json.loads(json.dumps(plan))
                    p["ops"][i]["parts"] = [x]
                    yield p


CHECK = C12()
