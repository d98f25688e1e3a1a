import json

from .. import backends
from ..check import Check
from ..core import Violation, forked
from .c12 import check_probe, gen_parts

WEIRD = ["nonsense", "Numpy", "", "numpy ", "tensorflow", None, 3, ["numpy"], "cupy"]


class C13(Check):
    id = "C13"
    title = "a failed or interrupted backend switch is recoverable"
    block = ()
    scratch = True
    runs = dict(quick=900, thorough=25000)
    rule = "one case is one session of switches with faults and at least one later clean switch and probe; non-trivial if a fault struck and a later probe was compared"
    components = dict(real=["nannos (whole package, reloaded in place)", "numpy, scipy, autograd, torch (CPU), jax (CPU)"],
                      stub=["the import system reports packages as missing or broken where the plan says so"])
    assumptions = ["the recovering step is a switch to an available backend"]

    def init(self, nn):
        self.refs = backends.Refs()
        self.counts = {}

    def count(self, env):
        k = json.dumps(env, sort_keys=True)
        if k not in self.counts:
            n = forked(backends.count_child, env, [dict(op="bits", v=True), dict(op="backend", v="autograd"), dict(op="gpu", v=True)])
            self.counts[k] = dict(zip(("import", "bits", "backend", "gpu"), n))
        return self.counts[k]

    def gen(self, rng, i, tier):
        jax = rng.random() < 0.08
        pool = backends.BACKENDS if jax else backends.CHEAP
        env = {}
        if rng.random() < 0.25:
            env["NANNOS_BACKEND"] = rng.choice(backends.CHEAP + ["nonsense"])
        if rng.random() < 0.1:
            env["NANNOS_GPU"] = "1"
        plan = dict(env=env, ops=[])

        def fault():
            f = dict(exc=rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]))
            f.update(dict(f0=rng.random()) if jax else dict(f1=rng.random(), f2=rng.random()))
            return f

        if rng.random() < 0.15:
            plan["import_fault"] = dict(exc=rng.choice(["KeyboardInterrupt", "MemoryError"]), f0=rng.random())
        ops = plan["ops"]
        hidden = {}
        cur = "numpy"
        njax = 0

        def available():
            return [b for b in pool if b not in hidden]

        def clean(probe=True):
            nonlocal cur, njax
            cur = rng.choice(available())
            ops.append(dict(op="backend", v=cur))
            if probe and (cur != "jax" or njax < 1):
                njax += cur == "jax"
                ops.append(dict(op="probe", parts=gen_parts(rng, cur)[:2]))

        for _ in range(rng.randint(1, 3 if tier == "quick" else 6)):
            for _ in range(rng.randint(0, 2)):
                r = rng.random()
                if r < 0.5:
                    ops.append(dict(op="backend", v=rng.choice(available())))
                elif r < 0.8:
                    ops.append(dict(op="bits", v=rng.random() < 0.5))
                else:
                    ops.append(dict(op="gpu", v=rng.random() < 0.5))
            for _ in range(rng.randint(1, 2)):
                r = rng.random()
                if r < 0.55:
                    k = rng.choice(["backend", "backend", "backend", "bits", "gpu"])
                    ops.append(dict(op=k, v=rng.choice(pool) if k == "backend" else rng.random() < 0.6, fault=fault()))
                elif r < 0.75:
                    ops.append(dict(op="backend", v=rng.choice(WEIRD), unknown=True))
                else:
                    pkg = rng.choice(["torch", "torch", "jax", "autograd"])
                    if pkg in hidden:
                        del hidden[pkg]
                        ops.append(dict(op="restore", pkg=pkg))
                    else:
                        hidden[pkg] = 1
                        ops.append(dict(op="hide", pkg=pkg, how=rng.choice(["missing", "missing", "OSError", "ImportError", "RuntimeError"])))
                        if rng.random() < 0.8:
                            ops.append(dict(op="backend", v=pkg))
            if hidden and rng.random() < 0.5:
                for pkg in sorted(hidden):
                    ops.append(dict(op="restore", pkg=pkg))
                hidden.clear()
            clean()
        if hidden:
            for pkg in sorted(hidden):
                ops.append(dict(op="restore", pkg=pkg))
            hidden.clear()
            clean()
        return plan

    def run(self, nn, plan):
        jax = any("f0" in (o.get("fault") or {}) for o in plan["ops"])
        counts = dict(self.count({}), **({"import": self.count(plan["env"])["import"]} if plan.get("import_fault") else {})) if jax or plan.get("import_fault") else None
        recs = forked(backends.execute, plan, counts)
        hidden = {h["pkg"]: h["how"] for h in plan.get("hidden", [])}
        e = plan["env"].get("NANNOS_BACKEND")
        cur = e if e in backends.BACKENDS else "numpy"
        bits = False
        dirty = False  # a switch was broken off: what is selected is open until a switch succeeds
        late = nprobe = 0
        moved = False
        faults = {}
        for rec in recs:
            k = rec["op"]
            i = rec.get("i")
            o = plan["ops"][i] if i is not None else None
            what = f"op {i} {json.dumps(o)}"
            if k == "import-fault":
                if rec["fired"]:
                    faults["import " + rec["fired"][1]] = faults[plan["import_fault"]["exc"]] = 1
                    if rec["st"] == "ok" and plan["import_fault"]["exc"] == "KeyboardInterrupt" or rec["st"] != "ok" and rec["exc"] != plan["import_fault"]["exc"]:
                        raise Violation("swallowed", f"{plan['import_fault']['exc']} at {rec['fired']} during the import: {rec}", i)
                continue
            noop = False
            moved = moved or k in ("hide", "restore")
            if k == "hide":
                hidden[o["pkg"]] = o["how"]
            elif k == "restore":
                hidden.pop(o["pkg"], None)
            elif k == "probe":
                if dirty:
                    continue
                if "autograd" in hidden:
                    rec["out"].pop("forms", None)  # uses autograd on every backend
                nprobe += 1
                late += bool(faults)
                check_probe(self.refs, rec, cur, bits, i=i)
            elif k in ("backend", "bits", "gpu") and o.get("unknown"):
                faults["unknown name"] = faults.get("unknown name", 0) + 1
                if rec["st"] == "ok" or rec["exc"] not in ("ValueError", "TypeError") or o["v"] is not None and isinstance(o["v"], str) and rec["exc"] != "ValueError":
                    raise Violation("unknown-accepted", f"{what}: {rec['st']} {rec.get('exc', '')} {rec.get('msg', '')}", i)
                if not dirty and rec["after"] != rec["before"]:
                    raise Violation("unknown-changes", f"{what}: the library reported {rec['before']} before and {rec['after']} after the refusal", i)
            elif k in ("backend", "bits", "gpu"):
                target = o["v"] if k == "backend" else cur
                absorbed = rec.get("fired") and rec["st"] == "ok" and o["fault"]["exc"] != "KeyboardInterrupt"
                if absorbed:  # by a fallback, e.g. for package metadata: the switch must have been made completely
                    faults["absorbed"] = faults.get("absorbed", 0) + 1
                elif rec.get("fired"):
                    exc = o["fault"]["exc"]
                    key = f"{exc} in {rec['fired'][0]}:{rec['fired'][1]}"
                    faults[key] = faults.get(key, 0) + 1
                    if rec["st"] == "ok" or rec["exc"] != exc:
                        raise Violation("swallowed", f"{what}: {exc} at {rec['fired']} did not reach the caller ({rec['st']} {rec.get('exc', '')} {rec.get('msg', '')})", i)
                    dirty = True
                    if k == "bits":
                        bits = None
                    continue
                noop = k == "backend" and target == cur and (not dirty or target in hidden and rec["st"] == "ok" and rec["report"]["backend"] == cur)
                if target == "autograd" and "autograd" in hidden and not noop:
                    # not optional: the error must surface
                    faults["autograd " + hidden["autograd"]] = 1
                    if rec["st"] == "ok":
                        raise Violation("swallowed", f"{what}: no error although autograd cannot be imported", i)
                    dirty = True
                    if k == "bits":
                        bits = None
                    continue
                if dirty and k != "backend":
                    if k == "bits":
                        bits = o["v"] if rec["st"] == "ok" else None
                    continue
                if rec["st"] != "ok" and k != "backend" and cur in hidden:
                    dirty = True  # the package in use vanished
                    if k == "bits":
                        bits = None
                    continue
                if rec["st"] != "ok":
                    raise Violation("not-recovered" if dirty or faults else "raised", f"{what} with {hidden or 'nothing'} broken raised {rec['exc']}: {rec['msg']} in {rec['where']}", i)
                if target in hidden and not noop:
                    key = f"{target} {hidden[target]}"
                    faults[key] = faults.get(key, 0) + 1
                    target = "numpy"
                    if not rec["said"]:
                        raise Violation("silent-fallback", f"{what}: fell back without a warning", i)
                # after a switch that was broken off before it did anything this one may have nothing to do
                noop = noop or k == "backend" and dirty and cur == o["v"] and moved
                dirty = moved = False
                cur = target
                if k == "bits":
                    bits = o["v"]
                if bits is None:
                    bits = rec["report"]["types"][0] == "float32"
            if k == "import" or k in ("backend", "bits", "gpu") and rec["st"] == "ok":
                want = dict(backend=cur, BACKEND=cur, device="cpu", types=["float32", "complex64"] if bits else ["float64", "complex128"], bkname=backends.EXPECT_BK[cur],
                            available=[b for b in backends.BACKENDS if b not in hidden or b == "autograd"])
                if noop:
                    del want["available"]
                for a, x in want.items():
                    if rec["report"][a] != x:
                        raise Violation("report", f"after {what if o else 'import'} with environment {plan['env']}, {hidden or 'nothing'} broken: {a} is {rec['report'][a]!r}, should be {x!r}", i)
        st = dict(probes=nprobe, ops=len(recs), nontrivial=int(late > 0), faults=faults)
        log = [[r["op"], r.get("st"), r.get("exc"), r.get("fired"), r.get("report"), {p: r["out"][p][1] for p in r.get("out", {})}] for r in recs]
        return dict(log=log, stats=st)

    def shrink(self, plan):
        if plan.get("import_fault"):
            yield {a: b for a, b in plan.items() if a != "import_fault"}
        for k in sorted(plan["env"]):
            yield dict(plan, env={a: b for a, b in plan["env"].items() if a != k})
        for i, o in enumerate(plan["ops"]):
            if o["op"] == "probe" and len(o["parts"]) > 1:
                for x in o["parts"]:
                    p = json.loads(json.dumps(plan))
                    p["ops"][i]["parts"] = [x]
                    yield p


CHECK = C13()
