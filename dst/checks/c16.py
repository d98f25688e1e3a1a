import contextlib
import io
import json
import re
import sys

from .. import clock, opt, sampling, session, world
from ..core import Violation, forked
from .c08 import CHECK as C08
from .c10 import CHECK as C10
from .common import SessionCheck, make_layers, start


class Sink(io.StringIO):
    pass


def optimise(nn, plan, spec):
    """Optimizer runs under one clock -> everything they did."""
    import numpy as np

    np.seterr(all="ignore")
    clock.activate(clock.VirtualClock(clock.script(spec)))
    opt.setup(nn, dict(backend="autograd"))
    nn.set_log_level("CRITICAL")
    out = []
    for sp in plan["specs"]:
        sp = dict(sp, fallback=False)
        r, ev, _, _ = opt.attempt(nn, sp)
        if r[0] == "exc" and r[1] != "RoundoffLimited":
            raise Violation("raised", f"the optimizer raised {r[1]}{r[2]} under the clock {json.dumps(spec)}")
        out.append([r[0], r[2] if r[0] == "ok" else None, [[e[0], e[1].tolist()] + e[2:] for e in ev]])
    clock.activate(None)
    return json.loads(json.dumps(out, default=str))


def execute(nn, plan, spec):
    """All operations under one clock -> (session records, other outputs, counters)."""
    todo, _ = session.expectations(plan)
    c = clock.activate(clock.VirtualClock(clock.script(spec)))
    session.NUM.install()
    held = {}
    other = []
    st = dict(tocs=0)

    def read(f):
        n = len(c.readings)
        out = f()
        return out, c.readings[n:]

    def extra(ex, o):
        k = o["op"]
        if k == "tic":
            held[o["id"]] = read(nn.tic)
            return None
        if k == "toc":
            if o["id"] not in held:
                return None
            t0, r0 = held[o["id"]]
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                t, r1 = read(lambda: nn.toc(t0) if o["v"] is None else nn.toc(t0, verbose=o["v"]))
            txt = buf.getvalue()
            st["tocs"] += 1
            if r0 and r1:
                # the clock may be read more than once: the timer must agree with one pair of readings
                pairs = [(a, b) for s0, a in r0 for s1, b in r1 if s0 == s1]
                if not pairs:
                    raise Violation("timer", f"the timer started on the clock '{r0[-1][0]}' and stopped on the clock '{r1[-1][0]}'")

                def close(a, b, v, rel=0.0):
                    return abs(v - (b - a)) <= 8e-16 * max(abs(a), abs(b)) + 2e-9 + rel * abs(b - a)

                a, b = pairs[-1]
                if not isinstance(t, (int, float)) or not any(close(u, v, t) for u, v in pairs):
                    raise Violation("timer", f"the clock read {a!r} at tic and {b!r} at toc, a difference of {b - a!r}, but toc says {t!r}")
                if o["v"] is False and txt:
                    raise Violation("timer", f"toc(verbose=False) printed {txt!r}")
                if o["v"] is not False:
                    m = re.search(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", txt)
                    if m is None:
                        raise Violation("timer", f"toc printed {txt!r} without the elapsed time")
                    p = float(m.group())
                    if not any(close(u, v, p, 1e-2) for u, v in pairs):
                        raise Violation("timer", f"elapsed time by the clock is {b - a!r} s but toc printed {txt!r}")
            return None
        if k == "level":
            nn.set_log_level(o["val"])
            return None
        if k == "sample":
            sp = o["spec"]
            sampling.STATE.update(calls=[], fail=None, epoch=0, limit=2 * sampling.limit(sp), fired=False)
            x, y = sampling.sample(nn, sp, sampling.make(sp), 1)
            other.append([list(sampling.STATE["calls"]), world.norm(x).tolist(), [repr(complex(v)) for v in sampling.plain(y).ravel()]])
            return None
        session.NUM.n, session.NUM.at, session.NUM.active = 0, None, True
        try:
            return ex.do(o)
        finally:
            session.NUM.active = False
            other.append([k, session.NUM.n])

    old = sys.stderr
    sys.stderr = Sink()
    nn.set_log_level(plan["level"])
    try:
        recs = session.run_ops(nn, plan, todo, extra)
    finally:
        sys.stderr = old
    st.update(readings=len(c.readings), simtime=min(c.elapsed, 1e15))
    clock.activate(None)
    return recs, json.loads(json.dumps(other, default=str)), st


class C16(SessionCheck):
    id = "C16"
    title = "the clock never influences results, and timings are what the clock says"
    runs = dict(quick=1100, thorough=40000)
    lists = ("ops", "threads.0", "threads.1", "threads.2")
    rule = "one case is one generated session executed under a scripted clock and again under an ordinary one; non-trivial if the clock was read and at least two answers were compared"

    def gen(self, rng, i, tier):
        r = rng.random()
        c = clock.gen_script(rng)
        if r < 0.06:
            return dict(kind="opt", clock=c, specs=[opt.gen_spec(rng) for _ in range(rng.choice([1, 2]))], ops=[])
        if r < 0.16:
            inner = C08.gen(rng, i, tier)
            inner["sched"]["clock"] = c
            return dict(inner, kind="par", clock=c)
        if r < 0.22:
            inner = C10.gen(rng, i, tier)
            for o in inner["ops"]:
                if "sched" in o:
                    o["sched"]["clock"] = c
            return dict(inner, kind="samp", clock=c)
        plan, m = start(rng, nsims=rng.choice([1, 1, 2]), copies=0.2, max_layers=rng.choice([3, 4, 5]), long_stack=0.03)
        plan["kind"], plan["clock"] = "session", c
        plan["level"] = rng.choice(["DEBUG", "DEBUG", "INFO", "WARNING"])
        make_layers(plan, m)
        for k in range(len(plan["sims"])):
            session.add(plan, m, dict(op="build", sim=k))
        ids = []
        nid = 0
        for _ in range(rng.randint(4, 10)):
            k = rng.randrange(len(plan["sims"]))
            r = rng.random()
            if r < 0.22:
                ids.append(nid)
                plan["ops"].append(dict(op="tic", id=nid))
                nid += 1
            elif r < 0.44 and ids:
                plan["ops"].append(dict(op="toc", id=rng.choice(ids), v=rng.choice([None, True, False, False])))
            elif r < 0.49:
                plan["ops"].append(dict(op="level", val=rng.choice(["DEBUG", "INFO", "ERROR"])))
            elif r < 0.55:
                session.add(plan, m, dict(op="reset", sim=k, p=rng.choice(["S", "solve", "all"])))
            elif r < 0.61:
                o = session.gen_edit(rng, plan, m, rng.choice(sorted(m.lays)))
                if o is not None:
                    session.add(plan, m, o)
            elif r < 0.64:
                plan["ops"].append(dict(op="sample", spec=dict(sampling.gen_spec(rng, i), omit=True)))
            elif r < 0.7:
                session.add(plan, m, dict(op="solve", sim=k))
            else:
                session.add(plan, m, session.gen_query_op(rng, m, k, extra=1))
        return plan

    def run(self, nn, plan):
        fault = {"clock:" + plan["clock"]["k"]: 1, "kind:" + plan["kind"]: 1}
        if plan["kind"] in ("par", "samp"):
            out = (C08 if plan["kind"] == "par" else C10).run(nn, plan)
            keep = {k: v for k, v in out["stats"].items() if k in ("inter", "simtime", "switches", "steps", "nontrivial")}
            keep["simtime"] = min(keep["simtime"], 1e15)
            return dict(log=out["log"], stats=dict(keep, faults=fault))
        if plan["kind"] == "opt":
            a = forked(optimise, nn, plan, plan["clock"])
            b = forked(optimise, nn, plan, dict(k="tick", a=0))
            if a != b:
                raise Violation("clock-changes-work", f"the optimizer did {str(a)[:300]} under the clock {json.dumps(plan['clock'])} and {str(b)[:300]} under an ordinary one")
            return dict(log=a, stats=dict(faults=fault, nontrivial=0))
        _, exp = session.expectations(plan)
        recs, other, st = forked(execute, nn, plan, plan["clock"])
        base, bother, _ = forked(execute, nn, plan, dict(k="tick", a=0))
        expect = session.Expect(nn)
        expect.prepare(exp[r["i"]] for r in recs if plan["ops"][r["i"]]["op"] == "q" and r["st"] == "ok")
        log = session.judge(plan, recs, exp, expect, cls="clock-changes-answer")
        if other != bother:
            n = next((j for j, (a, b) in enumerate(zip(other, bother)) if a != b), min(len(other), len(bother)))
            raise Violation("clock-changes-work", f"step {n}: under the scripted clock {json.dumps(plan['clock'])} the work done is {str(other[n:n + 1])[:300]}, with an ordinary clock {str(bother[n:n + 1])[:300]}")
        s = self.stats(plan, recs, expect)
        s.update(tocs=st["tocs"], clock_readings=st["readings"], simtime=st["simtime"])
        s["faults"] = fault
        s["nontrivial"] = int(st["readings"] > 1 and s["answers"] >= 2)
        return dict(log=[log, st["readings"]], stats=s)

    def concretise(self, nn, plan):
        if plan["kind"] in ("par", "samp"):
            q = (C08 if plan["kind"] == "par" else C10).concretise(nn, plan)
            for o in [q] + list(q.get("ops") or []):
                if "sched" in o:
                    o["sched"]["clock"] = plan["clock"]
            return q
        return plan

    def prepare(self, nn, plan):
        return plan

    def shrink(self, plan):
        if plan["kind"] != "session":
            if plan["kind"] in ("par", "samp"):
                yield from (C08 if plan["kind"] == "par" else C10).shrink(plan)
            return
        if plan["clock"]["k"] != "frozen":
            yield dict(plan, clock=dict(k="frozen", a=0.0))
        if plan["clock"]["k"] == "wild":
            yield dict(plan, clock=dict(k="speed", a=-1.0))
        if plan["clock"]["k"] == "jumps":
            at = plan["clock"]["at"]
            for n in range(len(at)):
                yield dict(plan, clock=dict(plan["clock"], at=at[:n] + at[n + 1:]))
        yield from session.shrink_candidates(plan)


CHECK = C16()
