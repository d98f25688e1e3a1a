import errno
import json
import logging
import sys

from .. import clock, instrument, session
from ..check import Check
from ..core import HarnessError, Violation, forked
from .common import REAL, make_layers, start

LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
NAMES = ["numpy", "scipy", "autograd"]


class Sink:
    """A standard error stream. Everything written while a log record is handled is noted."""

    encoding = "utf-8"

    def __init__(self, spec, notes):
        self.spec = spec
        self.n = 0
        self.notes = notes
        self.closed = False
        self.failed = 0

    def isatty(self):
        return bool(self.spec.get("tty"))

    def writable(self):
        return True

    def fileno(self):
        import io

        raise io.UnsupportedOperation("fileno")

    def write(self, s):
        self.n += 1
        bad = None
        k = self.spec["k"]
        if self.closed:
            bad = ValueError("I/O operation on closed file.")
        elif k == "fail" and self.n >= self.spec["at"] and (self.spec["n"] is None or self.n < self.spec["at"] + self.spec["n"]):
            bad = OSError(self.spec["e"], "injected")
        rec = self.notes["stack"][-1] if self.notes["stack"] else None
        if rec is not None:
            rec["w"].append(None if bad is not None and k != "torn" else s)
        if bad is not None:
            self.failed += 1
            raise bad
        return len(s)

    def flush(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.spec["k"] == "flush":
            self.failed += 1
            raise OSError(errno.EIO, "injected")


def watch(notes):
    """Note the records made by loggers and those given to handlers."""
    real_handle, real_logger = logging.Handler.handle, logging.Logger.handle

    def handle(self, record):
        r = dict(lv=record.levelno, msg=record.getMessage(), w=[])
        notes["stack"].append(r)
        try:
            return real_handle(self, record)
        finally:
            notes["stack"].pop()
            if r["w"]:
                notes["out"].append(r)

    def lhandle(self, record):
        notes["made"].append([record.levelno, record.getMessage()])
        return real_logger(self, record)

    logging.Handler.handle = handle
    logging.Logger.handle = lhandle


def execute(nn, plan, ref):
    """ref: every message made, at the most verbose level, with good streams."""
    notes = dict(stack=[], out=[], made=[])
    watch(notes)
    clock.activate(clock.VirtualClock(clock.script(dict(k="frozen", a=0))))
    sink = Sink(dict(k="good"), notes)
    sys.stderr = sink
    sinks = [sink]
    if plan["root"]:
        logging.basicConfig(stream=Sink(dict(k="good"), notes))
    # bind the handler made at import to a stream of ours
    nn.set_log_level("DEBUG" if ref else "WARNING")
    per = []
    recs = []
    faults = {}

    def bump(k):
        faults[k] = faults.get(k, 0) + 1

    def extra(ex, o):
        k = o["op"]
        if k == "level":
            v = "DEBUG" if ref else o["val"]
            if o.get("at") and not ref:
                instrument.collect()
                exc = KeyboardInterrupt("injected")
                try:
                    with instrument.watching(at=o["at"], exc=exc):
                        nn.set_log_level(v)
                except KeyboardInterrupt as e:
                    if e is not exc:
                        raise
                    bump("interrupted level change")
                nn.set_log_level(v)
            else:
                nn.set_log_level(v)
        elif k == "badlevel":
            try:
                nn.set_log_level(o["val"])
            except Exception:  # noqa
                pass
        elif k == "stderr":
            s = o["s"]
            if ref:
                return None
            if s["k"] == "none":
                sys.stderr = None
                bump("stderr missing")
            elif s["k"] == "close":  # the stream the handler writes to goes away, stderr itself is fine
                old = sys.stderr
                sys.stderr = Sink(dict(k="good"), notes)
                if old is not None:
                    old.closed = True
                    bump("stream closed under the handler")
            else:
                sys.stderr = Sink(s, notes)
            if sys.stderr is not None:
                sinks.append(sys.stderr)
        else:
            return ex.do(o)
        return None

    import os

    for g, seg in enumerate(plan["segs"]):
        notes["out"].clear()
        notes["made"].clear()
        if seg["switch"]:
            try:
                nn.set_backend(seg["switch"])
            except Exception as e:  # noqa
                raise Violation("raised", f"segment {g}: switching to {seg['switch']} raised {type(e).__name__}: {e}")
        per.append([g, "switch", [[r["lv"], r["msg"], len(r["w"]), r["w"]] for r in notes["out"]], list(map(list, notes["made"]))])
        if ref and seg["switch"]:
            nn.set_log_level("DEBUG")
        todo, _ = session.expectations(seg["world"])
        ex = session.Exec(nn, seg["world"])
        for i in todo:
            notes["out"].clear()
            notes["made"].clear()
            r = session.run_ops_on(ex, [i], extra)
            recs.append([g, r[0]])
            if r[0]["st"] == "exc":
                break
            per.append([g, i, [[r["lv"], r["msg"], len(r["w"]), r["w"]] for r in notes["out"]], list(map(list, notes["made"]))])
    n = sum(s.failed for s in sinks)
    if n:
        faults["failed writes"] = n
    sys.stderr = open(os.devnull, "w")
    return dict(per=per, recs=recs, faults=faults)


def judge_messages(plan, got, ref):
    level = logging.WARNING
    void = False  # no stream to write to: nothing can be seen
    bound_void = False
    log = []
    n = dict(messages=0, suppressed=0)
    for (g, i, out, _), (g2, i2, _, made) in zip(got, ref):
        o = plan["segs"][g]["world"]["ops"][i] if i != "switch" else dict(op="switch")
        if o["op"] == "level":
            level = logging._nameToLevel[o["val"]]
            bound_void = void
            continue  # messages made while the level changes are not judged
        if o["op"] == "stderr":
            void = o["s"]["k"] == "none"
            continue
        if o["op"] == "badlevel":
            continue
        if o["op"] == "switch":
            a = bound_void
            bound_void = void
            if a or void:
                continue
        if bound_void:
            continue
        want = [m for m in made if m[0] >= level]
        have = [[lv, msg] for lv, msg, _, _ in out]
        what = f"segment {g} step {i} ({o['op']}) at level {logging.getLevelName(level)}"
        if have != want:
            for m in want:
                c, w = have.count(m), want.count(m)
                if c < w:
                    raise Violation("message-lost", f"{what}: {logging.getLevelName(m[0])} message {m[1][:80]!r} was written {c} times instead of {w}")
                if c > w:
                    raise Violation("message-repeated", f"{what}: {logging.getLevelName(m[0])} message {m[1][:80]!r} was written {c} times instead of {w}")
            for m in have:
                if m not in want:
                    raise Violation("message-below-level", f"{what}: {logging.getLevelName(m[0])} message {m[1][:80]!r} was written")
            raise Violation("message-order", f"{what}: messages written {have[:6]} instead of {want[:6]}")
        for lv, msg, _, w in out:
            txt = "".join(x for x in w if x is not None)
            if None not in w and txt.count(msg) != 1 and "Logging error" not in txt:
                raise Violation("message-text", f"{what}: the message {msg[:80]!r} was written as {txt[:200]!r}")
        n["messages"] += len(want)
        n["suppressed"] += len(made) - len(want)
        log.append([g, i, len(want)])
    return log, n


class C17(Check):
    id = "C17"
    title = "logging changes no result, and the chosen verbosity stays in force"
    runs = dict(quick=900, thorough=40000)
    lists = ("segs", "segs.0.world.ops", "segs.1.world.ops", "segs.2.world.ops")
    rule = "one case is one generated session with level changes, backend switches and failing log streams; non-trivial if messages were written, messages were suppressed and an answer was compared"
    components = dict(real=REAL, stub=["standard error stream (recording, failing)", "clock (virtual)", "optional packages torch and jax (hidden)"])
    assumptions = ["level changes and computations happen in one thread", "write failures are those of operating system calls (OSError) or of a closed stream other than standard error itself"]

    def gen(self, rng, i, tier):
        plan = dict(segs=[], root=rng.random() < 0.3)
        nseg = rng.choice([1, 1, 2, 2, 3])
        for g in range(nseg):
            w, m = start(rng, nsims=1, copies=0.2, max_layers=rng.choice([3, 4]), long_stack=0.02)
            make_layers(w, m)

            def level():
                o = dict(op="level", val=rng.choice(LEVELS + ["DEBUG", "INFO", "INFO"]))
                if rng.random() < 0.2:
                    o["at"] = rng.randint(1, 16)
                w["ops"].append(o)

            def stderr():
                k = rng.choice(["good", "good", "fail", "fail", "fail", "torn", "flush", "close", "none"])
                s = dict(k=k)
                if k == "fail":
                    s.update(at=rng.choice([1, 1, 2, 5]), n=rng.choice([None, None, 1, 3]), e=rng.choice([errno.ENOSPC, errno.EPIPE, errno.EIO, errno.EBADF]))
                if rng.random() < 0.2:
                    s["tty"] = True
                w["ops"].append(dict(op="stderr", s=s))

            w["ops"] = []
            if rng.random() < 0.6:
                if rng.random() < 0.4:
                    stderr()
                level()
            m = session.Model(w)
            for j in range(len(w["lays"])):
                session.add(w, m, dict(op="mklay", lay=j))
            session.add(w, m, dict(op="build", sim=0))
            for _ in range(rng.randint(1, 6)):
                r = rng.random()
                if r < 0.25:
                    level()
                elif r < 0.4:
                    stderr()
                    if rng.random() < 0.7:
                        level()
                elif r < 0.45:
                    w["ops"].append(dict(op="badlevel", val=rng.choice(["", "LOUD", "debug", "NOTSET"])))
                elif r < 0.55:
                    session.add(w, m, dict(op="reset", sim=0, p=rng.choice(["S", "solve", "all"])))
                else:
                    session.add(w, m, session.gen_query_op(rng, m, 0))
            session.add(w, m, session.gen_query_op(rng, m, 0, kinds=["de", "S", "ff"]))
            sw = rng.choice(NAMES + ["torch"]) if (g > 0 or rng.random() < 0.4) else None
            plan["segs"].append(dict(switch=sw, world=w))
        return plan

    def run(self, nn, plan):
        got = forked(execute, nn, plan, False)
        ref = forked(execute, nn, plan, True)
        log = []
        answers = 0
        backend = None
        for g, seg in enumerate(plan["segs"]):
            if seg["switch"]:
                backend = seg["switch"] if seg["switch"] in NAMES else "numpy"
            expect = session.Expect(nn, backend)
            _, exp = session.expectations(seg["world"])
            recs = [r for h, r in got["recs"] if h == g]
            expect.prepare(exp[r["i"]] for r in recs if seg["world"]["ops"][r["i"]]["op"] == "q" and r["st"] == "ok")
            log.append(session.judge(seg["world"], recs, exp, expect, cls="logging-changes-answer"))
            answers += sum(r["ans"] is not None for r in recs)
        mlog, n = judge_messages(plan, got["per"], ref["per"])
        st = dict(n, answers=answers, segments=len(plan["segs"]), faults=got["faults"],
                  nontrivial=int(n["messages"] > 0 and n["suppressed"] > 0 and answers > 0))
        return dict(log=[log, mlog], stats=st)

    def shrink(self, plan):
        for g, seg in enumerate(plan["segs"]):
            def put(**kw):
                p = json.loads(json.dumps(plan))
                p["segs"][g].update(kw)
                return p

            if seg["switch"]:
                yield put(switch=None)
            for w in session.shrink_candidates(seg["world"]):
                yield put(world=w)
        if plan["root"]:
            yield dict(plan, root=False)


CHECK = C17()
