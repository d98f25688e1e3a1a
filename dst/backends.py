"""Backend switches: a fixed battery of small computations through every part of the library,
reported together with the array and number types that come out."""
import os
import sys

BACKENDS = ["numpy", "scipy", "autograd", "torch", "jax"]
CHEAP = ["numpy", "scipy", "autograd", "torch"]


def scratch_env(path):
    return dict(JAX_COMPILATION_CACHE_DIR=path, JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
                JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1",
                XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")


def purge():
    for k in [k for k in sys.modules if k == "nannos" or k.startswith("nannos.")]:
        del sys.modules[k]


def fresh_import(env=None):
    """Import nannos anew, as a new process with this environment would."""
    purge()
    for k in ("NANNOS_BACKEND", "NANNOS_GPU"):
        os.environ.pop(k, None)
    for k, v in (env or {}).items():
        if v is not None:
            os.environ[k] = v
    import nannos

    return nannos


def kind(x):
    """Where an array lives and its number type."""
    m = type(x).__module__.split(".")[0]
    t = "jax" if m in ("jax", "jaxlib") else m
    if t in ("builtins",):
        return type(x).__name__
    if hasattr(x, "dtype"):
        return f"{t}/{str(x.dtype).replace('torch.', '')}"
    return f"{t}/{type(x).__name__}"


def plain(x):
    from . import world

    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return world.norm(x)


def kinds(x):
    if isinstance(x, (list, tuple)):
        return [kinds(v) for v in x]
    if isinstance(x, dict):
        return {str(k): kinds(v) for k, v in x.items()}
    return kind(x)


def arr(nn, a, real=False):
    bk = nn.backend
    return bk.array(a, dtype=nn.get_types()[0 if real else 1])


def part_core(nn):
    """Simulation of a small grating."""
    lat = nn.Lattice(1.1, discretization=16)
    sup = lat.Layer("sup", epsilon=1.0)
    sub = lat.Layer("sub", epsilon=2.25)
    g = lat.Layer("g", thickness=0.31)
    g.epsilon = arr(nn, [[3.0 + 0.1j]] * 6 + [[1.5]] * 10)
    f = lat.Layer("film", thickness=0.11, epsilon=3.1)
    sim = nn.Simulation([sup, f, g, sub], nn.PlaneWave(wavelength=1.37, angles=(12, 0, 40)), nh=3)
    R, T = sim.diffraction_efficiencies(orders=True)
    out = dict(R=R, T=T, tot=sim.diffraction_efficiencies(), S=sim.get_S_matrix(), ff=sim.get_field_fourier("g", z=0.1),
               stress=list(sim.get_z_stress_tensor_integral("sub")), eps=sim.get_epsilon("g"))
    return out


def part_more(nn):
    """Fields in real space, complex amplitudes, the other formulation."""
    lat = nn.Lattice(0.9, discretization=16)
    sup, sub = lat.Layer("sup", epsilon=1.0), lat.Layer("sub", epsilon=1.0)
    g = lat.Layer("g", thickness=0.2)
    g.epsilon = arr(nn, [[4.0]] * 8 + [[1.0]] * 8)
    sim = nn.Simulation([sup, g, sub], nn.PlaneWave(wavelength=1.21, angles=(5, 0, 90)), nh=3, formulation="tangent")
    E, H = sim.get_field_grid("g", z=0.05, shape=(16, 1))
    return dict(E=E, H=H, cplx=list(sim.diffraction_efficiencies(orders=True, complex=True)))


def part_geometry(nn):
    """Lattices, masks, sources."""
    lat = nn.Lattice(((1.0, 0.0), (0.25, 0.9)), discretization=(8, 8))
    e = lat.ones() * 2
    pw = nn.PlaneWave(wavelength=0.83, angles=(20, 30, 10))
    lay = lat.Layer("l", thickness=0.2, epsilon=2 + 0.1j)
    return dict(grid=lat.grid, rec=lat.reciprocal, ones=e, circ=lat.circle((0.5, 0.4), 0.2), rect=lat.rectangle((0.5, 0.4), (0.3, 0.5)),
                zeros=lat.zeros(), const=lat.constant(1.5), harm=lat.get_harmonics(5)[0], wavevector=pw.wavevector, a0=pw.a0, leps=lay.epsilon,
                stripe=nn.Lattice(1.0, discretization=16).stripe(0.5, 0.3))


def part_forms(nn):
    """The formulations for two-dimensional gratings, a copied layer and an anisotropic one."""
    lat = nn.Lattice(((1.0, 0.0), (0.0, 1.0)), discretization=(16, 16))
    out = {}
    m = [[4.0 if 3 <= i < 11 and 5 <= j < 12 else 2.0 for j in range(16)] for i in range(16)]
    for form, tft in (("tangent", "fft"), ("jones", "fft"), ("pol", "fft"), ("tangent", "opt")):
        sup, sub = lat.Layer("sup", epsilon=1.0), lat.Layer("sub", epsilon=2.0)
        g = lat.Layer("g", thickness=0.2, tangent_field_type=tft)
        g.epsilon = arr(nn, m)
        c = g.copy("c")
        sim = nn.Simulation([sup, g, lat.Layer("f", thickness=0.1, epsilon=1.5), c, sub], nn.PlaneWave(wavelength=1.43, angles=(5, 10, 30)), nh=5, formulation=form)
        out[form + tft] = list(sim.diffraction_efficiencies())
    return out


def part_aniso(nn):
    lat = nn.Lattice(((1.0, 0.0), (0.0, 1.0)), discretization=(16, 16))
    z = [[0.0] * 16 for _ in range(16)]
    m = [[4.0 if 3 <= i < 11 and 5 <= j < 12 else 2.0 for j in range(16)] for i in range(16)]
    p = [[v + 1 for v in r] for r in m]
    q = [[0.1 * v for v in r] for r in m]
    out = {}
    for form in ("original", "tangent"):
        sup, sub = lat.Layer("sup", epsilon=1.0), lat.Layer("sub", epsilon=2.0)
        g = lat.Layer("g", thickness=0.2, tangent_field_type="fft")
        g.epsilon = arr(nn, [[m, q, z], [q, p, z], [z, z, m]])
        sim = nn.Simulation([sup, g, sub], nn.PlaneWave(wavelength=1.43, angles=(5, 10, 30)), nh=5, formulation=form)
        out[form] = list(sim.diffraction_efficiencies())
    return out


def part_optim(nn):
    """Projections, interpolation, filter and gradients."""
    from nannos import optimize

    x = arr(nn, [[0.1, 0.5, 0.9], [0.3, 0.2, 0.7], [0.6, 0.5, 0.4], [0.25, 0.75, 0.5]], real=True)
    out = dict(proj=optimize.project(x, 4.0), simp=optimize.simp(x, 1.0, 4.0, 3),
               filt=optimize.apply_filter(x, 1.5))
    if nn.get_backend() in ("autograd", "torch"):
        g = nn.grad(lambda y: nn.backend.sum(nn.backend.real(optimize.simp(y, 1.0, 4.0, 3)) * arr(nn, [1.0, 2.0, 3.0], real=True)))
        v = arr(nn, [0.2, 0.4, 0.8], real=True)
        out["grad"] = g(v)
    else:
        try:
            nn.grad(lambda y: y)
            out["grad"] = "no error"
        except NotImplementedError as e:
            out["grad"] = "NotImplementedError"
            out["gradmsg"] = nn.get_backend() in str(e)
    return out


PARTS = dict(core=part_core, more=part_more, geometry=part_geometry, optim=part_optim, forms=part_forms, aniso=part_aniso)


def report(nn):
    return dict(backend=nn.get_backend(), BACKEND=nn.BACKEND, device=nn.get_device(), types=[str(t).replace("torch.", "") for t in nn.get_types()],
                available=list(nn.available_backends), bkname=nn.backend.__name__)


def type_names(t):
    out = []
    for x in t:
        s = getattr(x, "__name__", None) or str(x).replace("torch.", "")
        out.append(s)
    return out


def probe(nn, parts):
    """-> (report, {part: (values, kinds)}), exceptions inside nannos included as values."""
    from .session import nannos_frame

    rep = report(nn)
    rep["types"] = type_names(nn.get_types())
    out = {}
    for p in parts:
        try:
            v = PARTS[p](nn)
            out[p] = ({k: plain(x) for k, x in v.items()}, {k: kinds(x) for k, x in v.items()})
        except Exception as e:  # noqa
            out[p] = ("exc", f"{type(e).__name__}: {str(e)[:150]} in {nannos_frame(e)}")
    return rep, out


EXPECT_BK = dict(numpy="numpy", scipy="numpy", autograd="autograd.numpy", torch="torch", jax="jax.numpy")


def array_lib(backend):
    return {"numpy": "numpy", "scipy": "numpy", "autograd": "numpy"}.get(backend, backend)


# ------------------------------------------------------------------ references
def ref_child(backend, bits, part):
    nn = fresh_import()
    nn.set_backend(backend)
    if bits:
        nn.use_32_bit(True)
    return probe(nn, [part])


class Refs:
    """What a process that selected this backend and precision from the start reports;
    computed in forked processes, shared between workers through the scratch directory."""

    def __init__(self):
        self.memo = {}
        self.forks = 0

    def get(self, backend, bits, part):
        import pickle

        from .core import Violation, forked

        k = (backend, bool(bits), part)
        if k in self.memo:
            return self.memo[k]
        d = os.environ.get("DST_SCRATCH")
        path = d and os.path.join(d, "ref-%s-%d-%s" % k)
        v = None
        if path and os.path.exists(path):
            with open(path, "rb") as f:
                v = pickle.load(f)
        if v is None:
            self.forks += 1
            v = forked(ref_child, *k)
            if path:
                with open(f"{path}.{os.getpid()}", "wb") as f:
                    pickle.dump(v, f)
                os.replace(f"{path}.{os.getpid()}", path)
        self.memo[k] = v
        rep, out = v
        if out[part][0] == "exc":
            raise Violation("fresh-raises", f"a process that selects {backend}{' in single precision' if bits else ''} from the start cannot compute '{part}': {out[part][1]}")
        self.sane(backend, bits, part, rep, out)
        return v

    def sane(self, backend, bits, part, rep, out):
        """The reference itself: right library, right precision, right numbers."""
        from . import world
        from .core import Violation

        what = f"a process that selects {backend}{' in single precision' if bits else ''} from the start"
        want = dict(backend=backend, BACKEND=backend, device="cpu", types=["float32", "complex64"] if bits else ["float64", "complex128"], bkname=EXPECT_BK[backend])
        for k, x in want.items():
            if rep[k] != x:
                raise Violation("report", f"{what} reports {k}={rep[k]!r} instead of {x!r}")
        vals, ks = out[part]

        def walk(k, path):
            if isinstance(k, list):
                for x in k:
                    yield from walk(x, path)
            elif isinstance(k, dict):
                for n, x in k.items():
                    yield from walk(x, f"{path}.{n}")
            else:
                yield path, k

        for path, k in walk(ks, part):
            if "/" not in k:
                continue
            lib, dt = k.split("/")
            if lib != array_lib(backend):
                raise Violation("array-type", f"{what} gives {k} for {path}")
            if not bits and dt in ("float32", "complex64", "float16"):
                raise Violation("precision", f"{what} gives {k} for {path}")
            if bits and part == "geometry" and dt in ("float64", "complex128"):
                raise Violation("precision", f"{what} gives {k} for {path}")
        if (backend, bool(bits)) != ("numpy", False):
            base = self.get("numpy", False, part)[1][part][0]
            for n, v in vals.items():
                if n.startswith("grad") and n not in ks or n == "gradmsg":
                    continue
                if n == "grad":
                    continue
                tol = 3e-3 if bits else 1e-6
                if n.startswith("pol"):
                    tol = 3e-2 if bits else 1e-4
                d = world.diff(v, base[n], tol, floor=0.1 if bits else 1e-4)
                if d:
                    raise Violation("backend-differs", f"{what} gives for {part}.{n} something else than numpy: {d}")
        if part == "optim":
            if backend in ("autograd", "torch"):
                x = [0.2, 0.4, 0.8]
                import numpy as np

                g = [3 * 3 * t**2 * w for t, w in zip(x, (1, 2, 3))]  # d/dx [1 + 3 x^3] w
                d = world.diff(vals["grad"], np.array(g), 1e-4 if bits else 1e-9)
                if d:
                    raise Violation("gradient", f"{what}: gradient {d}")
            elif vals["grad"] != "NotImplementedError" or vals["gradmsg"] is not True:
                raise Violation("gradient", f"{what}: grad() gives {vals['grad']}, names backend: {vals.get('gradmsg')}")


# ------------------------------------------------------------------ execution of plans
class Broken:
    """Finder that makes importing a package fail in a given way."""

    def __init__(self):
        self.what = {}
        self.saved = {}

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top in self.what:
            e = self.what[top]
            if e == "missing":
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)
            raise {"OSError": OSError, "ImportError": ImportError, "RuntimeError": RuntimeError, "AttributeError": AttributeError}[e](f"{name} is broken (injected)")
        return None

    def hide(self, top, how):
        if not self.saved.get(top):
            self.saved[top] = {k: v for k, v in sys.modules.items() if k == top or k.startswith(top + ".")}
            for k in self.saved[top]:
                del sys.modules[k]
        self.what[top] = how
        if self not in sys.meta_path:
            sys.meta_path.insert(0, self)

    def restore(self, top):
        self.what.pop(top, None)
        sys.modules.update(self.saved.pop(top, {}))
        if not self.what and self in sys.meta_path:
            sys.meta_path.remove(self)


class Sink:
    """Collects log lines (in place of stderr)."""

    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        pass


def _apply(nn, o):
    k = o["op"]
    if k == "backend":
        return nn.set_backend(o["v"])
    if k == "gpu":
        return nn.use_gpu(o["v"])
    if k == "bits":
        return nn.use_32_bit(o["v"])


def _count(nn, o):
    from . import instrument

    with instrument.watching(record=True) as p:
        try:
            _apply(nn, o)
        except Exception:  # noqa
            pass
    return p.record, {v: k for k, v in p.locs.items()}


EXC = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, OSError=OSError)


def count_child(env, ops):
    """Number of nannos lines of the import and of each of these operations on top of it."""
    from . import instrument

    instrument.GLOBAL = True
    instrument.collect_all()
    with instrument.watching(record=True) as p:
        nn = fresh_import(env)
    out = [len(p.record)]
    for o in ops:
        out.append(len(_count(nn, o)[0]))
    return out


def execute(plan, counts=None):
    """Carry out a plan in this (forked) process; -> records. counts: numbers of lines to aim
    faults at where profiling in a fork is impossible (jax cannot be forked once started)."""
    from . import instrument
    from .core import forked
    from .session import nannos_frame

    instrument.GLOBAL = True
    instrument.collect_all()
    broken = Broken()
    sink = sys.stderr = Sink()
    for h in plan.get("hidden", []):
        broken.hide(h["pkg"], h["how"])
    recs = []
    f = plan.get("import_fault")
    if f:
        rec = dict(op="import-fault", st="ok")
        with instrument.watching(at=1 + int(f["f0"] * counts["import"]), exc=EXC[f["exc"]]("injected")) as p:
            try:
                fresh_import(plan.get("env"))
            except BaseException as e:  # noqa
                rec.update(st="exc", exc=type(e).__name__, msg=str(e)[:200], where=nannos_frame(e))
            finally:
                rec["fired"] = p.fired and list(p.fired)
        recs.append(rec)
        import nannos as nn
    else:
        nn = fresh_import(plan.get("env"))
    recs.append(dict(op="import", report=dict(report(nn), types=type_names(nn.get_types())), said=len(sink.text)))
    for i, o in enumerate(plan["ops"]):
        k = o["op"]
        rec = dict(op=k, i=i, st="ok")
        said = len(sink.text)
        if k == "env":
            if o["v"] is None:
                os.environ.pop(o["k"], None)
            else:
                os.environ[o["k"]] = o["v"]
        elif k == "hide":
            broken.hide(o["pkg"], o["how"])
        elif k == "restore":
            broken.restore(o["pkg"])
        elif k == "probe":
            rep, out = probe(nn, o["parts"])
            rec.update(report=rep, out=out)
        elif k == "keep":
            # a switch to what is already selected must leave everything as it is
            lat = nn.Lattice(1.0, discretization=16)
            pw = nn.PlaneWave(wavelength=1.3)
            before = {a: getattr(nn, a) for a in ("Simulation", "Layer", "Lattice", "PlaneWave", "backend", "parloop") if hasattr(nn, a)}
            nn.set_backend(nn.get_backend())
            rec["changed"] = sorted(a for a, v in before.items() if getattr(nn, a) is not v)
            rec["alive"] = isinstance(lat, nn.Lattice) and isinstance(pw, nn.PlaneWave)
        else:
            f = o.get("fault")
            before = dict(report(nn), types=type_names(nn.get_types())) if o.get("unknown") else None
            rec["before"] = before
            try:
                if f is not None:
                    if "f0" in f:
                        f = dict(f, at=1 + int(f["f0"] * counts[k]))
                    elif "at" not in f:
                        seq, _ = forked(_count, nn, o)
                        occ = {}
                        for n, loc in enumerate(seq):
                            occ.setdefault(loc, []).append(n + 1)
                        keys = list(occ)
                        if keys:
                            c = occ[keys[int(f["f1"] * len(keys))]]
                            f = dict(f, at=c[int(f["f2"] * len(c))])
                        else:
                            f = dict(f, at=1)
                    rec["at"] = f["at"]
                    exc = EXC[f["exc"]]("injected")
                    with instrument.watching(at=f["at"], exc=exc) as p:
                        try:
                            _apply(nn, o)
                        finally:
                            rec["fired"] = p.fired and list(p.fired)
                else:
                    _apply(nn, o)
            except BaseException as e:  # noqa
                if not isinstance(e, KeyboardInterrupt) and nannos_frame(e) is None and not rec.get("fired"):
                    raise
                rec.update(st="exc", exc=type(e).__name__, msg=str(e)[:200], where=nannos_frame(e))
            if rec["st"] == "ok":
                rec["report"] = dict(report(nn), types=type_names(nn.get_types()))
            if before:
                rec["after"] = dict(report(nn), types=type_names(nn.get_types()))
            if nn is not sys.modules["nannos"]:
                nn = sys.modules["nannos"]
        rec["said"] = len(sink.text) - said
        recs.append(rec)
    return recs
