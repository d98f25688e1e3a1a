"""Differentiated answers: the objective, its gradient by the library and by differences."""
import numpy as np

from . import world
from .core import HarnessError, Violation


def tensor(nn, a):
    return world.to_backend(nn, np.asarray(a, dtype=float), cplx=False)


def masks(q, shape):
    """Which pixels each parameter of a pattern moves, and by how much."""
    r = np.random.RandomState(q["s"])
    nx, ny = shape
    u, v = np.meshgrid(np.arange(nx) / nx, np.arange(ny) / ny, indexing="ij")
    out = []
    for k in range(q["m"]):
        if k == 0:
            m = np.zeros(shape)
            m[r.randint(nx), r.randint(ny)] = 1.0  # one pixel
        else:
            m = 0.5 + 0.5 * np.cos(2 * np.pi * (k * u + r.randint(0, 2) * v) + r.rand())
        out.append(m)
    return out


def scalar(nn, sim, q):
    """The answer that is differentiated."""
    bk = nn.backend
    k = q["obj"]
    if k == "R":
        return bk.real(sim.diffraction_efficiencies()[0])
    if k == "T":
        return bk.real(sim.diffraction_efficiencies()[1])
    if k in ("oR", "oT"):
        A = sim.diffraction_efficiencies(orders=True)[k == "oT"]
        return bk.real(sim.get_order(A, (0, 0)))
    if k == "cR":
        r = sim.diffraction_efficiencies(orders=True, complex=True)[0]
        return bk.sum(bk.abs(r[:, sim.get_order_index((0, 0))]) ** 2)
    if k == "ff":
        F = sim.get_field_fourier(q["li"], z=q["z"])
        return bk.sum(bk.abs(F[:, 0]) ** 2)
    if k == "fg":
        E = sim.get_Efield_grid(q["li"], z=q["z"], shape=tuple(q["shape"]))
        return bk.sum(bk.abs(E) ** 2) / (q["shape"][0] * q["shape"][1])
    if k == "stress":
        return sim.get_z_stress_tensor_integral(q["li"], q["z"])[2]
    if k == "S":
        S = sim.get_S_matrix()
        return bk.sum(bk.abs(S[0][0]) ** 2)
    raise HarnessError(k)


def function(nn, sim, q):
    """The answer as function of the parameters x; x = 0 is the current structure."""
    lay = sim.layers[q["i"]]
    par = q["par"]
    held = dict(th=lay.thickness, eps=lay.epsilon)

    def put(layer, x):
        if par == "th":
            layer.thickness = held["th"] + x[0]
        elif par == "epsu":
            layer.epsilon = held["eps"] + x[0] + 0j * x[0]
        elif par == "epsp":
            e = held["eps"]
            for xi, m in zip(x, [tensor(nn, m) for m in masks(q, q["disc"])]):
                e = e + xi * m
            layer.epsilon = e

    def source(x):
        wl, ang = q["pw"]["wl"], list(q["pw"]["ang"])
        if par == "wl":
            wl = wl + x[0]
        elif par == "ang":
            ang[q["a"]] = ang[q["a"]] + 10 * x[0]
        return nn.PlaneWave(wavelength=wl, angles=tuple(ang))

    def rebuilt(l, lat, **kw):
        kw = dict(dict(thickness=l.thickness, tangent_field=l.tangent_field, tangent_field_type=l.tangent_field_type), **kw)
        new = lat.Layer(l.name, **kw)
        if "epsilon" not in kw:
            new.epsilon = l.epsilon
        return new

    def scaled(x):
        lat = lay.lattice
        har = np.array(sim.harmonics)
        b = lat.basis_vectors
        if lat.is_1D:
            basis = (b[0][0] * (1 + x))[0]
        else:
            s = [1 + x[0] if q["a"] in (k, 2) else 1.0 for k in (0, 1)]
            basis = tuple(tuple(float(c) * s[k] for c in b[k]) for k in (0, 1))
        if lat.is_1D:
            return nn.Lattice(basis, discretization=lat.discretization[0], harmonics_array=har)
        return nn.Lattice(basis, discretization=tuple(lat.discretization), truncation=lat.truncation, harmonics_array=har)

    def f(x):
        if q["mode"] == "edit":
            put(lay, x)
            sim.reset("S" if par == "th" else "all")
            return scalar(nn, sim, q)
        lays = list(sim.layers)
        pw = sim.excitation
        nh = q["nh"]
        if par in ("wl", "ang"):
            pw = source(x)
        elif par == "bas":
            lat, nh = scaled(x), sim.nh
            lays = [rebuilt(l, lat) for l in lays]
        else:
            if q["mode"] == "copy":
                new = lay.copy(lay.name)
            elif q["mode"] == "ctor":
                new = rebuilt(lay, lay.lattice, **(dict(thickness=held["th"] + x[0]) if par == "th" else dict(epsilon=held["eps"] + x[0])))
            else:
                new = rebuilt(lay, lay.lattice)
            if q["mode"] != "ctor":
                put(new, x)
            lays[q["i"]] = new
        return scalar(nn, nn.Simulation(lays, pw, nh=nh, formulation=sim.formulation), q)

    def restore():
        if q["mode"] == "edit":
            lay.thickness, lay.epsilon = held["th"], held["eps"]
            sim.reset("S" if par == "th" else "all")

    return f, restore


def answer(nn, sim, q):
    """Value and gradient at x = 0."""
    f, restore = function(nn, sim, q)
    x = np.zeros(q["m"])
    x0 = tensor(nn, x)
    try:
        if q.get("extra"):
            g = nn.grad(lambda y, a, b=0.0: a * f(y) + b * y[0])(x0, 2.0, b=0.5)
            g = 0.5 * (g - tensor(nn, 0.5 * (np.arange(len(x)) == 0)))
        else:
            g = nn.grad(f)(x0)
        v = f(tensor(nn, x)) if q["value"] else None
    finally:
        try:
            restore()
        except BaseException:  # the injected fault: the user does it again
            restore()
            raise
    # the point given stays what it was
    if getattr(x0, "requires_grad", False) or (np.array(x0) != x).any():
        raise Violation("input-changed", f"the point given to grad is now {x0!r}")
    return [v, g]


def differences(nn, st, q):
    """Value, gradient by central differences (None where they are not reliable) and the smallest
    distance between eigenvalues of the patterned layers (numpy, fresh objects)."""
    def at(x):
        sim, _ = world.build_fresh(nn, st)
        f, _ = function(nn, sim, q)
        return float(np.real(f(x)))

    v = at(np.zeros(q["m"]))
    g = []
    for k in range(q["m"]):
        d = []
        for h in (2e-4, 1e-4):
            e = np.zeros(q["m"])
            e[k] = h
            d.append((at(e) - at(-e)) / (2 * h))
        g.append((4 * d[1] - d[0]) / 3 if abs(d[0] - d[1]) < 1e-3 * max(abs(d[1]), 1e-3) else None)
    gap = None
    if q["par"] in ("wl", "ang", "epsp", "bas"):
        sim, lays = world.build_fresh(nn, st)
        sim.solve()
        gap = 1.0
        for l in lays:
            if not l.is_uniform:
                w = np.asarray(l.eigenvalues) ** 2
                D = np.abs(w[:, None] - w[None, :]) + np.eye(len(w)) * 1e9
                gap = min(gap, float(D.min() / np.abs(w).max()))
    return v, g, gap


def gen(rng, st, pw):
    """One differentiated query on a simulation of state st."""
    lays = st["layers"]
    n = len(lays)
    uni = [l["eps"]["k"] == "u" for l in lays]
    par = rng.choice(["th", "th", "epsu", "epsp", "epsp", "wl", "ang", "bas"])
    i = 0
    inner = list(range(1, n - 1))
    if par == "th":
        c = inner
    elif par == "epsu":
        c = [j for j in range(1, n) if uni[j]]
    elif par == "epsp":
        c = [j for j in inner if not uni[j] and lays[j]["eps"]["k"] != "aniso" and (st["form"] == "original" or lays[j].get("tf"))]
    else:
        c = [0]
    if not c:
        par, c = "wl", [0]
    i = rng.choice(c)
    obj = rng.choice(["R", "T", "oR", "oT", "cR", "ff", "fg", "stress", "S"])
    li = rng.randrange(n)
    d = st["lat"]["disc"]
    q = dict(k="grad", par=par, i=i, obj=obj, li=li, s=rng.randrange(10**6), m=rng.choice([1, 2, 3]) if par == "epsp" else 1, value=rng.random() < 0.3,
             mode=rng.choice(["edit", "edit", "build", "copy"] + ["ctor"] * (par == "epsu" or par == "th" and lays[i]["th"] > 0.01)) if par not in ("wl", "ang", "bas") else "build", nh=st["nh"], pw=pw, disc=list(d))
    th = lays[li]["th"]
    q["z"] = rng.choice([0.05, 0]) * (-1 if li == 0 else 1) if li in (0, n - 1) else rng.choice([0, th, round(th * rng.uniform(0.1, 0.9), 4)])
    if rng.random() < 0.2:
        q["extra"] = True
    if obj == "ff" and rng.random() < 0.3:
        q["z"] = [q["z"], 0]
    if obj == "fg":
        q["shape"] = list(d)
    if par in ("ang", "bas"):
        q["a"] = rng.choice([0, 1, 2])
    return q
