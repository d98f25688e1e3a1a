"""Worlds (lattices, sources, layers, stacks) as plain JSON, their generation, and queries."""
import cmath
import math

NAMES = ["Superstrate", "Substrate", "sup", "sub", "grating", "layer", "film", "0", "1", "-1",
         "slab", "air", "a b", "layer (copy)", "couche é", "grating (copy)", "10", "pattern", "top", "S"]


# ------------------------------------------------------------------ generation (no numpy)
def square(lat):
    """The optimised tangent field needs as many pixels in both directions."""
    return lat["kind"] == "1d" or lat["disc"][0] == lat["disc"][1]


def gen_lattice(rng, kind=None, big=False):
    kind = kind or rng.choice(["1d", "1d", "2d", "2d", "oblique"])
    trunc = "circular"
    if kind == "1d":
        disc = [rng.choice([32, 48, 64]), 1]
        basis = round(rng.uniform(0.7, 1.4), 3)
    else:
        n = rng.choice([16, 20, 24])
        disc = [n, n] if rng.random() < 0.75 else rng.choice([[n, n + 4], [n + 8, n], [n + 2, n - 1]])
        a = round(rng.uniform(0.8, 1.3), 3)
        if kind == "oblique":
            ang = math.radians(rng.uniform(50, 85))
            b = round(rng.uniform(0.8, 1.3), 3)
            basis = [[a, 0.0], [round(b * math.cos(ang), 4), round(b * math.sin(ang), 4)]]
        else:
            b = a if rng.random() < 0.5 else round(rng.uniform(0.8, 1.3), 3)
            basis = [[a, 0.0], [0.0, b]]
        if rng.random() < 0.2:  # turned, or named the other way round
            t = math.radians(rng.choice([90, 180, -37, rng.uniform(-180, 180)]))
            c, s = math.cos(t), math.sin(t)
            basis = [[round(c * x - s * y, 4), round(s * x + c * y, 4)] for x, y in basis]
            if rng.random() < 0.4:
                basis = basis[::-1]
        trunc = rng.choice(["circular", "circular", "parallelogrammic"])
    lat = dict(kind=kind, basis=basis, disc=disc, trunc=trunc, harm=None)
    if rng.random() < 0.1:
        m = rng.choice([1, 2])
        if kind == "1d":
            h = [[i, 0] for i in range(-m, m + 1)]
        else:
            h = [[i, j] for i in range(-1, 2) for j in range(-1, 2)]
        if rng.random() < 0.5:
            rng.shuffle(h)
        lat["harm"] = [[x[0] for x in h], [x[1] for x in h]]
    return lat


def gen_eps(rng, lat, uniform=None, lossless=None, aniso=0.08):
    """Permittivity spec."""
    def val(lo=1.0, hi=9.0):
        re = round(rng.uniform(lo, hi), 3)
        im = 0.0
        if lossless is False or (lossless is None and rng.random() < 0.3):
            im = round(rng.uniform(0.05, 1.5), 3)
        return [re, im]

    if uniform is None:
        uniform = rng.random() < 0.4
    if uniform:
        if lossless is not True and rng.random() < 0.1:
            return dict(k="u", v=[round(rng.uniform(-12, -3), 2), round(rng.uniform(0.2, 1.2), 2)])
        return dict(k="u", v=val())
    k = rng.random()
    if k < aniso and lat["kind"] != "1d":
        return dict(k="aniso", bg=val(), v=val(), c=[round(rng.uniform(0.3, 0.7), 3)] * 2, r=round(rng.uniform(0.15, 0.3), 3), d=[round(rng.uniform(0, 1.5), 2) for _ in range(3)])
    if k < 0.2:
        return dict(k="px", s=rng.randrange(10**6), lo=1.2, hi=round(rng.uniform(3, 8), 2), im=0.0 if lossless is not False and rng.random() < 0.6 or lossless else 0.4)
    if lat["kind"] == "1d" or k < 0.45:
        return dict(k="st", bg=val(), v=val(), c=round(rng.uniform(0.3, 0.7), 3), w=round(rng.uniform(0.15, 0.6), 3))
    if k < 0.7:
        return dict(k="ci", bg=val(), v=val(), c=[round(rng.uniform(0.3, 0.7), 3), round(rng.uniform(0.3, 0.7), 3)], r=round(rng.uniform(0.12, 0.35), 3))
    return dict(k="re", bg=val(), v=val(), c=[round(rng.uniform(0.3, 0.7), 3), round(rng.uniform(0.3, 0.7), 3)], w=[round(rng.uniform(0.15, 0.6), 3), round(rng.uniform(0.15, 0.6), 3)])


def _recip(lat):
    b = lat["basis"]
    if not isinstance(b, list):
        b = [[b, 0.0], [0.0, 1.0]]
    (ax, ay), (bx, by) = b
    det = ax * by - ay * bx
    f = 2 * math.pi / det
    # columns of 2 pi (M^-1)^T with M = [a b]
    g1 = (by * f, -bx * f)
    g2 = (-ay * f, ax * f)
    return g1, g2


def cutoff_ok(lat, pw, epss, eps0, tol=2e-3):
    """True if no diffraction order is close to cut-off in any of the uniform media."""
    wl = pw["wl"]
    k0 = 2 * math.pi / wl
    th, ph = math.radians(pw["ang"][0]), math.radians(pw["ang"][1])
    n0 = math.sqrt(eps0)
    kx0, ky0 = k0 * n0 * math.sin(th) * math.cos(ph), k0 * n0 * math.sin(th) * math.sin(ph)
    g1, g2 = _recip(lat)
    R = range(-7, 8)
    for i in R:
        for j in ([0] if lat["kind"] == "1d" else R):
            kx = kx0 + i * g1[0] + j * g2[0]
            ky = ky0 + i * g1[1] + j * g2[1]
            for e in epss:
                if abs((complex(*e) * k0**2 - kx**2 - ky**2) / k0**2) < tol:
                    return False
    return True


def gen_pw(rng, lat, epss, eps0):
    for _ in range(200):
        mode = rng.random()
        th = 0.0 if mode < 0.3 else round(rng.uniform(1, 60), 2)
        ph = 0.0 if mode < 0.5 else round(rng.uniform(-180, 180), 1)
        ps = rng.choice([0.0, 90.0, 45.0, round(rng.uniform(0, 180), 1)])
        pw = dict(wl=round(rng.uniform(0.65, 2.6), 4), ang=[th, ph, ps])
        if cutoff_ok(lat, pw, epss, eps0):
            return pw
    raise RuntimeError("no source found")


def gen_thickness(rng):
    r = rng.random()
    if r < 0.06:
        return 0.0
    if r < 0.12:
        return 0.001
    return round(rng.uniform(0.02, 0.6), 4)


def formulations(lat, pol=0.1):
    if lat["kind"] == "1d":
        return ["original", "tangent"]
    return ["original", "tangent", "jones", "pol"]


def gen_form(rng, lat):
    r = rng.random()
    if r < 0.6:
        return "original"
    if lat["kind"] == "1d":
        return "tangent"
    return "tangent" if r < 0.8 else "jones" if r < 0.94 else "pol"


def gen_nh(rng, lat):
    return rng.choice([1, 3, 5, 7, 9, 11] if lat["kind"] == "1d" else [1, 5, 7, 9, 11, 13])


# ------------------------------------------------------------------ construction (numpy/nannos)
HOLD = None  # a function that may replace and remember what the caller passes in


def held(kind, x):
    return x if HOLD is None or x is None else HOLD(kind, x)


def build_lattice(nn, L):
    import numpy as np

    b = L["basis"]
    basis = b if not isinstance(b, list) else tuple(tuple(v) for v in b)
    disc = L["disc"][0] if L["kind"] == "1d" else tuple(L["disc"])
    harm = None if L["harm"] is None else np.array(L["harm"])
    basis, disc, harm = held("basis", basis), held("disc", disc), held("harm", harm)
    return nn.Lattice(basis, discretization=disc, truncation=L["trunc"], harmonics_array=harm)


def eps_array(E, L):
    """The permittivity as a numpy array or complex scalar (independent of nannos)."""
    import numpy as np

    if E["k"] == "u":
        return complex(*E["v"]) if E["v"][1] else float(E["v"][0])
    nx, ny = L["disc"]
    u, v = np.meshgrid(np.linspace(0, 1, nx), np.linspace(0, 1, ny), indexing="ij")
    if E["k"] == "px":
        r = np.random.RandomState(E["s"])
        # smooth random map: few Fourier components, well conditioned
        a = np.zeros((nx, ny))
        for _ in range(4):
            p = r.randint(0, 3), r.randint(0, 3) if ny > 1 else 0
            a = a + r.rand() * np.cos(2 * np.pi * (p[0] * u + p[1] * v) + r.rand() * 6.28)
        a = (a - a.min()) / max(a.max() - a.min(), 1e-9)
        e = E["lo"] + (E["hi"] - E["lo"]) * a + 0j
        return dotted(e + 1j * E["im"] * a, E)
    if E["k"] == "st":
        m = np.abs(u - E["c"]) <= E["w"] / 2
    elif E["k"] == "re":
        m = (np.abs(u - E["c"][0]) <= E["w"][0] / 2) & (np.abs(v - E["c"][1]) <= E["w"][1] / 2)
    else:
        m = (u - E["c"][0]) ** 2 + ((v - E["c"][1]) ** 2 if ny > 1 else 0) <= E["r"] ** 2
    e = np.where(m, complex(*E["v"]), complex(*E["bg"]))
    e = dotted(e, E)
    if E["k"] == "aniso":
        d = E["d"]
        o = np.zeros((3, 3, nx, ny), dtype=complex)
        o[0, 0] = e + d[0]
        o[1, 1] = e + d[1]
        o[2, 2] = e + d[2]
        o[0, 1] = 0.2 * m
        o[1, 0] = 0.2 * m
        return o
    return e


def dotted(e, E):
    """One pixel changed."""
    if E.get("dot"):
        e = e.copy()
        i, j, v = E["dot"]
        e[i % e.shape[0], j % e.shape[1]] += v
    return e


def small(rng):
    """A small relative change, as made for finite differences or by an optimizer."""
    return rng.choice([1e-2, 1e-3, 1e-4, 1e-5, 1e-6]) * rng.choice([-1, 1])


def nudge_eps(rng, E, L):
    """Almost the same permittivity."""
    import copy

    E = copy.deepcopy(E)
    if E["k"] == "px" or (E["k"] in ("st", "ci", "re") and rng.random() < 0.4):
        nx, ny = L["disc"]
        E["dot"] = [rng.randrange(nx), rng.randrange(ny), rng.choice([0.5, 0.1, 1e-3, 1e-5])]
    else:
        E["v"][0] *= 1 + (small(rng) if E["k"] != "u" else rng.choice([1e-4, 1e-5, 1e-6]))
    return E


def gen_tf(rng):
    """A tangent field of the caller's own."""
    return dict(a=round(rng.uniform(0, 3.1), 3), b=round(rng.uniform(0, 1.2), 3), s=rng.choice([0.0, 0.3, 0.5]))


def tf_array(tf, L):
    import numpy as np

    if tf is None:
        return None
    nx, ny = L["disc"]
    u, v = np.meshgrid(np.arange(nx) / nx, np.arange(ny) / ny, indexing="ij")
    th = tf["a"] + tf["b"] * np.sin(2 * np.pi * u)
    r = (1 + tf["s"] * np.cos(2 * np.pi * v)) / (1 + tf["s"])
    return [r * np.cos(th), r * np.sin(th)]


def build_tf(nn, tf, L):
    t = tf_array(tf, L)
    return None if t is None else held("tf", [to_backend(nn, x, cplx=False) for x in t])


def build_layer(nn, lat, spec, L):
    E = spec["eps"]
    lay = lat.Layer(spec["name"], thickness=spec["th"], tangent_field_type=spec["tft"], tangent_field=build_tf(nn, spec.get("tf"), L),
                    epsilon=held("eps", eps_array(E, L)) if E["k"] == "u" else 1.0)
    if E["k"] != "u":
        lay.epsilon = held("eps", to_backend(nn, eps_array(E, L)))
    return lay


def to_backend(nn, a, cplx=True):
    """Array of the active backend, in the library's precision."""
    bk = nn.backend
    if nn.get_backend() == "torch":
        return bk.tensor(a, dtype=nn.get_types()[1] if cplx else nn.get_types()[0])
    return bk.array(a, dtype=nn.get_types()[1] if cplx else nn.get_types()[0])


def build_pw(nn, p):
    return nn.PlaneWave(wavelength=p["wl"], angles=held("angles", tuple(p["ang"])))


def build_fresh(nn, st):
    """A simulation from a fully resolved state: own lattice, source and layers, no copies."""
    lat = build_lattice(nn, st["lat"])
    lays = [build_layer(nn, lat, s, st["lat"]) for s in st["layers"]]
    pw = build_pw(nn, st["pw"])
    sim = nn.Simulation(lays, pw, nh=st["nh"], formulation=st["form"])
    return sim, lays


# ------------------------------------------------------------------ queries
def layer_id(rng, names):
    n = len(names)
    return dict(by=rng.choice(["i", "i", "neg", "name", "obj"]), i=rng.randrange(n))


def gen_query(rng, st, kinds=None, heavy=True, extra=0):
    """st: resolved state of the simulation (needs layers, lat)."""
    n = len(st["layers"])
    names = [l["name"] for l in st["layers"]]
    kinds = kinds or ["de"] * 4 + ["S"] * 3 + ["ff"] * 3 + ["fg"] * (1 if heavy else 0) + ["flux", "stress", "eps", "ord", "glay"] + ["tan", "lat", "ifft"] * extra
    k = rng.choice(kinds)
    pat = [i for i, l in enumerate(st["layers"]) if l["eps"]["k"] != "u"]
    if k == "tan" and (not pat or st["lat"]["kind"] == "1d"):
        k = "lat"
    q = dict(k=k)
    if k == "de":
        q["orders"] = rng.random() < 0.6
        q["complex"] = rng.random() < 0.35
        q["dict"] = rng.random() < 0.3
    elif k == "S":
        if rng.random() < 0.3:
            q["ind"] = None
        else:
            i = rng.randrange(n - 1)
            j = rng.randrange(i + 1, n)
            if rng.random() < 0.5:  # bias to partial stacks starting at 0, as fields do
                i = 0
            q["ind"] = [i, j]
            q["tup"] = rng.random() < 0.5
    elif k in ("ff", "fg", "stress"):
        q["lay"] = layer_id(rng, names)
        th = st["layers"][q["lay"]["i"]]["th"]
        zs = [0, th, round(th * rng.uniform(0.1, 0.9), 4), th / 2 + rng.choice([0, 0, 1e-3, 1e-5, 1e-6])]
        if q["lay"]["i"] in (0, n - 1):
            zs = [0, -0.2 if q["lay"]["i"] == 0 else 0.2, 0.05 + rng.choice([0, 0, 1e-3, 1e-6])]
        q["z"] = rng.choice(zs)
        if k != "stress" and rng.random() < 0.3:
            q["z"] = [rng.choice(zs) for _ in range(rng.randint(1, 3))]
        elif k == "ff" and rng.random() < 0.15:
            q["z0"] = True  # a zero dimensional array
        if k == "fg":
            q["via"] = rng.choice(["grid", "grid", "E", "H"])
            q["field"] = rng.choice(["all", "E", "H"]) if q["via"] == "grid" else None
            q["comp"] = rng.choice(["all", "all", "x", "y", "z"])
            eps = st["layers"][q["lay"]["i"]]["eps"]
            if eps["k"] in ("u", "aniso") or rng.random() < 0.5:
                d = st["lat"]["disc"]
                q["shape"] = list(d) if rng.random() < 0.7 else [max(16, d[0] - 4), d[1] if d[1] == 1 else max(16, d[1] - 4)]
            else:
                q["shape"] = None
    elif k == "flux":
        q["lay"] = layer_id(rng, names)
        q["s"] = rng.randrange(10**6)
    elif k in ("eps", "glay"):
        q["lay"] = layer_id(rng, names)
    elif k == "tan":
        q["lay"] = dict(by=rng.choice(["i", "name", "obj"]), i=rng.choice(pat))
        q["type"] = rng.choice([None, None, "fft"] + ["opt"] * square(st["lat"]))
        q["nz"] = rng.random() < 0.5
        q["jones"] = rng.random() < 0.3
    elif k == "lat":
        q["nh"] = gen_nh(rng, st["lat"])
        q["sort"] = rng.random() < 0.5
        q["own"] = rng.random() < 0.5
        q["c"] = [round(rng.uniform(0.2, 0.8), 3), round(rng.uniform(0.2, 0.8), 3)]
        q["r"] = round(rng.uniform(0.1, 0.4), 3)
        q["shape"] = "stripe" if st["lat"]["kind"] == "1d" else rng.choice(["stripe", "circle", "ellipse", "square", "rectangle", "polygon"])
    elif k == "ifft":
        d = st["lat"]["disc"]
        q["shape"] = list(d) if rng.random() < 0.5 else [d[0] + 3, d[1] if d[1] == 1 else d[1] + 2]
        q["n"] = rng.choice([0, 1, 2])
        q["s"] = rng.randrange(10**6)
    elif k == "ord":
        q["o"] = 0 if st["lat"]["kind"] == "1d" and rng.random() < 0.5 else [0, 0]
    return q


def _lid(sim, lid):
    n = len(sim.layers)
    i = lid["i"]
    if lid["by"] == "i":
        return i
    if lid["by"] == "neg":
        return i - n
    if lid["by"] == "name":
        return sim.layer_names[i]
    return sim.layers[i]


def gen_probe(rng, st):
    """A set of related queries, asked in any order."""
    n = len(st["layers"])
    j = rng.randrange(n - 1)
    i = rng.randrange(n)
    th = st["layers"][i]["th"]
    z = rng.choice([0, th, round(th * rng.uniform(0.1, 0.9), 4)]) if 0 < i < n - 1 else rng.choice([0, -0.15 if i == 0 else 0.15])
    parts = ["de", "tot", "dict", "cplx", "ctot", "S", "Sa", "Sb", "top", "bot", "ff", "grid", "eps", "stress", "order", "zs"]
    parts = rng.sample(parts, rng.randint(4, len(parts)))
    d = st["lat"]["disc"]
    zs = [round(th * rng.uniform(0, 1), 4) if 0 < i < n - 1 else round(rng.uniform(0, -0.2 if i == 0 else 0.2), 4) for _ in range(rng.randint(1, 4))]
    return dict(k="probe", j=j, m=rng.randrange(1, n), i=i, z=z, zs=zs, parts=parts, lay=dict(by=rng.choice(["i", "neg", "name", "obj"]), i=i),
                shape=rng.choice([list(d), [max(16, d[0] - 5), 1 if d[1] == 1 else max(16, d[1] - 3)]]))


def do_probe(nn, sim, q):
    n = len(sim.layers)
    j, i, z, m = q["j"], q["i"], q["z"], q["m"]
    lid = _lid(sim, q["lay"])
    out = {"harm": sim.harmonics}
    if sim.formulation != "original" and not sim.lattice.is_1D:
        ht = sim.lattice.get_harmonics(sim.nh, sort=True)[0]
        out["tan"] = [l.get_tangent_field(ht, normalize=sim.formulation == "tangent") for l in sim.layers]
    for p in q["parts"]:
        if p == "de":
            v = sim.diffraction_efficiencies(orders=True)
        elif p == "tot":
            v = sim.diffraction_efficiencies()
        elif p == "dict":
            v = sim.diffraction_efficiencies(orders=True, return_dict=True)
            v = [[[k1, k2, x] for k1, dd in A.items() for k2, x in dd.items()] for A in v]
        elif p == "cplx":
            v = sim.diffraction_efficiencies(orders=True, complex=True)
        elif p == "ctot":
            v = sim.diffraction_efficiencies(complex=True)
        elif p == "S":
            v = sim.get_S_matrix()
        elif p == "Sa":
            v = sim.get_S_matrix(indices=(0, m))
        elif p == "Sb":
            v = sim.get_S_matrix(indices=(m, n - 1)) if m < n - 1 else None
        elif p == "top":
            v = sim.get_field_fourier(j, z=sim.layers[j].thickness or 0)
        elif p == "bot":
            v = sim.get_field_fourier(j + 1, z=0)
        elif p == "ff":
            v = sim.get_field_fourier(lid, z=z)
        elif p == "grid":
            v = sim.get_field_grid(lid, z=z, shape=tuple(q["shape"]))
        elif p == "zs":
            v = sim.get_field_fourier(lid, z=q["zs"])
        elif p == "eps":
            v = sim.get_epsilon(lid)
        elif p == "stress":
            v = sim.get_z_stress_tensor_integral(lid, z)
        elif p == "order":
            R, T = sim.diffraction_efficiencies(orders=True)
            h = sim.harmonics
            v = [[int(h[0][k]), int(h[1][k]), sim.get_order(R, (int(h[0][k]), int(h[1][k]))), sim.get_order_index((int(h[0][k]), int(h[1][k])))] for k in range(sim.nh)]
        out[p] = v
    return out


def lattice_answers(nn, lat, q):
    c, r = q["c"], q["r"]
    h, n = lat.get_harmonics(q["nh"], sort=q["sort"])
    k = q["shape"]
    if k == "stripe":
        m = lat.stripe(c[0], r)
    elif k == "circle":
        m = lat.circle(tuple(c), r)
    elif k == "ellipse":
        m = lat.ellipse(tuple(c), (r, r / 2), rotate=30)
    elif k == "square":
        m = lat.square(tuple(c), r, rotate=15)
    elif k == "rectangle":
        m = lat.rectangle(tuple(c), (r, 1.5 * r))
    else:
        m = lat.polygon([(c[0] - r, c[1] - r), (c[0] + r, c[1]), (c[0], c[1] + r)])
    return [h, n, lat.area, lat.matrix, lat.reciprocal, lat.grid, lat.unit_grid, lat.constant(c[0]), m, lat.ones(), lat.zeros(), lat.transform(lat.unit_grid * 2)]


def canonical(st, q):
    """The same question, put in the plainest way (only for the reference answers)."""
    import copy

    if "lay" in q and q["lay"]["by"] != "i":
        q = dict(q, lay=dict(q["lay"], by="i"))
    if q.get("z0"):
        q = dict(q, z0=False)
    if q["k"] == "tan" and q["type"]:
        st = copy.deepcopy(st)
        st["layers"][q["lay"]["i"]]["tft"] = q["type"]
        q = dict(q, type=None)
    return st, q


def do_query(nn, sim, q):
    k = q["k"]
    if k == "de":
        return sim.diffraction_efficiencies(orders=q["orders"], complex=q["complex"], return_dict=q["dict"])
    if k == "S":
        ind = q["ind"]
        if ind is None:
            return sim.get_S_matrix()
        return sim.get_S_matrix(indices=held("ind", tuple(ind) if q.get("tup") else list(ind)))
    if k == "ff":
        z = nn.backend.array(float(q["z"]), dtype=nn.backend.float64) if q.get("z0") else q["z"]
        return sim.get_field_fourier(_lid(sim, q["lay"]), held("z", z))
    if k == "fg":
        shape = held("shape", tuple(q["shape"])) if q["shape"] else None
        kw = dict(z=held("z", q["z"]), shape=shape, component=q["comp"])
        lid = _lid(sim, q["lay"])
        if q["via"] == "E":
            return sim.get_Efield_grid(lid, **kw)
        if q["via"] == "H":
            return sim.get_Hfield_grid(lid, **kw)
        return sim.get_field_grid(lid, field=q["field"], **kw)
    if k == "flux":
        import numpy as np

        r = np.random.RandomState(q["s"])
        a, b = (r.rand(2, 2 * sim.nh) - 0.5) + 1j * (r.rand(2, 2 * sim.nh) - 0.5)
        return sim.get_z_poynting_flux(_lid(sim, q["lay"]), held("amp", to_backend(nn, a)), held("amp", to_backend(nn, b)))
    if k == "stress":
        return sim.get_z_stress_tensor_integral(_lid(sim, q["lay"]), q["z"])
    if k == "eps":
        return sim.get_epsilon(_lid(sim, q["lay"]))
    if k == "ord":
        R, T = sim.diffraction_efficiencies(orders=True)
        o = q["o"] if isinstance(q["o"], int) else held("order", tuple(q["o"]))
        held("ans", R)
        return [sim.get_order(R, o), sim.get_order(T, o), sim.get_order_index(o)]
    if k == "tan":
        lay = sim.get_layer_by_name(_lid(sim, q["lay"])) if q["lay"]["by"] != "obj" else sim.layers[q["lay"]["i"]]
        kw = dict(normalize=q["nz"])
        if q["type"]:
            kw["type"] = q["type"]
        t = lay.get_tangent_field(sim.harmonics, **kw)
        return [t, lay.get_jones_field(t)] if q["jones"] else t
    if k == "lat":
        return lattice_answers(nn, sim.lattice if q["own"] else sim.layers[0].lattice, q)
    if k == "ifft":
        import numpy as np

        r = np.random.RandomState(q["s"])
        a = (r.rand(max(q["n"], 1), sim.nh) - 0.5) + 1j * (r.rand(max(q["n"], 1), sim.nh) - 0.5)
        if q["n"] == 0:
            return sim.get_ifft(held("amp", to_backend(nn, a[0])), held("shape", tuple(q["shape"])))
        return sim.get_ifft_amplitudes(held("amp", to_backend(nn, a)), held("shape", tuple(q["shape"])))
    if k == "grad":
        from . import gradients

        return gradients.answer(nn, sim, q)
    if k in ("plotl", "plots"):
        from . import plots

        return plots.do(nn, sim, q)
    if k == "probe":
        return do_probe(nn, sim, q)
    if k == "glay":
        lay, i = sim.get_layer(_lid(sim, q["lay"]))
        return [lay.name, i, sim.get_layer_by_name(_lid(sim, q["lay"])).name]
    raise ValueError(k)


# ------------------------------------------------------------------ answers
def norm(x):
    """Plain nested lists / numpy copies of an answer."""
    import numpy as np

    if isinstance(x, (str, bool, type(None))):
        return x
    if isinstance(x, dict):
        return {"D": [[str(k), norm(v)] for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))]}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    a = np.array(x)
    if a.dtype == object:
        return [norm(v) for v in a]
    return a.copy()


def diff(a, b, tol=1e-7, floor=1e-9, path=""):
    """None if equal, else a short description of the first difference. b is the expectation."""
    import numpy as np

    if isinstance(b, dict) or isinstance(a, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return f"{path}: {type(a).__name__} instead of {type(b).__name__}"
        return diff(a["D"], b["D"], tol, floor, path + ".dict")
    if isinstance(b, list) or isinstance(a, list):
        if not (isinstance(a, list) and isinstance(b, list)):
            return f"{path}: {type(a).__name__} instead of {type(b).__name__}"
        if len(a) != len(b):
            return f"{path}: length {len(a)} instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, floor, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(b, (str, bool, type(None))):
        return None if a == b and type(a) is type(b) else f"{path}: {a!r} instead of {b!r}"
    if isinstance(a, (str, bool, type(None))):
        return f"{path}: {a!r} instead of an array"
    if a.shape != b.shape:
        return f"{path}: shape {a.shape} instead of {b.shape}"
    if b.size == 0:
        return None
    a, b = (x.astype(int) if x.dtype == bool else x for x in (a, b))
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (fa == fb).all():
        return f"{path}: non-finite values differ"
    m = fb
    if not m.any():
        return None
    scale = max(float(np.max(np.abs(b[m]))), floor)
    err = float(np.max(np.abs(a[m] - b[m])))
    if err > tol * scale:
        return f"{path}: differs by {err:.3e} (scale {scale:.3e})"
    return None
