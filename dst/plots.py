"""What plots draw: recording stand-ins for axes and plotters, and what they should have been given."""
import types

import numpy as np

from . import world


class DrawError(Exception):
    """The injected failure of the drawing package."""


class Recorder:
    def __init__(self, fault=None):
        self.calls = []
        self.fault = fault

    def note(self, *c):
        if self.fault is not None and len(self.calls) == self.fault["n"]:
            exc = dict(draw=DrawError, kbi=KeyboardInterrupt, mem=MemoryError)[self.fault["exc"]]
            self.fault = None
            raise exc("injected")
        self.calls.append(list(c))


def plain(a):
    if hasattr(a, "detach"):
        a = a.detach()
    return np.array(a, dtype=float)


class Image:
    def __init__(self, rec, i):
        self.rec, self.i = rec, i

    def set_transform(self, t):
        self.rec.calls[self.i].append(np.array(t.get_matrix())[:2, 2])


class Axes(Recorder):
    def __init__(self, fault=None):
        import matplotlib.transforms as mt

        super().__init__(fault)
        self.transData = mt.IdentityTransform()

    def pcolormesh(self, x, y, c, **kw):
        self.note("mesh", plain(x), plain(y), plain(c), kw.get("cmap"), kw.get("alpha"))
        return Image(self, len(self.calls) - 1)

    def plot(self, x, y, style, **kw):
        self.note("line", [[float(v) for v in x], [float(v) for v in y]], style)

    def set_xlim(self, a, b):
        self.note("xlim", [float(a), float(b)])

    def set_ylim(self, a, b):
        self.note("ylim", [float(a), float(b)])

    def set_aspect(self, a):
        self.note("aspect", a)


class Plotter(Recorder):
    def __init__(self, fault=None):
        super().__init__(fault)
        self.camera = types.SimpleNamespace(azimuth=0.0, elevation=0.0, roll=0.0)

    def add_mesh(self, mesh, **kw):
        name = "permittivity (Re)"
        v = np.array(mesh.cell_data[name], dtype=float)
        c = np.array(mesh.cell_centers().points, dtype=float)
        o = np.lexsort((np.round(c[:, 2], 4), np.round(c[:, 1], 4), np.round(c[:, 0], 4)))
        self.note("mesh", c[o], v[o], np.array(mesh.bounds, dtype=float), sorted((k, kw[k]) for k in kw))

    def show_axes(self):
        self.note("axes")


# ------------------------------------------------------------------ queries
def gen(rng, st):
    lays = st["layers"]
    pat = [i for i, l in enumerate(lays) if l["eps"]["k"] not in ("u", "aniso")]
    fault = dict(n=rng.randrange(4), exc=rng.choice(["draw", "draw", "kbi", "mem"])) if rng.random() < 0.15 else None
    if pat and rng.random() < 0.55:
        q = dict(k="plotl", lay=dict(by=rng.choice(["i", "name", "obj"]), i=rng.choice(pat)), comp=rng.choice(["re", "re", "im", None]),
                 nper=rng.choice([1, 1, 2, 3, [1, 2], [2, 1], [3, 2]]), cell=rng.random() < 0.5, alpha=rng.choice([None, 0.5]))
    elif all(l["eps"]["k"] != "aniso" for l in lays) and all(nvals(l, st) <= 8 for l in lays):
        q = dict(k="plots", nper=rng.choice([[1, 1], [1, 1], [2, 1], [1, 2]]), dz=rng.choice([0.0, 0.0, 0.1, 0.35]), null=rng.choice([None, None, 0.5, 1.25]),
                 colors=rng.random() < 0.4, pos=rng.random() < 0.3, kw=rng.choice([{}, {}, dict(cmap="Blues"), dict(opacity=0.5)]))
        if max(l["th"] for l in lays) == 0:
            q["null"] = 0.5
    else:
        return None
    if fault:
        q["fault"] = fault
    return q


def nvals(l, st):
    if l["eps"]["k"] == "px":
        return 99
    return len(np.unique(np.real(world.eps_array(l["eps"], st["lat"]))))


def do(nn, sim, q):
    try:
        return draw(nn, sim, q)
    except (DrawError, KeyboardInterrupt, MemoryError) as e:
        if q.get("fault") is None or str(e) != "injected":
            raise
        return ["failed", type(e).__name__]


def draw(nn, sim, q):
    fault = q.get("fault")
    if q["k"] == "plotl":
        by, i = q["lay"]["by"], q["lay"]["i"]
        lay = sim.get_layer(sim.layers[i].name)[0] if by == "name" else sim.get_layer(sim.layers[i])[0] if by == "obj" else sim.layers[i]
        ax = Axes(fault)
        kw = dict(ax=ax, nper=tuple(q["nper"]) if isinstance(q["nper"], list) else q["nper"], show_cell=q["cell"])
        if q["comp"]:
            kw["comp"] = q["comp"]
        if q["alpha"] is not None:
            kw["alpha"] = q["alpha"]
        ims = lay.plot(**kw)
        return [ax.calls, [im.i for im in ims]]
    p = Plotter(fault)
    kw = dict(q["kw"])
    if q["colors"]:
        kw["layer_colors"] = colors(sim)
    nper = tuple(q["nper"])
    out = sim.plot_structure(p, nper, q["dz"], q["null"], **kw) if q["pos"] else sim.plot_structure(plotter=p, nper=nper, dz=q["dz"], null_thickness=q["null"], **kw)
    return [p.calls, out is p]


def colors(sim):
    """One colour for a uniform layer, one for each value of the others."""
    return [f"c{i}" if l.is_uniform else [f"c{i}.{j}" for j in range(9)] for i, l in enumerate(sim.layers)]


# ------------------------------------------------------------------ the model
def basis(lat):
    b = lat["basis"]
    return np.array(b, dtype=float) if isinstance(b, list) else np.array([[b, 0.0], [0.0, 1.0]])


def expected(st, q):
    """Independent of the library: what has to be drawn for this structure."""
    b = basis(st["lat"])
    if q["k"] == "plotl":
        nx, ny = st["lat"]["disc"]
        u, v = np.meshgrid(np.linspace(0, 1, nx), np.linspace(0, 1, ny), indexing="ij")
        x, y = u * b[0][0] + v * b[1][0], u * b[0][1] + v * b[1][1]
        e = world.eps_array(st["layers"][q["lay"]["i"]]["eps"], st["lat"])
        e = np.imag(e) if q["comp"] == "im" else np.real(e)
        n = q["nper"] if isinstance(q["nper"], list) else [q["nper"]] * 2
        meshes = [[x, y, e * np.ones((nx, ny)), i * b[0] + j * b[1]] for i in range(n[0]) for j in range(n[1])]
        lines = sorted([[0, 0], list(b[0]), list(b[1]), list(b[0] + b[1])]) if q["cell"] else []
        return dict(meshes=meshes, corners=lines)
    lays = st["layers"]
    null = q["null"] or max(l["th"] for l in lays)
    meshes = []
    for jx in range(q["nper"][0]):
        for jy in range(q["nper"][1]):
            z = 0.0
            for i, l in enumerate(lays):
                t = l["th"] or null
                e = np.real(world.eps_array(l["eps"], st["lat"]))
                if l["eps"]["k"] == "u":
                    if float(e) != 1:
                        meshes.append(dict(cells=[[jx, jx + 1, jy, jy + 1]], v=float(e), z=[z, z + t], c=f"c{i}"))
                else:
                    nx, ny = e.shape
                    for k, val in enumerate(np.unique(e)):
                        if val != 1:
                            ij = np.argwhere(np.abs(e - val) <= 1e-7 * abs(val))
                            cells = [[jx + a / nx, jx + (a + 1) / nx, jy + c / ny, jy + (c + 1) / ny] for a, c in ij]
                            meshes.append(dict(cells=cells, v=float(val), z=[z, z + t], c=f"c{i}.{k}", pat=True))
                z += t + q["dz"]
    return dict(meshes=meshes, b=b)


def close(a, b, tol=2e-5):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def judge(st, q, ans):
    """None, or how the drawing differs from the structure. ans: normalised answer (nested lists and arrays)."""
    want = expected(st, q)
    if isinstance(ans[0], str):
        return None
    if q.get("fault") and len(ans[0]) > q["fault"]["n"]:
        return "the failure of the drawing package never reached the caller"
    calls = ans[0]
    if q["k"] == "plotl":
        got = [c for c in calls if c[0] == "mesh"]
        if len(got) != len(want["meshes"]):
            return f"{len(got)} periods drawn instead of {len(want['meshes'])}"
        for w in want["meshes"]:
            m = [c for c in got if close(c[6] if len(c) > 6 else [np.nan] * 2, w[3])]
            if len(m) != 1:
                return f"{len(m)} periods drawn at {w[3].tolist()}"
            for k, what in ((0, "x"), (1, "y"), (2, "values")):
                if not close(m[0][1 + k], w[k]):
                    return f"{what} of the period at {w[3].tolist()} are not those of the layer"
        lines = [c[1] for c in calls if c[0] == "line"]
        if bool(lines) != q["cell"]:
            return f"{len(lines)} lines with show_cell={q['cell']}"
        pts = [[x, y] for l in lines for x, y in zip(*l)]
        for p in want["corners"]:
            if not any(close(p, r) for r in pts):
                return f"the cell drawn has no corner {p}"
        return None
    if ans[1] is not True:
        return "another plotter came back"
    b = want["b"]
    got = [c for c in calls if c[0] == "mesh"]
    if len(got) != len(want["meshes"]):
        return f"{len(got)} parts drawn instead of {len(want['meshes'])}"
    for n, (g, w) in enumerate(zip(got, want["meshes"])):
        c, v, bounds, kw = g[1], g[2], g[3], dict((k, x) for k, x in g[4])
        if not close(v, np.full(len(v), w["v"]), 1e-6):
            return f"part {n} shows {np.unique(v).tolist()} instead of {w['v']}"
        cells = np.array(w["cells"])
        xy = np.array([[x, y] for x0, x1, y0, y1 in cells for x in (x0, x1) for y in (y0, y1)]) @ b
        box = [xy[:, 0].min(), xy[:, 0].max(), xy[:, 1].min(), xy[:, 1].max(), w["z"][0], w["z"][1]]
        if not close(bounds, box):
            return f"part {n} (value {w['v']}) occupies {np.round(bounds, 6).tolist()} instead of {np.round(box, 6).tolist()}"
        if w.get("pat"):
            mid = np.stack([(cells[:, 0] + cells[:, 1]) / 2, (cells[:, 2] + cells[:, 3]) / 2], axis=1) @ b
            mid = np.concatenate([mid, np.full((len(mid), 1), sum(w["z"]) / 2)], axis=1)
            o = np.lexsort((np.round(mid[:, 2], 4), np.round(mid[:, 1], 4), np.round(mid[:, 0], 4)))
            if len(mid) != len(c) or set(map(tuple, np.round(mid[o], 3) + 0.0)) != set(map(tuple, np.round(c, 3) + 0.0)) and not nearest(mid, c):
                return f"part {n} (value {w['v']}) is made of other pixels than the layer's"
        for k, x in q["kw"].items():
            if kw.get(k) != x:
                return f"part {n}: {k} is {kw.get(k)!r}"
        if (kw.get("color") if q["colors"] else None) != (w["c"] if q["colors"] else None):
            return f"part {n}: colour {kw.get('color')!r} instead of {w['c']!r}"
    return None


def nearest(a, b):
    d = np.abs(a[:, None, :] - b[None, :, :]).max(axis=2)
    return bool((d.min(axis=0) < 1e-4).all() and (d.min(axis=1) < 1e-4).all())
