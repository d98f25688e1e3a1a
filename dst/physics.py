"""Independent rigorous coupled-wave reference in plain numpy.

First-order form d/dz (ex, ey, hx, hy) = i M (ex, ey, hx, hy) in every layer (curl E = i w H,
curl H = -i w eps E), 4N modes per layer from one dense eigenproblem, and one linear system
for the whole stack that matches the tangential fields at all interfaces at once: no
scattering matrices, no second-order eigenproblem, nothing remembered between answers."""
import numpy as np

from . import world


def covered(st):
    """Formulations whose truncated equations this model solves (all)."""
    return True


def conserves(st):
    """Does the truncated problem conserve energy exactly (Hermitian permittivity matrices)?"""
    return st["form"] == "original" or st["lat"]["kind"] == "1d"


def normal_projector(t, form):
    """Projection on the direction normal to a vector field (the complex Jones field made of it, if
    so formulated), at every pixel: ((xx, xy), (yx, yy)). No projection where the field vanishes."""
    tx, ty = (np.asarray(c) for c in t)
    eps = np.finfo(float).eps
    if form == "jones":
        r = np.sqrt(np.abs(tx) ** 2 + np.abs(ty) ** 2) + eps
        phi = np.pi / 8 * (1 + np.cos(np.pi * r))
        u = np.exp(-1j * np.arctan2(ty, tx)) / r
        tx, ty = u * (tx * np.cos(phi) + 1j * ty * np.sin(phi)), u * (ty * np.cos(phi) - 1j * tx * np.sin(phi))
    r2 = (np.sqrt(np.abs(tx) ** 2 + np.abs(ty) ** 2) + eps) ** 2
    nx, ny = -np.conj(ty), np.conj(tx)
    return (nx * np.conj(nx) / r2, nx * np.conj(ny) / r2), (ny * np.conj(nx) / r2, ny * np.conj(ny) / r2)


def toeplitz(u, h):
    c = np.fft.fft2(u) / u.size
    d0 = h[0][:, None] - h[0][None, :]
    d1 = h[1][:, None] - h[1][None, :]
    return c[d0, d1]


class Solution:
    def __init__(self, st, harmonics, tans=None):
        self.st = st
        h = self.h = np.array(harmonics).astype(int)
        n = self.n = h.shape[1]
        L = st["lat"]
        g1, g2 = world._recip(L)
        pw = st["pw"]
        k0 = self.k0 = 2 * np.pi / pw["wl"]
        th, ph, ps = np.deg2rad(pw["ang"])
        eps = [world.eps_array(l["eps"], L) for l in st["layers"]]
        n0 = self.n0 = np.sqrt(complex(eps[0]))
        d = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
        self.kx = k0 * n0 * d[0] + h[0] * g1[0] + h[1] * g2[0]
        self.ky = k0 * n0 * d[1] + h[0] * g1[1] + h[1] * g2[1]
        # p and s unit vectors
        p = np.array([np.cos(th) * np.cos(ph), np.cos(th) * np.sin(ph), -np.sin(th)])
        s = np.array([-np.sin(ph), np.cos(ph), 0.0])
        self.e_inc = np.cos(ps) * p + np.sin(ps) * s
        self.zero = int(np.where((h[0] == 0) & (h[1] == 0))[0][0])
        self.lay = []
        memo = {}
        for i, (l, e) in enumerate(zip(st["layers"], eps)):
            t = tans[i] if tans is not None else None
            k = repr(l["eps"]) if t is None else repr((l["eps"], l["tft"], l.get("tf")))
            if k not in memo:
                memo[k] = self._modes(l["eps"], e, t)
            self.lay.append(memo[k])
        self.th = [float(l["th"] or 0) for l in st["layers"]]
        self._solve(d)

    # ---------------------------------------------------------------- one layer
    def _modes(self, E, e, t=None):
        n, w = self.n, self.k0
        I = np.eye(n)
        Kx, Ky = np.diag(self.kx), np.diag(self.ky)
        if E["k"] == "u":
            exx = eyy = ezz = complex(e) * I
            exy = eyx = 0 * I
        elif E["k"] == "aniso":
            exx, exy, eyx, eyy, ezz = [toeplitz(e[i, j], self.h) for i, j in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 2))]
        else:
            exx = eyy = ezz = toeplitz(e, self.h)
            exy = eyx = 0 * I
            if self.st["form"] == "tangent" and self.st["lat"]["kind"] == "1d":  # discontinuous along x
                exx = np.linalg.inv(toeplitz(1 / e, self.h))
        plain = (exx, exy, eyx, eyy) if self.st["lat"]["kind"] != "1d" else (eyy, exy, eyx, eyy)
        if t is not None:
            # normal component: inverse rule; tangential component: direct rule
            (pxx, pxy), (pyx, pyy) = normal_projector(t, self.st["form"])
            P = np.block([[toeplitz(pxx, self.h), toeplitz(pxy, self.h)], [toeplitz(pyx, self.h), toeplitz(pyy, self.h)]])
            if E["k"] == "aniso":
                det = e[0, 0] * e[1, 1] - e[0, 1] * e[1, 0]
                nu = np.block([[toeplitz(e[1, 1] / det, self.h), toeplitz(-e[0, 1] / det, self.h)], [toeplitz(-e[1, 0] / det, self.h), toeplitz(e[0, 0] / det, self.h)]])
                inv = np.linalg.inv(nu)
            else:
                inv = np.kron(np.eye(2), np.linalg.inv(toeplitz(1 / e, self.h)))
            direct = np.block([[exx, exy], [eyx, eyy]])
            (exx, exy), (eyx, eyy) = [[b for b in np.hsplit(r, 2)] for r in np.vsplit(direct - (direct - inv) @ P, 2)]
        izz = np.linalg.inv(ezz)
        # ez = izz (ky hx - kx hy) / w ; hz = (kx ey - ky ex) / w
        EzHx, EzHy = izz @ Ky / w, -izz @ Kx / w
        HzEx, HzEy = -Ky / w, Kx / w
        Z = np.zeros((n, n), complex)
        M = np.block([
            [Z, Z, Kx @ EzHx, Kx @ EzHy + w * I],
            [Z, Z, Ky @ EzHx - w * I, Ky @ EzHy],
            [Kx @ HzEx - w * eyx, Kx @ HzEy - w * eyy, Z, Z],
            [Ky @ HzEx + w * exx, Ky @ HzEy + w * exy, Z, Z],
        ])
        if E["k"] == "u":
            q = np.sqrt(complex(e) * w**2 - self.kx**2 - self.ky**2 + 0j)
            q = np.where(q.imag < 0, -q, q)
            # TE-like and TM-like plane waves of every harmonic, forward then backward
            V = np.zeros((4 * n, 4 * n), complex)
            lam = np.zeros(4 * n, complex)
            for m in range(n):
                kx, ky, qq = self.kx[m], self.ky[m], q[m]
                for t, (hx, hy) in enumerate(((1, 0), (0, 1))):
                    for dd, sg in enumerate((1, -1)):
                        c = dd * 2 * n + t * n + m
                        # from dE/dz with ez eliminated: sg q e = (rows 1, 2 of M) h
                        ex = (kx * (ky * hx - kx * hy) / (complex(e) * w) + w * hy) / (sg * qq)
                        ey = (ky * (ky * hx - kx * hy) / (complex(e) * w) - w * hx) / (sg * qq)
                        V[[m, n + m, 2 * n + m, 3 * n + m], c] = ex, ey, hx, hy
                        lam[c] = sg * qq
        else:
            lam, V = np.linalg.eig(M)
            # forward: decaying along +z, or (propagating) carrying power along +z; the choice
            # within propagating modes does not matter for inner layers
            key = np.where(np.abs(lam.imag) > 1e-9 * np.abs(lam).max(), lam.imag * 1e6, lam.real)
            o = np.argsort(-key, kind="stable")
            lam, V = lam[o], V[:, o]
        return dict(lam=lam, V=V, izz=izz, e=plain, M=M)

    # ---------------------------------------------------------------- whole stack
    def _solve(self, d):
        n = self.n
        m2 = 2 * n
        N = len(self.lay)
        size = 4 * n * (N - 1)
        A = np.zeros((size, size), complex)
        rhs = np.zeros(size, complex)
        # incident wave: electric amplitude e_inc / n0 (the amplitude is defined in vacuum)
        Ei = self.e_inc / self.n0
        k = self.k0 * self.n0 * d
        Hi = np.cross(k, Ei) / self.k0
        inc = np.zeros(4 * n, complex)
        for c, v in enumerate((Ei[0], Ei[1], Hi[0], Hi[1])):
            inc[c * n + self.zero] = v
        self.inc = inc
        col = [None] * N
        pos = 0
        for i in range(N):
            cf = cb = None
            if i > 0:
                cf = pos
                pos += m2
            if i < N - 1:
                cb = pos
                pos += m2
            col[i] = (cf, cb)
        for i in range(N - 1):
            r = slice(4 * n * i, 4 * n * (i + 1))
            a, b = self.lay[i], self.lay[i + 1]
            if i == 0:
                rhs[r] -= inc
            else:
                A[r, col[i][0]:col[i][0] + m2] += a["V"][:, :m2] * np.exp(1j * a["lam"][:m2] * self.th[i])
            A[r, col[i][1]:col[i][1] + m2] += a["V"][:, m2:]
            A[r, col[i + 1][0]:col[i + 1][0] + m2] -= b["V"][:, :m2]
            if i + 1 < N - 1:
                A[r, col[i + 1][1]:col[i + 1][1] + m2] -= b["V"][:, m2:] * np.exp(-1j * b["lam"][m2:] * self.th[i + 1])
        s = np.abs(A).max(axis=1, keepdims=True)
        x = np.linalg.solve(A / s, rhs / s[:, 0])
        self.x, self.col = x, col
        self.A, self.s = A, s

    def smatrix(self):
        """Response to every wave from above and from below, in amplitudes of (hx, hy)."""
        n, m2 = self.n, 2 * self.n
        B = np.zeros((len(self.A), 2 * m2), complex)
        B[: 4 * n, :m2] = -self.lay[0]["V"][:, :m2]
        B[-4 * n :, m2:] += self.lay[-1]["V"][:, m2:]
        X = np.linalg.solve(self.A / self.s, B / self.s)
        out, back = X[self.col[-1][0]:self.col[-1][0] + m2], X[self.col[0][1]:self.col[0][1] + m2]
        return [[out[:, :m2], out[:, m2:]], [back[:, :m2], back[:, m2:]]]

    def psi(self, i, z):
        """Tangential fields of layer i at local height z (0 at its first interface)."""
        m2 = 2 * self.n
        a = self.lay[i]
        out = np.zeros(4 * self.n, complex)
        cf, cb = self.col[i]
        if i == 0:
            g = np.sqrt(self.n0**2 * self.k0**2 - self.kx[self.zero] ** 2 - self.ky[self.zero] ** 2 + 0j)
            out += self.inc * np.exp(1j * g * z)
        else:
            out += a["V"][:, :m2] @ (self.x[cf:cf + m2] * np.exp(1j * a["lam"][:m2] * z))
        if cb is not None:
            out += a["V"][:, m2:] @ (self.x[cb:cb + m2] * np.exp(1j * a["lam"][m2:] * (z - self.th[i])))
        return out

    def fields(self, i, z):
        """[E, H] x [x, y, z] x harmonics."""
        ex, ey, hx, hy = np.split(self.psi(i, z), 4)
        ez = self.lay[i]["izz"] @ (self.ky * hx - self.kx * hy) / self.k0
        hz = (self.kx * ey - self.ky * ex) / self.k0
        return np.array([[ex, ey, ez], [hx, hy, hz]])

    def efficiencies(self):
        n = self.n
        ex, ey, hx, hy = np.split(self.psi(0, 0.0) - self.inc, 4)
        R = -(ex * hy.conj() - ey * hx.conj()).real
        ex, ey, hx, hy = np.split(self.psi(len(self.lay) - 1, 0.0), 4)
        T = (ex * hy.conj() - ey * hx.conj()).real
        ex, ey, hx, hy = np.split(self.inc, 4)
        inc = (ex * hy.conj() - ey * hx.conj()).real.sum()
        return R / inc, T / inc

    def stress(self, i, z):
        (ex, ey, ez), (hx, hy, hz) = self.fields(i, z)
        exx, exy, eyx, eyy = self.lay[i]["e"]
        dx, dy, dz = exx @ ex + exy @ ey, eyx @ ex + eyy @ ey, (self.ky * hx - self.kx * hy) / self.k0
        d = lambda a, b: float(np.vdot(b, a).real)  # noqa
        return [d(ex, dz) + d(hx, hz), d(ey, dz) + d(hy, hz),
                0.5 * (d(ez, dz) + d(hz, hz) - d(ex, dx) - d(ey, dy) - d(hx, hx) - d(hy, hy))]


def fourier_sum(F, h, shape):
    """Sum of F[k] exp(2 pi i (h1 u + h2 v)) on the grid u = i/Nx, v = j/Ny."""
    nx, ny = shape
    ax = np.exp(2j * np.pi * np.outer(np.arange(nx) / nx, h[0]))
    ay = np.exp(2j * np.pi * np.outer(np.arange(ny) / ny, h[1]))
    return np.einsum("...k,ak,bk->...ab", F, ax, ay)


def star(A, B):
    """Composition of two scattering matrices."""
    I = np.eye(A[0][1].shape[0])
    p = np.linalg.inv(I - A[0][1] @ B[1][0])
    q = np.linalg.inv(I - B[1][0] @ A[0][1])
    return [[B[0][0] @ p @ A[0][0], B[0][1] + B[0][0] @ p @ A[0][1] @ B[1][1]],
            [A[1][0] + A[1][1] @ q @ B[1][0] @ A[0][0], A[1][1] @ q @ B[1][1]]]
