"""Exact modal method for lossless lamellar gratings (piecewise constant profiles): no Fourier series of the permittivity at all.

The modes of each layer are the exact solutions of the one-dimensional wave equation across the cell (roots of the
characteristic equation), matched to plane waves at the interfaces.  Units of 1/k0; convention exp(-i k.r), z into the substrate.
"""
import numpy as np
from scipy.optimize import brentq


class Layer:
    def __init__(self, eps, edges, kx0, pol, modes):
        """eps: segments; edges: right ends (last = period), in units of 1/k0."""
        self.eps = np.asarray(eps, float)
        self.x1 = np.asarray(edges, float)
        self.x0 = np.concatenate([[0.0], self.x1[:-1]])
        self.w = self.x1 - self.x0
        self.p = self.x1[-1]
        self.kx0, self.tm = kx0, pol == 1
        self.s = self.eps if self.tm else np.ones(len(self.eps))
        self.g = self.roots(modes)
        self.u = [self.mode(g) for g in self.g]

    def segs(self, g):
        q = np.sqrt(self.eps - g + 0j)
        q = np.where(np.abs(q) < 1e-9, 1e-9, q)
        c, sn = np.cos(q * self.w), np.sin(q * self.w)
        return q, c, sn

    def monodromy(self, g):
        q, c, sn = self.segs(g)
        M = np.eye(2, dtype=complex)
        for j in range(len(q)):
            M = np.array([[c[j], self.s[j] * sn[j] / q[j]], [-q[j] / self.s[j] * sn[j], c[j]]]) @ M
        return M

    def traces(self, gs):
        q = np.sqrt(self.eps[None] - gs[:, None] + 0j)
        q = np.where(np.abs(q) < 1e-9, 1e-9, q)
        c, sn = np.cos(q * self.w), np.sin(q * self.w)
        a, b, cc, d = (np.ones(len(gs), complex), np.zeros(len(gs), complex), np.zeros(len(gs), complex), np.ones(len(gs), complex))
        for j in range(len(self.eps)):
            m11, m12, m21, m22 = c[:, j], self.s[j] * sn[:, j] / q[:, j], -q[:, j] / self.s[j] * sn[:, j], c[:, j]
            a, b, cc, d = m11 * a + m12 * cc, m11 * b + m12 * d, m21 * a + m22 * cc, m21 * b + m22 * d
        return (a + d).real

    def roots(self, modes):
        target = 2 * np.cos(self.kx0 * self.p)
        top = self.eps.max()
        step = np.pi / self.p / 400
        need = (np.pi / self.p * (modes + 4)) + np.sqrt(top)
        # uniform in sqrt(top - g)
        r = np.arange(1e-7, need, min(step, np.sqrt(top) / 400))
        gs = top - r ** 2
        f = self.traces(gs) - target
        k = np.flatnonzero(np.sign(f[:-1]) != np.sign(f[1:]))
        out = [brentq(lambda v: self.traces(np.array([top - v * v]))[0] - target, r[i], r[i + 1], xtol=1e-14, rtol=1e-14) for i in k]
        g = top - np.array(out) ** 2
        if len(g) < modes:
            raise np.linalg.LinAlgError('modes missing')
        return g[:modes]

    def mode(self, g):
        M = self.monodromy(g)
        lam = np.exp(-1j * self.kx0 * self.p)
        A = M - lam * np.eye(2)
        _, _, vh = np.linalg.svd(A)
        y = vh[-1].conj()
        q, c, sn = self.segs(g)
        pairs = []
        for j in range(len(q)):
            u, v = y
            # u cos q(x-x0) + s v sin q(x-x0) / q  =  P e^{iq(x-x0)} + N e^{-iq(x-x0)}
            h = self.s[j] * v / q[j] / 1j
            pairs.append(((u + h) / 2, (u - h) / 2, q[j]))
            y = np.array([c[j] * u + self.s[j] * sn[j] / q[j] * v, -q[j] / self.s[j] * sn[j] * u + c[j] * v])
        return pairs

    def overlap(self, kxs, weighted):
        """(1/p) int exp(+i kx_m x) u_n(x) [/eps] dx."""
        out = np.zeros((len(kxs), len(self.u)), complex)
        for n, pairs in enumerate(self.u):
            for j, (P, N, q) in enumerate(pairs):
                w = 1 / self.eps[j] if weighted and self.tm else 1.0
                for amp, k in ((P, q), (N, -q)):
                    e = 1j * (kxs + k)
                    e = np.where(np.abs(e) < 1e-12, 1e-12, e)
                    out[:, n] += w * amp * np.exp(1j * kxs * self.x0[j]) * (np.exp(e * self.w[j]) - 1) / e
        return out / self.p


def efficiencies(n_top, n_bot, layers, thickness, period, wavelength, theta, pol, orders):
    """R, T of orders -orders..orders.  layers: [(eps, edges as fractions)], top first."""
    k0 = 2 * np.pi / wavelength
    kxs = n_top * np.sin(theta) + np.arange(-orders, orders + 1) * wavelength / period
    M = len(kxs)

    def kz(n):
        v = np.sqrt(n * n - kxs ** 2 + 0j)
        return np.where(v.imag > 0, -v, v)
    kt, kb = kz(n_top), kz(n_bot)
    yt, yb = (kt / n_top ** 2, kb / n_bot ** 2) if pol == 1 else (kt, kb)
    # at the top of what lies below: field F = E a, conjugate field G = H a (columns)
    F, G = np.eye(M, dtype=complex), np.diag(yb)
    back = np.eye(M, dtype=complex)
    for (eps, edges), d in list(zip(layers, thickness))[::-1]:
        L = Layer(eps, np.asarray(edges) * period * k0, kxs[orders], pol, M)
        W, Q = L.overlap(kxs, False), L.overlap(kxs, True)
        kap = np.sqrt(L.g + 0j)
        kap = np.where(kap.imag > 0, -kap, kap)
        V = Q * kap[None, :]
        Wi, Vi = np.linalg.inv(W), np.linalg.inv(V)
        A, B = .5 * (Wi @ F + Vi @ G), .5 * (Wi @ F - Vi @ G)
        X = np.exp(-1j * kap * k0 * d)
        Ai = np.linalg.inv(A)
        gam = X[:, None] * (B @ Ai) * X[None, :]
        back = back @ (Ai * X[None, :])
        F, G = W @ (np.eye(M) + gam), V @ (np.eye(M) - gam)
    i = np.zeros(M, complex)
    i[orders] = 1
    a = np.linalg.solve(np.diag(yt) @ F + G, 2 * yt * i)
    r = F @ a - i
    t = back @ a
    den = yt[orders].real
    return np.abs(r) ** 2 * yt.real / den, np.abs(t) ** 2 * yb.real / den
