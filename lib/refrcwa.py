"""Independent reference solver used as an oracle by the monitors.

It shares no code with the package under test.  It is a scattering-matrix coupled-wave solver
written directly from Maxwell's equations in the tangential (Ex, Ey, Hx, Hy) Fourier basis:

    fields vary as exp(-i k0 (kx x + ky y)) ,  absorbing index n - ik ,  z points into the substrate,
    curl E = -i k0 H ,  curl H = +i k0 eps E        (H already multiplied by the vacuum impedance)

The package uses a transfer recursion in a rotated s/p basis; a common mistake in both would have
to be made twice, in two different formulations.

Layers are given as piecewise-constant permittivity on a rectilinear grid:
    (eps[ny, nx] or eps[ny, nx, 3], xe[nx], ye[ny])
xe, ye are the *right* edges as a fraction of the period (last one == 1); row 0 is y in [0, ye[0]].
Fourier coefficients are exact integrals; factorisation follows Li's rules (inverse rule along the
direction in which the product is discontinuous).
"""
import numpy as np


def fourier_1d(values, edges, modes):
    """Exact Fourier coefficients  int_0^1 f(x) exp(-2 pi i m x) dx  along the LAST axis of values."""
    edges = np.asarray(edges, float)
    left = np.concatenate([[0.0], edges[:-1]])
    modes = np.asarray(modes)
    basis = np.empty((len(edges), len(modes)), complex)
    for j, m in enumerate(modes):
        if m == 0:
            basis[:, j] = edges - left
        else:
            a = 2j * np.pi * m
            basis[:, j] = (np.exp(-a * left) - np.exp(-a * edges)) / a
    return values @ basis


def sampled_1d(values, repeats, modes):
    """Discrete Fourier coefficients of equal pixels along the LAST axis, each sampled `repeats` times from its left edge."""
    n = values.shape[-1] * repeats
    x = np.arange(n) / n
    return np.repeat(values, repeats, axis=-1) @ np.exp(-2j * np.pi * np.outer(x, modes)) / n


def toeplitz_index(order):
    """Matrix whose (r, c) entry is the index (into -2o..2o) of harmonic c - r."""
    k = np.arange(-order, order + 1)
    return (k[None, :] - k[:, None]) + 2 * order


def conv_matrices(eps, xe, ye, fx, fy, sampling=None):
    """Permittivity operators (x, y, z) acting on order vectors flattened y-major (index = iy*nx+ix)."""
    eps = np.asarray(eps, complex)
    if eps.ndim == 2:
        eps = np.repeat(eps[:, :, None], 3, axis=2)
    mx, my = np.arange(-2 * fx, 2 * fx + 1), np.arange(-2 * fy, 2 * fy + 1)
    tx, ty = toeplitz_index(fx), toeplitz_index(fy)
    nx, ny = 2 * fx + 1, 2 * fy + 1
    nxc = eps.shape[1]

    def ytoep(grid):      # -> [column, ny, ny]
        c = fourier_1d(grid.T, ye, my) if sampling is None else sampled_1d(grid.T, sampling[1], my)
        return c[:, ty]

    def xtoep(blocks):    # [column, ny, ny] -> [ny*nx, ny*nx]
        blocks = np.moveaxis(blocks, 0, -1)
        c = fourier_1d(blocks, xe, mx) if sampling is None else sampled_1d(blocks, sampling[0], mx)   # ny, ny, modes
        big = c[:, :, tx]                                    # ny, ny, nx, nx
        return big.transpose(0, 2, 1, 3).reshape(ny * nx, ny * nx)

    ez = xtoep(ytoep(eps[:, :, 2]))
    ey = xtoep(np.stack([np.linalg.inv(b) for b in ytoep(1 / eps[:, :, 1])]))
    ex = np.linalg.inv(xtoep(np.stack([np.linalg.inv(b) for b in ytoep(eps[:, :, 0])])))
    assert nxc == len(xe)
    return ex, ey, ez


def kz_of(n, kx, ky):
    """z wavenumber of the outgoing wave: decaying / forward (Re>0, Im<=0) in the n - ik convention."""
    v = np.sqrt(np.asarray(n, complex) ** 2 - kx ** 2 - ky ** 2 + 0j)
    flip = (v.imag > 1e-14 * (1 + abs(v))) & True
    v = np.where(flip, -v, v)
    neg = (abs(v.imag) <= 1e-14 * (1 + abs(v))) & (v.real < 0)
    return np.where(neg, -v, v)


def halfspace(n, kx, ky):
    """W=I, V with H_t = V E_t for a wave exp(-i k0 kz z) travelling to +z in a homogeneous medium."""
    n = complex(n)
    kz = kz_of(n, kx, ky)
    e = n * n
    kx = np.asarray(kx, complex)
    ky = np.asarray(ky, complex)
    # k x E = H (with exp(-ik.r): curl E = -i k0 k x E = -i k0 H)
    vxx = -kx * ky / kz
    vxy = -(ky ** 2) / kz - kz
    vyx = kz + kx ** 2 / kz
    vyy = kx * ky / kz
    del e
    return kz, np.block([[np.diag(vxx), np.diag(vxy)], [np.diag(vyx), np.diag(vyy)]])


def layer_modes(ex, ey, ez, kx, ky):
    """Modes exp(-lam k0 z), Re lam >= 0.  Returns lam, W (E_t), V (H_t) for +z modes (H = V for +, -V for -)."""
    n = len(kx)
    I = np.eye(n)
    Kx, Ky = np.diag(kx), np.diag(ky)
    ezi = np.linalg.inv(ez)
    # E' = P H , H' = Q E  with ' = d/d(k0 z)
    P = np.block([[-1j * Kx @ ezi @ Ky, -1j * I + 1j * Kx @ ezi @ Kx],
                  [1j * I - 1j * Ky @ ezi @ Ky, 1j * Ky @ ezi @ Kx]])
    Q = np.block([[1j * Kx @ Ky, 1j * ey - 1j * Kx @ Kx],
                  [-1j * ex + 1j * Ky @ Ky, -1j * Ky @ Kx]])
    lam2, W = np.linalg.eig(P @ Q)
    lam = np.sqrt(lam2 + 0j)
    # forward/decaying branch: Re>0; for purely propagating modes lam = +i kz, kz>0
    bad = (lam.real < 0) & (abs(lam.real) > 1e-13 * (1 + abs(lam)))
    lam = np.where(bad, -lam, lam)
    prop = abs(lam.real) <= 1e-13 * (1 + abs(lam))
    lam = np.where(prop & (lam.imag < 0), -lam, lam)
    V = -(Q @ W) / lam[None, :]
    return lam, W, V, ezi


class Reference:
    """Solve one structure for arbitrary incident (s, p) amplitudes.

    s vector  = (-sin phi, cos phi, 0)          p vector = (cos th cos phi, cos th sin phi, -sin th)
    (Moharam's u: E = cos(psi) p + sin(psi) s).
    """

    def __init__(self, n_top, n_bot, theta, phi, period, wavelength, layers, thickness, fto, modes=None, sampling=None):
        self.n_top, self.n_bot = complex(n_top), complex(n_bot)
        fx, fy = fto
        self.fx, self.fy = fx, fy
        self.theta, self.phi = float(theta), float(phi)
        self.period = np.asarray(period, float)
        self.wl = float(wavelength)
        self.k0 = 2 * np.pi / self.wl
        self.kx1 = self.n_top.real * np.sin(self.theta) * np.cos(self.phi) + np.arange(-fx, fx + 1) * self.wl / self.period[0]
        self.ky1 = self.n_top.real * np.sin(self.theta) * np.sin(self.phi) + np.arange(-fy, fy + 1) * self.wl / self.period[1]
        KX, KY = np.meshgrid(self.kx1, self.ky1)
        self.kx, self.ky = KX.ravel(), KY.ravel()
        self.N = len(self.kx)
        N2 = 2 * self.N
        self.kzt, self.Vt = halfspace(self.n_top, self.kx, self.ky)
        self.kzb, self.Vb = halfspace(self.n_bot, self.kx, self.ky)
        self.cond = 1.0
        # reflection operator looking down, built from the bottom: at an interface the downward
        # amplitude vector a (E_t = W a) sees reflection Gamma a.
        self.layers = []
        ops = modes if modes is not None else [
            layer_modes(*conv_matrices(e, xe, ye, fx, fy, sampling), self.kx, self.ky) for e, xe, ye in layers]
        self.ops = ops
        # bottom-up: at plane z, admittance Y with H = Y E.
        W, V = np.eye(N2), self.Vb
        E_below, H_below = W, V          # E = E_below t, H = H_below t
        T = np.eye(N2, dtype=complex)
        stack = []
        for (lam, W, V, ezi), d in list(zip(ops, thickness))[::-1]:
            Wi, Vi = np.linalg.inv(W), np.linalg.inv(V)
            A = 0.5 * (Wi @ E_below + Vi @ H_below)
            B = 0.5 * (Wi @ E_below - Vi @ H_below)
            self.cond = max(self.cond, np.linalg.cond(W), np.linalg.cond(V), np.linalg.cond(A))
            X = np.exp(-lam * self.k0 * d)
            G = B @ np.linalg.inv(A)                 # up = G down at the layer bottom
            # down(z)=exp(-lam k0 z) a ; up(z)=exp(lam k0 (z-d)) G X a
            XGX = X[:, None] * G * X[None, :]
            E_top = W @ (np.eye(N2) + XGX)
            H_top = V @ (np.eye(N2) - XGX)
            # transmitted t = A^-1 X a
            T = T @ (np.linalg.inv(A) * X[None, :])
            stack.append(dict(lam=lam, W=W, V=V, ezi=ezi, d=d, G=G, X=X, Ainv=np.linalg.inv(A)))
            E_below, H_below = E_top, H_top
        self.stack = stack[::-1]
        self.E_top, self.H_top, self.T = E_below, H_below, T
        # incident i, reflected r: i + r = E_top a ; Vt i - Vt r = H_top a
        M = np.linalg.inv(self.Vt) @ self.H_top
        self.M1 = 0.5 * (self.E_top + M)
        self.M1inv = np.linalg.inv(self.M1)
        self.cond = max(self.cond, np.linalg.cond(self.M1))

    # ---- incident vectors
    def inc(self, s, p):
        c = self.N // 2
        i = np.zeros(2 * self.N, complex)
        ct, st = np.cos(self.theta), np.sin(self.theta)
        cp, sp = np.cos(self.phi), np.sin(self.phi)
        i[c] = p * ct * cp - s * sp
        i[self.N + c] = p * ct * sp + s * cp
        return i

    def solve(self, s, p):
        i = self.inc(s, p)
        a = self.M1inv @ i
        r = self.E_top @ a - i
        t = self.T @ a
        return Solution(self, i, r, t, a)


class Solution:
    def __init__(self, ref, i, r, t, a):
        self.ref, self.i, self.r, self.t, self.a = ref, i, r, t, a
        N = ref.N
        self.shape = (2 * ref.fy + 1, 2 * ref.fx + 1)
        n_in = ref.n_top.real * np.cos(ref.theta)

        def flux(e, V):
            h = V @ e
            return (e[:N] * h[N:].conj() - e[N:] * h[:N].conj()).real

        self.p_inc = flux(i, ref.Vt)[N // 2]
        self.de_ri = (flux(r, ref.Vt) / self.p_inc).reshape(self.shape)
        self.de_ti = (flux(t, ref.Vb) / self.p_inc).reshape(self.shape)
        del n_in

    def sp(self, vec, kz, n):
        """(s, p) amplitudes of an outgoing order from tangential E.

        s along (-sin v, cos v), v = atan(ky/kx) (v in (-pi/2, pi/2], 0 when both vanish);
        p = E amplitude in the plane of k and z, taken from tangential H along s:  H_s / n."""
        N = self.ref.N
        ref = self.ref
        kx, ky = ref.kx, ref.ky
        with np.errstate(all='ignore'):
            v = np.where(kx == 0, np.where(ky == 0, 0.0, np.sign(ky) * np.pi / 2), np.arctan(ky / np.where(kx == 0, 1, kx)))
        ex, ey = vec[:N], vec[N:]
        es = -np.sin(v) * ex + np.cos(v) * ey
        et = np.cos(v) * ex + np.sin(v) * ey
        return es.reshape(self.shape), et.reshape(self.shape), v.reshape(self.shape)

    def fields(self, xs, ys, zs_frac):
        """E,H at points: list over layers of array [z, y, x, 6]; zs_frac in [0,1] inside each layer."""
        ref = self.ref
        N = ref.N
        px = np.exp(-1j * ref.k0 * np.outer(xs, ref.kx))   # [x, N]
        py = np.exp(-1j * ref.k0 * np.outer(ys, ref.ky))   # [y, N]
        out = []
        a = self.a
        for L in ref.stack:
            lam, W, V, ezi, d, G, X = (L[k] for k in ('lam', 'W', 'V', 'ezi', 'd', 'G', 'X'))
            up0 = G @ (X * a)
            vals = np.empty((len(zs_frac), len(ys), len(xs), 6), complex)
            for iz, f in enumerate(zs_frac):
                dn = np.exp(-lam * ref.k0 * d * f) * a
                up = np.exp(-lam * ref.k0 * d * (1 - f)) * up0
                E = W @ (dn + up)
                H = V @ (dn - up)
                Ex, Ey, Hx, Hy = E[:N], E[N:], H[:N], H[N:]
                Ez = -ezi @ (ref.kx * Hy - ref.ky * Hx)
                Hz = ref.kx * Ey - ref.ky * Ex
                for j, comp in enumerate((Ex, Ey, Ez, Hx, Hy, Hz)):
                    vals[iz, :, :, j] = np.einsum('yn,n,xn->yx', py, comp, px)
            out.append(vals)
            a = L['Ainv'] @ (X * a)
        return out


def raster_layer(layer):
    """ucell layer (rows listed from y = period down to 0) -> eps grid with row 0 at y = 0."""
    layer = np.asarray(layer)
    eps = layer[::-1] ** 2
    ny, nx = eps.shape[:2]
    return eps, np.arange(1, nx + 1) / nx, np.arange(1, ny + 1) / ny


def slab_stack(n_top, n_bot, n_layers, thickness, theta, wavelength):
    """Closed-form-ish s/p reflection and transmission of a homogeneous isotropic stack.

    Classic admittance (Abeles) characteristic-matrix method, scalar; returns dict with rs, ts (E amplitudes),
    rp, tp (H-amplitude ratio), and efficiencies Rs, Ts, Rp, Tp."""
    k0 = 2 * np.pi / wavelength
    b = np.real(n_top) * np.sin(theta)
    out = {}
    kz = [complex(kz_of(n, b, 0.0)) for n in [n_top, *n_layers, n_bot]]
    ns = [complex(n) for n in [n_top, *n_layers, n_bot]]
    for pol in 'sp':
        y = [k if pol == 's' else k / (n * n) for k, n in zip(kz, ns)]
        # (F, G) = (field, conjugate field); start in the substrate with unit transmitted amplitude
        F, G = 1.0 + 0j, y[-1]
        log = 0.0
        for k, yy, d in list(zip(kz[1:-1], y[1:-1], thickness))[::-1]:
            ph = k0 * k * d
            # growth-safe: factor exp(|Im ph|)
            e1, e2 = np.exp(1j * ph - abs(ph.imag)), np.exp(-1j * ph - abs(ph.imag))
            c, s = (e1 + e2) / 2, (e1 - e2) / 2j
            F, G = F * c + 1j * s * G / yy, F * 1j * s * yy + G * c
            log += abs(ph.imag)
        r = (F * y[0] - G) / (F * y[0] + G)
        t = 2 * y[0] / (F * y[0] + G) * np.exp(-log)
        out['r' + pol], out['t' + pol] = r, t
        out['R' + pol] = abs(r) ** 2
        out['T' + pol] = abs(t) ** 2 * y[-1].real / y[0].real
    return out
