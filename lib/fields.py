"""Field maps of the package, translated to the reference convention (exp(-ik.r), z into the substrate)."""
import numpy as np

from drive import Out, make, tonp


def grid(case, res, scalar):
    """Sample points of a field map: x, y (listed top row first), z as a fraction of each layer."""
    rx, ry, rz = res
    px, py = case['period']
    if scalar:
        ry = 1
    return np.linspace(0, px, rx), np.linspace(0, py, ry)[::-1], np.linspace(0, 1, rz)


def to_ref(raw, backend, scalar, case):
    """[selected, z, y, x, 6] in the reference convention."""
    f = tonp(raw)
    n = complex(case['n_top'])
    pol = case.get('pol', 0) if case.get('psi') is None else 1 - 2 * case['psi'] / np.pi
    tm = abs(pol - 1) < 1e-9
    if backend == 2:
        f = np.conj(f) * np.array([-1, 1, 1, -1, 1, 1])
        if scalar:
            f = f[None] * (n if tm else 1)
    elif scalar:
        g = np.zeros((1,) + f.shape[:-1] + (6,), complex)
        if tm:
            g[0, ..., 4], g[0, ..., 0], g[0, ..., 2] = f[..., 0] * n, -f[..., 1] * n, f[..., 2] * n
        else:
            g[0, ..., 1], g[0, ..., 3], g[0, ..., 5] = f[..., 0], -f[..., 1], f[..., 2]
        f = g
    else:
        f = f * np.array([1, 1, -1, -1, -1, 1])
    if not scalar and np.cos(case['phi'] or 0.0) < 0:
        f = -f
    return f


def solve_field(backend, case, res=(20, 20, 20), select=(True, False, False), **over):
    mee = make(backend, case, **over)
    r, raw = mee.conv_solve_field(res_x=res[0], res_y=res[1], res_z=res[2], set_field_input=select)
    out = Out(r, mee)
    return out, to_ref(raw, backend, out.te is None, case), tonp(raw)


def flux(f, case):
    """Power per unit area crossing each z plane, relative to the incident wave: exact mean over the cell.

    f: [z, y, x, 6] sampled with at least 2*fto+2 intervals per period; the duplicated end points are dropped."""
    g = f[:, :, :-1] if f.shape[2] > 1 else f
    g = g[:, 1:] if g.shape[1] > 1 else g
    s = (g[..., 0] * g[..., 4].conj() - g[..., 1] * g[..., 3].conj()).real.mean(axis=(1, 2))
    return s / (np.real(case['n_top']) * np.cos(case['theta']))
