"""Independent reading and evaluation of optical constants (no code of the package is used)."""
import os

import numpy as np


def parse(path):
    """('table', rows) or ('formula', name, coefficients, (low, high)), with the '# key: value' comments."""
    rows, head, started = [], {}, False
    with open(path) as f:
        for i, line in enumerate(f):
            if i == 0:
                continue
            if line.startswith('#'):
                k, _, v = line[1:].partition(':')
                if not started:
                    head[k.strip()] = v.strip()
            elif line.strip():
                started = True
                rows.append([float(x) for x in line.split()[:3]])
    kind = head.get('type', '').split()
    if kind[:1] in (['formula'], ['model']) and 'coefficients' in head and len(kind) > 1:
        lo, hi = head['range'].replace(' m', '').split(' - ')
        return dict(kind='formula', name=kind[1], c=[float(x) for x in head['coefficients'].split()], lo=float(lo), hi=float(hi), head=head)
    a = np.array(rows, dtype=float)
    return dict(kind='table', rows=a[np.argsort(a[:, 0], kind='stable')], lo=a[:, 0].min(), hi=a[:, 0].max(), head=head)


def bundled(repo):
    out = {}
    for d, _, files in os.walk(os.path.join(repo, 'meent', 'nk_data')):
        for f in files:
            if f.endswith('.txt'):
                out[f[:-4]] = parse(os.path.join(d, f))
    return out


def lookup(entry, wl):
    """n - ik of a table at one wavelength; None where two rows of the same wavelength disagree."""
    r = entry['rows']
    x = r[:, 0]
    if wl <= x[0]:
        v = r[0]
    elif wl >= x[-1]:
        v = r[-1]
    else:
        i = int(np.searchsorted(x, wl, side='left'))
        same = np.flatnonzero(x == wl)
        if len(same):
            v = r[same[0]]
            if len(same) > 1 and np.abs(r[same] - v).max() > 0:
                return None
        else:
            t = (wl - x[i - 1]) / (x[i] - x[i - 1])
            v = r[i - 1] + t * (r[i] - r[i - 1])
    if np.sum(np.abs(x - v[0]) < 1e-4 * np.abs(v[0])) > 1 and np.any(np.diff(x) == 0):
        near = np.flatnonzero(np.abs(x - wl) <= 1e-3 * wl)
        for j in near[1:]:
            if x[j] == x[j - 1] and np.abs(r[j] - r[j - 1]).max() > 0:
                return None
    return complex(v[1], -v[2])


# ------------------------------------------------------------------------------------------------ formulas
EV = 8065.54429          # cm-1 per eV of the oscillator parameters


def faddeeva(z):
    """w(z) = (i/pi) int exp(-t^2)/(z-t) dt, for Im z > 0; adaptive quadrature of the defining integral."""
    from scipy.integrate import quad
    z = complex(z)
    pts = [p for p in (z.real - 4 * z.imag, z.real, z.real + 4 * z.imag) if -9 < p < 9]
    f = lambda t: np.exp(-t * t) / (z - t)
    re = quad(lambda t: f(t).real, -9, 9, points=pts or None, limit=2000, epsabs=1e-13, epsrel=1e-12)[0]
    im = quad(lambda t: f(t).imag, -9, 9, points=pts or None, limit=2000, epsabs=1e-13, epsrel=1e-12)[0]
    return 1j / np.pi * (re + 1j * im)


def sellmeier(c, wl, squared):
    n2 = 1.0 + c[0]
    for b, p in zip(c[1::2], c[2::2]):
        pole = p * p if squared else p
        n2 += b / (1 - pole / wl ** 2)
    return np.sqrt(n2 + 0j)


def brendel_ev(c, wl, w=faddeeva):
    om = 0.01 / wl / EV
    wp, f0, g0 = c[:3]
    eps = 1 - f0 * wp * wp / (om * om + 1j * om * g0)
    for f, g, ce, sg in np.reshape(c[3:], (-1, 4)):
        a = np.sqrt(om * om + 1j * om * g)
        eps += 1j * np.sqrt(np.pi / 8) * f * wp * wp / (a * sg) * (w((a - ce) / np.sqrt(2) / sg) + w((a + ce) / np.sqrt(2) / sg))
    return np.sqrt(eps)


def brendel_cm(c, wl, w=faddeeva):
    om = 0.01 / wl
    eps = complex(c[0])
    for s, g, sg, ce in np.reshape(c[1:], (-1, 4)):
        a = np.sqrt(om * om + 1j * om * g)
        eps += 1j * np.sqrt(np.pi / 8) * s / (a * sg) * (w((a - ce) / np.sqrt(2) / sg) + w((a + ce) / np.sqrt(2) / sg))
    return np.sqrt(eps)


def graphene(ef, mobility, temp, thick, wl):
    """Falkovsky conductivity; the interband integral is evaluated as a principal-value-free difference on a fine graded grid."""
    q, kb, hb, e0, vf, c = 1.6021773349e-19, 1.38064852e-23, 1.0545718e-34, 8.85418781762039e-12, 1e6, 299792458
    T = temp * kb / q
    om = hb * 2 * np.pi * c / wl / q
    gam = hb * vf ** 2 / (mobility * 1e-4 * q * ef)

    def G(x):      # sinh(x/T) / (cosh(ef/T) + cosh(x/T)) in overflow-free form
        x = np.asarray(x, dtype=float)
        m = np.maximum(x, ef)
        s = (np.exp((x - m) / T) - np.exp((-x - m) / T))
        d = np.exp((x - m) / T) + np.exp((-x - m) / T) + np.exp((ef - m) / T) + np.exp((-ef - m) / T)
        return s / d
    half = G(om / 2)
    # graded Gauss-Legendre panels around the structure of the integrand: om/2, ef, and the far tail
    t, g = np.polynomial.legendre.leggauss(24)
    edges = {0.0, 1000.0, ef, om / 2}
    for centre, width in ((ef, T), (om / 2, max(om, T) * 1e-3), (om / 2, T)):
        for k in range(-14, 30):
            for sgn in (-1, 1):
                v = centre + sgn * width * 2.0 ** k
                if 0 < v < 1000:
                    edges.add(v)
    e = np.array(sorted(edges))
    a, b = e[:-1, None], e[1:, None]
    x = (a + b) / 2 + (b - a) / 2 * t
    w = (b - a) / 2 * g
    y = (G(x) - half) / (om ** 2 - 4 * x * x)
    inter = float(np.sum(w * y))
    sigma = 2j * q ** 2 * T / (np.pi * hb * (om + 1j * gam)) * (ef / (2 * T) + np.log1p(np.exp(-ef / T)))
    sigma += q ** 2 / (4 * hb) * (half + 4j * om / np.pi * inter)
    w0 = om * q / hb
    return np.sqrt(1 + 1j * sigma / (w0 * thick * e0))


def evaluate(entry, wl):
    """n - ik of a formula entry."""
    c = entry['c']
    if entry['name'] == '1':
        v = sellmeier(c, wl, True)
    elif entry['name'] == '2':
        v = sellmeier(c, wl, False)
    elif entry['name'] == 'brendel-bormann-ev':
        v = brendel_ev(c, wl)
    elif entry['name'] == 'brendel-bormann-cm':
        v = brendel_cm(c, wl)
    else:
        v = graphene(*c, wl)
    return np.conj(v)
