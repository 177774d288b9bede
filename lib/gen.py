"""Workload generators: hostile, randomised grating problems.

A case is a plain dict of call arguments (JSON-serialisable through common.encode) so that it can be
stored in a replay file and re-run bit for bit.
"""
import numpy as np

PI = np.pi
SUBSETS = [(1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1)]      # selections of polarizations


def pick(rng, *opts):
    return opts[int(rng.integers(len(opts)))]


def rnd(rng, lo, hi):
    return float(lo + (hi - lo) * rng.random())


def index_real(rng):
    return float(pick(rng, 1.0, 1.0, 1.33, 1.45, 1.5, 2.0, 3.5, rnd(rng, 1.0, 4.0)))


def index_lossy(rng):
    kind = int(rng.integers(3))
    if kind == 0:        # weak absorber
        return complex(rnd(rng, 1.2, 4.0), -10 ** rnd(rng, -6, -1))
    if kind == 1:        # strong absorber
        return complex(rnd(rng, 1.0, 5.0), -rnd(rng, 0.1, 2.0))
    return complex(rnd(rng, 0.05, 2.0), -rnd(rng, 1.5, 6.0))   # metal


def layer_pattern(rng, ny, nx, lossy):
    kind = int(rng.integers(6))
    lo = index_real(rng) if rng.random() < .5 else 1.0
    hi = index_lossy(rng) if lossy and rng.random() < .7 else rnd(rng, 1.5, 4.0)
    if kind == 0:
        cell = np.where(rng.random((ny, nx)) < .5, lo, hi)
    elif kind == 1:      # single block, not centred
        cell = np.full((ny, nx), lo, dtype=complex)
        a, b = sorted(rng.integers(0, nx + 1, 2))
        c, d = sorted(rng.integers(0, ny + 1, 2))
        cell[c:max(d, c + 1), a:max(b, a + 1)] = hi
    elif kind == 2:      # grey levels
        cell = 1.0 + 2.5 * rng.random((ny, nx)) + 0j
        if lossy:
            cell = cell - 1j * 0.5 * rng.random((ny, nx))
    elif kind == 3:      # uniform slab
        cell = np.full((ny, nx), hi, dtype=complex)
    elif kind == 4:
        vals = np.array([lo, hi, rnd(rng, 1.1, 3.0)], dtype=complex)
        cell = vals[rng.integers(0, 3, (ny, nx))]
    elif lossy and rng.random() < .5:      # pixels that agree in the real part or in the magnitude only
        k = np.array([0.0, 1.0, .3])[rng.integers(0, 3, (ny, nx))] * abs(complex(hi).imag or .4)
        cell = complex(hi).real - 1j * k if rng.random() < .5 else abs(hi) * np.exp(-1j * np.minimum(k, 1.4))
    else:                                  # neighbours that differ minutely
        cell = np.where(rng.random((ny, nx)) < .5, lo, hi) * (1 + 10 ** rnd(rng, -7, -3) * rng.random((ny, nx)))
    return np.asarray(cell, dtype=complex)


def angles(rng, hostile=True):
    t = int(rng.integers(8))
    if t == 0:
        th = 0.0
    elif t == 1 and hostile:
        th = float(pick(rng, 1e-12, 1e-6, 89.0 * PI / 180, 85.0 * PI / 180))
    elif t == 2:
        th = -rnd(rng, 0.05, 1.2)
    else:
        th = rnd(rng, 0.02, 1.4)
    return th


def portion(rng):
    """A polarization portion; now and then all but pure."""
    t = 10 ** rnd(rng, -7, -2)
    return float(pick(rng, 0.0, 1.0, 0.5, rnd(rng, 0, 1), rnd(rng, 0, 1), rnd(rng, 0, 1), t if rng.random() < .5 else 1 - t))


def azimuth(rng):
    p = int(rng.integers(8))
    if p == 3 and rng.random() < .3:       # barely conical
        return 10 ** rnd(rng, -7, -2)
    return float(pick(rng, 0.0, PI / 2, PI, PI / 4, -PI / 2)) if p < 3 else rnd(rng, -PI, 2 * PI)


def grating(rng, dim=None, lossy=None, lossy_bot=None, max_layers=3, shapes=None, hostile=True, scale=True,
            zero_thickness=True, n_top=None, big=.07):
    """dim: '1d' (scalar TE/TM), 'con' (1D grating, conical/mixed), '2d'. big: share of problems with many layers, pixels or orders."""
    dim = dim or pick(rng, '1d', 'con', '2d')
    if lossy is None:
        lossy = rng.random() < .4
    if lossy_bot is None:
        lossy_bot = lossy and rng.random() < .4
    wl = float(pick(rng, 1.0, 900.0, 1.55e-6, 0.5)) if scale else 1.0
    if scale and rng.random() < .5:
        wl *= rnd(rng, .5, 2.0)
    px = wl * rnd(rng, 0.3, 2.6)
    py = wl * rnd(rng, 0.3, 2.6)
    nl = int(rng.integers(1, max_layers + 1))
    if shapes is not None:
        ny, nx, fto, nl = shapes
    else:
        nx = int(rng.integers(1, 9))
        if dim == '2d':
            ny = int(rng.integers(2, 6))
            fto = [int(rng.integers(0, 4)), int(rng.integers(0, 4))]
        else:
            ny = 1
            fto = [int(rng.integers(0, 9)), 0]
        if rng.random() < big:
            k = int(rng.integers(5))
            if k == 0:
                nl = int(rng.integers(max_layers + 1, 13))
            elif k == 1:
                nx = int(rng.integers(9, 41))
            elif k == 2 and dim == '2d':
                ny = int(rng.integers(6, 17))
            elif k == 3 and dim == '2d':
                fto = [int(v) for v in rng.permutation([int(rng.integers(4, 7)), int(rng.integers(0, 3))])]
            elif dim != '2d':
                fto = [int(rng.integers(9, 19)), 0]
            if rng.random() < .3:
                px, py = px * rnd(rng, 1, 3), py * rnd(rng, 1, 3)
    ucell = np.stack([layer_pattern(rng, ny, nx, lossy) for _ in range(nl)])
    for i in range(1, nl):                 # layers built from the same values
        k = int(rng.integers(12))
        if k == 0:
            ucell[i] = np.roll(ucell[i - 1], 1, axis=1)
        elif k == 1:
            ucell[i] = ucell[i - 1][::-1, ::-1]
        elif k == 2:
            ucell[i] = ucell[i - 1]
    if not np.any(ucell.imag):
        ucell = ucell.real.copy()
    thick = []
    for _ in range(nl):
        k = int(rng.integers(8))
        if k == 0 and zero_thickness:
            thick.append(0.0)
        elif k == 1:
            thick.append(wl * rnd(rng, 1.0, 3.0))
        elif k == 2 and hostile and rng.random() < .4:       # a few atoms
            thick.append(wl * 10 ** rnd(rng, -6, -2))
        else:
            thick.append(wl * rnd(rng, 0.02, 0.8))
    case = dict(n_top=index_real(rng) if n_top is None else n_top,
                n_bot=index_lossy(rng) if lossy_bot else index_real(rng),
                theta=angles(rng, hostile), phi=azimuth(rng),
                period=[px, py], wavelength=wl, ucell=ucell, thickness=thick, fto=fto,
                fourier_type=int(pick(rng, 0, 1)), pol=0)
    if dim == '1d':
        case['phi'] = None
        case['pol'] = int(pick(rng, 0, 1))
    else:
        case['pol'] = portion(rng)
    return case


# ---------------------------------------------------------------------------------------------- shapes for compiled backends
# (dim, ny, nx, fto, layers): a small pool, because every new shape costs a compilation on the JAX backend
JAX_POOL = [('1d', 1, 5, [3, 0], 2), ('con', 1, 4, [2, 0], 2), ('2d', 2, 3, [1, 1], 2), ('2d', 3, 2, [2, 1], 1),
            ('con', 1, 3, [1, 0], 3), ('2d', 3, 3, [0, 2], 1), ('1d', 1, 4, [1, 0], 1), ('2d', 2, 2, [1, 0], 3)]


def pooled(rng, lane, **kw):
    dim, ny, nx, fto, nl = JAX_POOL[lane % len(JAX_POOL)]
    return grating(rng, dim=kw.pop('dim', dim), shapes=(ny, nx, list(fto), nl), **kw)


def any_case(rng, backend, lane=0, free=.12, **kw):
    """A hostile random raster case; on JAX mostly drawn from the shape pool of its lane."""
    if backend == 1 and rng.random() >= free:
        return pooled(rng, lane, **kw)
    if backend == 1:
        kw.setdefault('dim', JAX_POOL[lane % len(JAX_POOL)][0])
        kw.setdefault('big', .3)
    return grating(rng, **kw)


def options(rng, case, pinv=True):
    """Solver options that must not change the physics."""
    if pinv and rng.random() < .2:
        case['use_pinv'] = True
    if rng.random() < .15:
        case['enhanced_dfs'] = False
    return case


def boxes(rng, period, n, lossy=False, touch=True):
    """n random axis-aligned rectangles inside the cell: (x0, x1, y0, y1, index)."""
    out = []
    px, py = period
    for _ in range(n):
        def span():
            if touch and rng.random() < .25:      # coordinates on a coarse grid: shared edges, cell borders
                a, b = sorted(rng.choice(5, 2, replace=False) / 4.0)
            else:
                a, b = sorted(rng.random(2) * .94 + .03)
                if b - a < .05:
                    b = min(a + .05, .98)
            return a, b
        xa, xb = span()
        ya, yb = span()
        idx = index_lossy(rng) if lossy and rng.random() < .5 else rnd(rng, 1.3, 3.6)
        out.append((float(xa * px), float(xb * px), float(ya * py), float(yb * py), idx))
    return out


def vector_layer(rng, base, bxs):
    """Vector instruction of a layer; the same box is written in one of several equivalent spellings."""
    objs = []
    for x0, x1, y0, y1, idx in bxs:
        cx, cy, lx, ly = (x0 + x1) / 2, (y0 + y1) / 2, x1 - x0, y1 - y0
        k = int(rng.integers(4)) if rng is not None else 0
        if k == 0:
            objs.append(['rectangle', cx, cy, lx, ly, idx])
        elif k == 1:
            objs.append(['rectangle', cx, cy, lx, ly, idx, 0, 3, 3])
        elif k == 2:
            objs.append(['rectangle', cx, cy, ly, lx, idx, PI / 2])
        else:
            objs.append(['rectangle', cx, cy, lx, ly, idx, PI])
    return [base, objs]


def box_grid(base, bxs, period):
    """The same layer as a rectilinear permittivity grid for the reference (painter's order)."""
    px, py = period
    xs = sorted({0.0, 1.0, *(b[0] / px for b in bxs), *(b[1] / px for b in bxs)})
    ys = sorted({0.0, 1.0, *(b[2] / py for b in bxs), *(b[3] / py for b in bxs)})
    xs = [v for i, v in enumerate(xs) if i == 0 or v - xs[i - 1] > 1e-12]
    ys = [v for i, v in enumerate(ys) if i == 0 or v - ys[i - 1] > 1e-12]
    xe, ye = np.array(xs[1:]), np.array(ys[1:])
    xe[-1] = ye[-1] = 1.0
    xm = (np.array(xs[:-1]) + xe) / 2
    ym = (np.array(ys[:-1]) + ye) / 2
    n = np.full((len(ye), len(xe)), base, dtype=complex)
    for x0, x1, y0, y1, idx in bxs:
        sel = ((ym * py > y0) & (ym * py < y1))[:, None] & ((xm * px > x0) & (xm * px < x1))[None, :]
        n[sel] = idx
    return n ** 2, xe, ye


def orders(case):
    """(kx, ky) of every order in units of the vacuum wavenumber, shaped (2fy+1, 2fx+1)."""
    fx, fy = case['fto']
    px, py = case['period']
    phi = case['phi'] or 0.0
    nt = np.real(case['n_top'])
    kx = nt * np.sin(case['theta']) * np.cos(phi) + np.arange(-fx, fx + 1) * case['wavelength'] / px
    ky = nt * np.sin(case['theta']) * np.sin(phi) + np.arange(-fy, fy + 1) * case['wavelength'] / py
    return np.meshgrid(kx, ky)


def cutoff_gap(case):
    """Distance of the nearest order from grazing emergence, |n^2 - k^2|, over both half-spaces."""
    kx, ky = orders(case)
    g = [np.abs(complex(case[n]) ** 2 - kx ** 2 - ky ** 2).min() for n in ('n_top', 'n_bot')]
    return min(g)


def propagating(case, side):
    kx, ky = orders(case)
    n = case['n_top'] if side == 'top' else case['n_bot']
    return np.real(n) ** 2 - kx ** 2 - ky ** 2


def deck(prop, seed, tier, numpy=(40, 8), torch=(40, 4), jax=4, kind='rnd', lanes=8, scale=8):
    """Standard workload: numpy/torch = (jobs, cases per job); jax = cases per shape lane.  thorough multiplies by scale."""
    f = 1 if tier == 'quick' else scale
    out = []
    for i in range(jax * f if jax else 0):
        for lane in range(lanes):
            out.append(dict(kind=kind, b=1, seed=seed, i=i, n=1, lane=f'j{lane}', ln=lane))
    for b, cfg in ((0, numpy), (2, torch)):
        if cfg:
            out += [dict(kind=kind, b=b, seed=seed, i=i, n=cfg[1]) for i in range(cfg[0] * f)]
    return out


def vectorise(rng, case, lossy=False, most=4):
    """Replace the cell of a case by random boxes; keeps the equivalent grids for the reference in case['geom']."""
    cells, geom = [], []
    for _ in case['thickness']:
        base = index_real(rng)
        bx = boxes(rng, case['period'], int(rng.integers(0, most)), lossy=lossy)
        cells.append(vector_layer(rng, base, bx))
        geom.append(box_grid(base, bx, case['period']))
    case['ucell'], case['geom'] = cells, geom
    return case


def big(rng, b, lane=0, **kw):
    """High truncation, many layers, large cells."""
    if b == 1:
        dim, ny, nx, fto, nl = [('1d', 1, 40, [11, 0], 4), ('2d', 5, 7, [2, 3], 2), ('con', 1, 24, [9, 0], 5)][lane % 3]
        return grating(rng, dim=dim, shapes=(ny, nx, list(fto), nl), **kw)
    dim = pick(rng, '1d', 'con', '2d')
    shapes = None
    if rng.random() < .5:
        nl = int(rng.integers(1, 5))
        shapes = (int(rng.integers(6, 20)), int(rng.integers(8, 30)), [1, 1], nl) if dim == '2d' else (1, int(rng.integers(20, 150)), [1, 0], nl)
    case = grating(rng, dim=dim, shapes=shapes, max_layers=6, **kw)
    case['fto'] = [int(rng.integers(9, 24)), 0] if dim != '2d' else [int(rng.integers(2, 6)), int(rng.integers(2, 5))]
    return case
