"""Equivalent descriptions of one cell."""
import numpy as np

import gen
import oracle
from drive import rng_of, solve

RULE = ('a random cell is solved as given and re-described: pixels subdivided, several periods taken as one, drawn with vector rectangles, rectangles split, repeated, '
        'reordered, hidden behind later ones or painted in the base index; edges exactly on the borders, on each other and at the period of the other axis; painted overlaps are compared with the reference solution of '
        'the visible areas; the sampled Fourier method is compared with an independent solution using the same samples and with the '
        'exact one under refinement. Distinct by input and variant.')
ASSUMPTIONS = ['samples of the sampled method are taken at least 4*order+1 times per period (times the pixel count if enhanced)',
               'cases where the reference is ill-conditioned (>1e9) are inconclusive']
EXPECT = ['subdivide', 'draw', 'split', 'reorder', 'hidden', 'painted', 'sampled', 'refine', 'special', 'supercell']
VARIANTS = ['subdivide', 'draw', 'split', 'reorder', 'hidden', 'painted', 'sampled', 'refine', 'special', 'supercell']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    jobs = []
    for i in range(2 * f):
        for l, v in enumerate(VARIANTS):
            jobs.append(dict(kind='v', b=1, seed=seed, i=i, n=2, lane=f'j{l}', ln=l, v=[v]))
    for b in (0, 2):
        jobs += [dict(kind='v', b=b, seed=seed, i=i, n=3 if b == 0 else 2, v=VARIANTS) for i in range((72 if b == 0 else 56) * f)]
    return jobs


def real_or_complex(z):
    return complex(z) if np.imag(z) else float(np.real(z))


def pixels(layer, period, skip_first=True):
    """One rectangle per pixel of a raster layer (row 0 is at the top)."""
    ny, nx = layer.shape
    px, py = period
    objs = []
    for r in range(ny):
        for c in range(nx):
            if layer[r, c] == layer[-1, 0] and skip_first:
                continue
            objs.append(['rectangle', (c + .5) * px / nx, (ny - r - .5) * py / ny, px / nx, py / ny, real_or_complex(layer[r, c])])
    return [real_or_complex(layer[-1, 0]), objs]


def special(rng, period, n):
    """Boxes whose edges coincide: with the borders, with each other, with the other axis's period and its fractions."""
    px, py = period
    xs = [0.0, px] + [v for v in (py, py / 2, px / 2, px / 4) if 0 < v < px]
    ys = [0.0, py] + [v for v in (px, px / 2, py / 2, py / 4) if 0 < v < py]
    out = []
    for _ in range(n):
        x0, x1 = sorted(rng.choice(xs, 2, replace=False))
        y0, y1 = sorted(rng.choice(ys, 2, replace=False))
        if rng.random() < .3:
            x0, x1 = sorted((px * gen.rnd(rng, .1, .9), float(gen.pick(rng, *xs))))
        if rng.random() < .3:
            y0, y1 = sorted((py * gen.rnd(rng, .1, .9), float(gen.pick(rng, *ys))))
        out.append((float(x0), float(x1), float(y0), float(y1), gen.rnd(rng, 1.3, 3.6)))
    return out


def supercell(mon, rng, b, case, tol):
    """The same structure with several periods taken as one: old orders unchanged, new ones empty."""
    one = case['ucell'].shape[1] == 1
    case['fto'] = [min(f, 5 if one else 2) for f in case['fto']]
    kx, ky = int(rng.integers(1, 4)), 1 if one else int(rng.integers(1, 3))
    if kx * ky == 1:
        kx = 2
    fx, fy = case['fto']
    big = dict(case, period=[case['period'][0] * kx, case['period'][1] * ky], fto=[kx * fx + int(rng.integers(kx)), ky * fy + int(rng.integers(ky))])
    if not one and b != 1 and rng.random() < .4:
        px, py = case['period']
        small, wide = [], []
        for _ in case['thickness']:
            base, bx = gen.index_real(rng), gen.boxes(rng, case['period'], int(rng.integers(1, 3)))
            small.append(gen.vector_layer(rng, base, bx))
            wide.append(gen.vector_layer(rng, base, [(x0 + i * px, x1 + i * px, y0 + j * py, y1 + j * py, n) for i in range(kx) for j in range(ky) for x0, x1, y0, y1, n in bx]))
        case['ucell'], big['ucell'] = small, wide
    else:
        big['ucell'] = np.tile(case['ucell'], (1, ky, kx))
    if gen.cutoff_gap(big) < 1e-4:
        return mon.skip('near cutoff')
    mon.case(dict(case=big, v='supercell'))
    a, o = solve(b, case), solve(b, big)
    cx, cy = big['fto']
    ix, iy = cx + kx * np.arange(-fx, fx + 1), cy + ky * np.arange(-fy, fy + 1)
    for (n, s), (_, t) in zip(a.subs(), o.subs()):
        for k in ('de_ri', 'de_ti'):
            w = np.zeros(getattr(t, k).shape)
            w[np.ix_(iy, ix)] = getattr(s, k)
            mon.near('supercell', getattr(t, k), w, 10 * tol, part=k, which=n, case=big, k=(kx, ky), backend=b)


def run_job(job, mon):
    b, ln = job['b'], job.get('ln', 0)
    for c in range(job['n']):
        rng = rng_of('C07', job['seed'], b, job['i'], c, ln)
        tol = 1e-6 if b == 2 else 1e-8
        for v in job['v']:
            ctx = dict(backend=b)
            if v in ('subdivide', 'draw', 'sampled', 'refine', 'supercell'):
                case = gen.pooled(rng, gen.pick(rng, 2, 3) if v != 'draw' else 3) if b == 1 else gen.grating(rng, max_layers=2)
                if b == 1 and v == 'sampled':
                    case = gen.pooled(rng, [0, 2][c % 2])
                case['fourier_type'] = 0 if v in ('sampled', 'refine') else 1
            else:
                case = gen.pooled(rng, 3) if b == 1 else gen.grating(rng, dim='2d', max_layers=2)
                case['fourier_type'] = 1
            if v == 'subdivide':
                m, k = (2, 2) if b == 1 else (int(rng.integers(1, 6)), int(rng.integers(1, 6)))
                one = case['ucell'].shape[1] == 1
                d = dict(case, ucell=np.repeat(np.repeat(case['ucell'], m, axis=2), 1 if one else k, axis=1))
                mon.case(dict(case=d, v=v))
                oracle.same(mon, v, b, case, solve(b, case), solve(b, d), tol)
            elif v == 'supercell':
                supercell(mon, rng, b, case, tol)
            elif v == 'draw':
                if case['phi'] is None:
                    case['phi'] = 0.0
                if case['ucell'].shape[1] * case['ucell'].shape[2] > 24:
                    case['ucell'] = case['ucell'][:, :3, :6]
                d = dict(case, ucell=[pixels(l, case['period'], rng.random() < .7) for l in case['ucell']])
                mon.case(dict(case=d, v=v))
                oracle.same(mon, v, b, case, solve(b, case), solve(b, d), tol)
            elif v == 'sampled':
                if b != 1 and rng.random() < .4:
                    case['enhanced_dfs'] = False
                    if rng.random() < .4:        # more pixels than samples needed
                        one = case['ucell'].shape[1] == 1
                        case['ucell'] = np.stack([gen.layer_pattern(rng, 1 if one else int(rng.integers(3, 15)), int(rng.integers(5, 40)), False).real])
                        case['thickness'] = list(case['thickness'])[:1]
                mon.case(dict(case=case, v=v))
                ref = oracle.reference(dict(case, sampling=oracle.sampling_of(case)))
                if ref.cond > 1e9:
                    mon.skip('reference ill-conditioned')
                    continue
                oracle.compare(mon, 'sampled', b, case, solve(b, case), tol * 10, ref=ref)
            elif v == 'refine':
                if b == 1 and c:
                    continue
                if b != 1 and rng.random() < .8:
                    continue
                one = case['ucell'].shape[1] == 1
                exact = solve(b, case, fourier_type=1)
                errs = []
                for m in ((1, 20) if b == 1 else (1, 6, 60)):
                    u = np.repeat(np.repeat(case['ucell'], m, axis=2), 1 if one else m, axis=1)
                    o = solve(b, case, ucell=u)
                    errs.append(max(np.abs(o.R - exact.R).max(), np.abs(o.T - exact.T).max()))
                mon.case(dict(case=case, v=v))
                mon.near('refine', errs[-1], 0.0, max(1e-9, .25 * errs[0], 1e-3), case=case, errs=errs, **ctx)
            else:
                lossy = rng.random() < .3
                nb = {'split': 2, 'reorder': 3, 'hidden': 2, 'painted': 3, 'special': 1 + int(b != 1 and rng.random() < .4)}[v]
                lay, alt, geom = [], [], []
                if v == 'special':        # lengths exact in binary, so that coincidences are exact
                    case['period'] = [float(w) for w in case['wavelength'] * rng.choice([.5, .75, 1, 1.25, 1.5, 2], 2)]
                    if gen.cutoff_gap(case) < 1e-4:
                        mon.skip('near cutoff')
                        continue
                for _ in case['thickness']:
                    base = gen.index_real(rng)
                    px, py = case['period']
                    bx = gen.boxes(rng, case['period'], nb, lossy=lossy) if v != 'special' else special(rng, case['period'], nb)
                    if v == 'reorder':       # keep only disjoint boxes: columns of the cell
                        e = np.sort(rng.random(6)) * .9 + .05
                        bx = [(float(e[2 * i] * px), float(e[2 * i + 1] * px), q[2], q[3], q[4]) for i, q in enumerate(bx)]
                    one = gen.vector_layer(rng, base, bx)
                    lay.append(one)
                    geom.append(gen.box_grid(base, bx, case['period']))
                    if v == 'split':
                        out = []
                        for x0, x1, y0, y1, idx in bx:
                            s = x0 + (x1 - x0) * gen.rnd(rng, .2, .8)
                            t = y0 + (y1 - y0) * gen.rnd(rng, .2, .8)
                            if rng.random() < .5:
                                out += [(x0, s, y0, y1, idx), (s, x1, y0, y1, idx)]
                            else:
                                out += [(x0, x1, y0, t, idx), (x0, x1, t, y1, idx)]
                        alt.append(gen.vector_layer(rng, base, out))
                    elif v == 'reorder':
                        alt.append(gen.vector_layer(rng, base, [bx[i] for i in rng.permutation(len(bx))]))
                    elif v == 'hidden':
                        x0, x1, y0, y1, idx = bx[-1]
                        f1, f2 = sorted(rng.random(2))
                        g1, g2 = sorted(rng.random(2))
                        inner = (x0 + f1 * (x1 - x0), x0 + f2 * (x1 - x0), y0 + g1 * (y1 - y0), y0 + g2 * (y1 - y0), gen.rnd(rng, 1, 4))
                        kind = int(rng.integers(3))
                        new = [*bx[:-1], inner, bx[-1]] if kind == 0 else [bx[-1], *bx] if kind == 1 and nb < 2 else [*bx, bx[-1]]
                        alt.append(gen.vector_layer(rng, base, [tuple(float(w) if i < 4 else w for i, w in enumerate(q)) for q in new]))
                case['ucell'] = lay
                mon.case(dict(case=case, v=v))
                a = solve(b, case)
                if v in ('painted', 'special'):
                    oracle.compare(mon, v, b, dict(case, geom=geom), a, tol * 10)
                    continue
                oracle.same(mon, v, b, case, a, solve(b, dict(case, ucell=alt)), tol * 10)
                oracle.compare(mon, v, b, dict(case, geom=geom), a, tol * 10)
