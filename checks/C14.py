"""Diagonal anisotropy (PyTorch backend)."""
import numpy as np

import gen
import oracle
import refrcwa as rr
from drive import rng_of, solve

RULE = ('random cells with separate x, y, z indices (raster with exact and sampled Fourier coefficients, vector rectangles mixing scalar '
        'and three-component indices; scalar, conical and 2D incidence; absorbing and weakly anisotropic media) compared order by order with an independent '
        'Maxwell solution for that diagonal permittivity; equal components compared with the isotropic cell; uniform films compared with '
        'the closed-form ordinary/extraordinary result. Distinct by input.')
ASSUMPTIONS = ['index differences below 1e-5 between the axes may be solved as isotropic',
               'cases where the reference is ill-conditioned (>1e9) are inconclusive']
EXPECT = ['raster R', 'raster T', 'sampled R', 'vector R', 'equal', 'film', 'axis matters']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    return ([dict(kind='raster', b=2, seed=seed, i=i, n=4) for i in range(200 * f)]
            + [dict(kind='sampled', b=2, seed=seed, i=i, n=3) for i in range(120 * f)]
            + [dict(kind='vector', b=2, seed=seed, i=i, n=4) for i in range(120 * f)]
            + [dict(kind='equal', b=2, seed=seed, i=i, n=4) for i in range(120 * f)]
            + [dict(kind='film', b=2, seed=seed, i=i, n=6) for i in range(120 * f)])


def split(rng, u, strength=None):
    """Give every axis its own index: a per-axis factor, a per-pixel one, or an unrelated pattern."""
    k = int(rng.integers(4))
    out = []
    for axis in range(3):
        if k == 0:
            out.append(u * gen.rnd(rng, .7, 1.3))
        elif k == 1:
            out.append(u * (.8 + .4 * rng.random(u.shape)))
        elif k == 2:           # axes with unrelated patterns (permuted pixels)
            out.append(np.roll(u, int(rng.integers(0, 5)), axis=2) * gen.rnd(rng, .9, 1.1))
        else:                  # only one axis differs
            out.append(u)
    if k == 3:
        a = int(rng.integers(3))
        out[a] = u * gen.pick(rng, .8, 1.25, 1 + 1e-2, 1 + 1e-4)
    out = np.stack(out, axis=-1)
    for l in range(1, len(out)):           # layers that share some axes with the layer above
        if rng.random() < .25:
            a = rng.permutation(3)[:int(rng.integers(1, 3))]
            out[l][..., a] = out[l - 1][..., a]
    return out


def tensor(rng, n):
    """The same index or three indices as tensors, as lists of tensors or unchanged."""
    import torch
    one = lambda v: torch.tensor(v, dtype=torch.complex128 if np.imag(v) or rng.random() < .4 else torch.float64)
    k = int(rng.integers(4))
    if k == 0:
        return n
    if not isinstance(n, (list, tuple)):
        return one(n) if k < 3 else one(n).reshape(1)
    if k == 1:
        return [one(v) if rng.random() < .7 else v for v in n]
    return torch.tensor(list(n), dtype=torch.complex128 if np.any(np.imag(n)) else torch.float64)


def film_stack(case, tensors):
    """R, T for s and p of uniform films whose axes lie in / across the plane of incidence (phi multiple of 90 degrees)."""
    along_x = abs(np.sin(case['phi'] or 0.0)) < .5
    n0, nb = complex(case['n_top']), complex(case['n_bot'])
    b = n0.real * np.sin(case['theta'])
    k0 = 2 * np.pi / case['wavelength']
    out = {}
    for pol in 'sp':
        def media(t):
            ex, ey, ez = [complex(v) ** 2 for v in t]
            par, per = (ex, ey) if along_x else (ey, ex)
            if pol == 's':
                kz = rr.kz_of(np.sqrt(per), b, 0.0)
                return complex(kz), complex(kz)
            kz = np.sqrt(par * (1 - b * b / ez) + 0j)
            kz = -kz if kz.imag > 1e-14 or (abs(kz.imag) <= 1e-14 and kz.real < 0) else kz
            return complex(kz), complex(kz / par)
        ms = [media([n0] * 3), *[media(t) for t in tensors], media([nb] * 3)]
        F, G, log = 1.0 + 0j, ms[-1][1], 0.0
        for (k, y), d in list(zip(ms[1:-1], case['thickness']))[::-1]:
            ph = k0 * k * d
            e1, e2 = np.exp(1j * ph - abs(ph.imag)), np.exp(-1j * ph - abs(ph.imag))
            c, s = (e1 + e2) / 2, (e1 - e2) / 2j
            F, G = F * c + 1j * s * G / y, F * 1j * s * y + G * c
            log += abs(ph.imag)
        y0 = ms[0][1]
        r = (F * y0 - G) / (F * y0 + G)
        t = 2 * y0 / (F * y0 + G) * np.exp(-log)
        out['R' + pol], out['T' + pol] = abs(r) ** 2, abs(t) ** 2 * ms[-1][1].real / y0.real
    return out


def run_job(job, mon):
    b, kind = 2, job['kind']
    for c in range(job['n']):
        rng = rng_of('C14', kind, job['seed'], job['i'], c)
        tol = 1e-6
        case = gen.grating(rng, **(dict(dim='2d') if kind == 'vector' else {}))
        case['fourier_type'] = 0 if kind == 'sampled' else 1
        if rng.random() < .2:
            case['use_pinv'] = True
        if kind in ('raster', 'sampled'):
            iso = case['ucell']
            case['ucell'] = split(rng, iso)
            if kind == 'sampled':
                if rng.random() < .4:
                    case['enhanced_dfs'] = False
                case['sampling'] = oracle.sampling_of(case)
            mon.case(dict(case=case))
            out = solve(b, case)
            ref = oracle.compare(mon, kind, b, case, out, tol)
            if ref is not None:
                # the observation discriminates between the axes: a reference with two axes exchanged differs
                sw = oracle.reference(dict(case, ucell=case['ucell'][..., gen.pick(rng, [1, 0, 2], [0, 2, 1], [2, 1, 0])]))
                psi = oracle.psi_of(case)
                if np.abs(sw.solve(np.sin(psi), np.cos(psi)).de_ri - out.R).max() > 1e-5:
                    mon.true('axis matters', True)
        elif kind == 'vector':
            cells, geom = [], []
            for _ in case['thickness']:
                bx = gen.boxes(rng, case['period'], int(rng.integers(0, 4)), lossy=rng.random() < .3)
                base = gen.index_real(rng)

                def idx(n):
                    if rng.random() < .4:
                        return n
                    v = [n * gen.rnd(rng, .8, 1.2) for _ in range(3)]
                    return tuple(v) if rng.random() < .5 else v
                base = idx(base)
                bx = [(*q[:4], idx(q[4])) for q in bx]
                cells.append(gen.vector_layer(rng, base, bx))
                comp = []
                for a in range(3):
                    pick = lambda n: n[a] if isinstance(n, (list, tuple)) else n
                    comp.append(gen.box_grid(pick(base), [(*q[:4], pick(q[4])) for q in bx], case['period']))
                geom.append((np.stack([g[0] for g in comp], axis=-1), comp[0][1], comp[0][2]))
            case['ucell'] = cells
            mon.case(dict(case=case))
            told = [[tensor(rng, base), [[*o[:5], tensor(rng, o[5]), *o[6:]] for o in obs]] for base, obs in cells] if rng.random() < .5 else cells
            oracle.compare(mon, kind, b, dict(case, geom=geom), solve(b, dict(case, ucell=told)), tol)
        elif kind == 'equal':
            case['fourier_type'] = int(rng.integers(2))
            iso = case['ucell']
            four = np.stack([iso] * 3, axis=-1)
            if rng.random() < .3:      # equal to rounding only
                four = four * (1 + 1e-15 * rng.normal(size=four.shape))
            mon.case(dict(case=case))
            oracle.same(mon, kind, b, case, solve(b, case), solve(b, dict(case, ucell=four)), tol)
            if case['phi'] is not None:
                d = dict(case, fourier_type=1)
                cells = [gen.vector_layer(rng, gen.index_real(rng), gen.boxes(rng, case['period'], 2)) for _ in case['thickness']]
                tri = [[[v] * 3 if rng.random() < .5 else v, [[*o[:5], [o[5]] * 3, *o[6:]] if rng.random() < .7 else o for o in ob]] for v, ob in cells]
                oracle.same(mon, kind, b, d, solve(b, dict(d, ucell=cells)), solve(b, dict(d, ucell=tri)), tol)
        else:
            case['fourier_type'] = int(rng.integers(2))
            if case['phi'] is not None:
                case['phi'] = gen.pick(rng, 0.0, np.pi / 2, np.pi, -np.pi / 2, 2 * np.pi)
            nl = len(case['thickness'])
            lossy = rng.random() < .4
            tensors = []
            for _ in range(nl):
                n = gen.index_lossy(rng) if lossy else gen.index_real(rng)
                tensors.append([n * gen.rnd(rng, .7, 1.4) for _ in range(3)])
            ny, nx = np.shape(case['ucell'])[1:3]
            if case['phi'] is not None and rng.random() < .3:
                case['ucell'] = [[list(t), []] for t in tensors]
                case['fourier_type'] = 1
            else:
                u = np.array(tensors)[:, None, None, :] * np.ones((1, ny, nx, 1))
                case['ucell'] = u if np.iscomplexobj(u) and np.any(u.imag) else u.real.copy()
            mon.case(dict(case=case))
            out = solve(b, case)
            w = film_stack(case, tensors)
            psi = oracle.psi_of(case)
            fx, fy = case['fto']
            for which, s in out.subs():
                a, p = dict(res=(np.sin(psi), np.cos(psi)), te=(1.0, 0.0), tm=(0.0, 1.0))[which]
                for got, q in ((s.de_ri, 'R'), (s.de_ti, 'T')):
                    want = np.zeros(got.shape)
                    want[fy, fx] = a * a * w[q + 's'] + p * p * w[q + 'p']
                    mon.near('film', got, want, tol * 10, case=case, which=which, part=q)
