"""One 1D grating, every formulation."""
import numpy as np

import gen
from drive import rng_of, solve

RULE = ('a random 1D grating is solved in the scalar TE/TM form and again with azimuth 0 given explicitly, with its row repeated, with '
        'orders requested along the uniform axis (one row and several rows), as vector rectangles and with a mixed polarization; '
        'the monitor demands identical shared orders, empty extra orders and the mixture rule. Distinct by input and variant.')
ASSUMPTIONS = ['vector variant only against exact Fourier coefficients']
EXPECT = ['phi=0', 'rows', 'fto_y one row', 'fto_y rows', 'vector', 'mixture', 'companion TE', 'companion TM']
VARIANTS = ['phi=0', 'rows', 'fto_y one row', 'fto_y rows', 'vector', 'mixture', 'transposed']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    jobs = []
    for i in range(3 * f):
        for l, v in enumerate(VARIANTS):
            jobs.append(dict(kind='v', b=1, seed=seed, i=i, n=1, lane=f'j{l}', ln=l, v=[v]))
    for b in (0, 2):
        jobs += [dict(kind='v', b=b, seed=seed, i=i, n=4 if b == 0 else 2, v=VARIANTS) for i in range((64 if b == 0 else 56) * f)]
    return jobs


def embed(de, fy):
    """Orders of a 1D result inside a (2fy+1)-row array."""
    out = np.zeros((2 * fy + 1, de.shape[1]), de.dtype)
    out[fy] = de[0]
    return out


def run_job(job, mon):
    b, ln = job['b'], job.get('ln', 0)
    for c in range(job['n']):
        rng = rng_of('C06', job['seed'], b, job['i'], c, ln)
        kw = dict(shapes=(1, 4, [2, 0], 2)) if b == 1 else {}
        case = gen.grating(rng, dim='1d', **kw)
        if b != 1:
            case['fto'] = [int(rng.integers(0, 6)), 0]
        gen.options(rng, case, pinv=False)
        base = {p: solve(b, case, pol=p) for p in ((0, 1) if 'mixture' in job['v'] else (case['pol'],))}
        ref = base[case['pol']]
        tol = 1e-6 if b == 2 else 1e-8
        if gen.cutoff_gap(case) < 1e-6:
            tol = 1e-3
        for v in job['v']:
            if b != 1 and v in ('fto_y one row', 'fto_y rows', 'vector') and case['fto'][0] > 4:
                continue
            d, fy = dict(case), 0
            if v == 'phi=0':
                d['phi'] = 0.0
            elif v == 'rows':
                d['ucell'] = np.repeat(case['ucell'], 2 if b == 1 else int(rng.integers(2, 5)), axis=1)
                d['phi'] = gen.pick(rng, None, 0.0)
            elif v == 'fto_y one row':
                fy = 1 if b == 1 else int(rng.integers(1, 3))
                d['fto'] = [case['fto'][0], fy]
                d['phi'] = gen.pick(rng, None, 0.0)
            elif v == 'fto_y rows':
                fy = 1 if b == 1 else int(rng.integers(1, 3))
                d['fto'] = [case['fto'][0], fy]
                d['ucell'] = np.repeat(case['ucell'], 2, axis=1)
            elif v == 'vector':
                d['fourier_type'] = 1
                px, py = case['period']
                nx = case['ucell'].shape[2]
                w = px / nx
                layers = []
                for layer in case['ucell']:
                    cells = [z if np.imag(z) else float(np.real(z)) for z in layer[0]]
                    layers.append([cells[0], [['rectangle', (i + .5) * w, py / 2, w, py, z] for i, z in enumerate(cells) if i]])
                d['ucell'] = layers
                ref_v = ref if case['fourier_type'] == 1 else solve(b, case, fourier_type=1)
            elif v == 'mixture':
                if np.sin(case['theta']) == 0 and False:
                    continue
                d['pol'] = gen.pick(rng, .5, gen.rnd(rng, .01, .99))
                d['phi'] = gen.pick(rng, None, 0.0)
            elif v == 'transposed':      # the same lines drawn along x, seen from azimuth 90 degrees
                d['ucell'] = np.ascontiguousarray(np.swapaxes(case['ucell'], 1, 2)[:, ::-1])
                if d['ucell'].shape[1] == 1:
                    continue
                d['period'] = case['period'][::-1]
                d['fto'] = [0, case['fto'][0]]
                d['phi'] = np.pi / 2
                if d['fto'][1] > 4:
                    continue
            mon.case(dict(case=d, v=v))
            out = solve(b, d)
            ctx = dict(case=d, backend=b, variant=v)
            if v == 'mixture':
                te, tm, m = base[0].res, base[1].res, d['pol']
                s2, c2 = np.sin(np.pi / 2 * (1 - m)) ** 2, np.cos(np.pi / 2 * (1 - m)) ** 2
                mon.near('mixture', out.R, s2 * te.de_ri + c2 * tm.de_ri, tol, **ctx)
                mon.near('mixture', out.T, s2 * te.de_ti + c2 * tm.de_ti, tol, **ctx)
                for nm, sub, w in (('companion TE', out.te, te), ('companion TM', out.tm, tm)):
                    mon.near(nm, sub.de_ri, w.de_ri, tol, **ctx)
                    mon.near(nm, sub.de_ti, w.de_ti, tol, **ctx)
                continue
            want = ref_v.res if v == 'vector' else ref.res
            for k in ('de_ri', 'de_ti', 'de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
                w = getattr(want, k)
                g = getattr(out.res, k)
                if k[-2:] in ('_s', '_p') and abs(np.sin(case['theta'])) < 1e-6 and v == 'transposed':
                    continue
                w = w.T if v == 'transposed' else embed(w, fy)
                if k[-2:] in ('_s', '_p'):      # split undefined exactly along z
                    kx, ky = gen.orders(d)
                    m = np.hypot(kx, ky) > 1e-7
                    w, g = np.where(m, w, 0), np.where(m, g, 0)
                mon.near(v, g, w, tol, part=k, **ctx)
