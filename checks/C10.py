"""Slicing a stack differently."""
import numpy as np

import gen
import oracle
from drive import rng_of, solve

RULE = ('a random stack is solved as given and re-sliced: layers cut into identical slices (including empty ones), zero-thickness layers of '
        'arbitrary material inserted at random positions, equal neighbours merged; the monitor demands identical orders, s/p parts and '
        'amplitudes. Stacks of distinct layers, many layers included, are compared with the independent solution of the stack read from the '
        'incidence side down (and, to prove the order is observable, differ from the upside-down stack). Distinct by input and variant.')
ASSUMPTIONS = ['cases where the reference is ill-conditioned (>1e9) are inconclusive']
VARIANTS = ['cut', 'insert', 'both', 'order']
EXPECT = ['cut', 'insert', 'both', 'order R', 'order observable']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    jobs = []
    for i in range(5 * f):
        for l in range(8):
            jobs.append(dict(kind='s', b=1, seed=seed, i=i, n=1, lane=f'j{l}', ln=l, v=[VARIANTS[l % 4]]))
    for b in (0, 2):
        jobs += [dict(kind='s', b=b, seed=seed, i=i, n=4 if b == 0 else 2, v=VARIANTS) for i in range(64 * f)]
        jobs += [dict(kind='vec', b=b, seed=seed, i=i, n=2, v=VARIANTS) for i in range(12 * f)]
        jobs += [dict(kind='deep', b=b, seed=seed, i=i, n=1, v=['both', 'order']) for i in range(16 * f)]
    return jobs


def cut(rng, cells, thick, most):
    cs, ts = [], []
    for c, t in zip(cells, thick):
        k = int(rng.integers(1, most + 1))
        w = np.sort(np.concatenate([[0.0], rng.random(k - 1), [1.0]]))
        if k > 1 and rng.random() < .3:
            w[1] = 0.0 if rng.random() < .5 else w[1]
        parts = [float(t * (b - a)) for a, b in zip(w[:-1], w[1:])]
        cs += [c] * k
        ts += parts
    return cs, ts


def insert(rng, cells, thick, fresh, n):
    cs, ts = list(cells), list(thick)
    for _ in range(n):
        at = int(rng.integers(0, len(cs) + 1))
        cs.insert(at, fresh())
        ts.insert(at, 0.0)
    return cs, ts


def run_job(job, mon):
    b, ln = job['b'], job.get('ln', 0)
    for c in range(job['n']):
        rng = rng_of('C10', job['kind'], job['seed'], b, job['i'], c, ln)
        vec = job['kind'] == 'vec'
        if b == 1:
            dim, ny, nx, fto, _ = gen.JAX_POOL[[0, 1, 2, 0, 1, 0, 2, 2][ln]]
            case = gen.grating(rng, dim=dim, shapes=(ny, nx, list(fto), 2))
        else:
            case = gen.grating(rng, max_layers=8 if job['kind'] == 'deep' else 3, **(dict(dim='2d') if vec else {}))
        if vec:
            gen.vectorise(rng, case, lossy=rng.random() < .4)
            case['fourier_type'] = 1
        gen.options(rng, case, pinv=False)
        tol = 1e-6 if b == 2 else 1e-8
        cells, lossy = list(case['ucell']), rng.random() < .5

        def fresh():
            if vec:
                return gen.vector_layer(rng, gen.index_real(rng), gen.boxes(rng, case['period'], int(rng.integers(0, 3)), lossy=lossy))
            p = gen.layer_pattern(rng, *np.shape(cells[0])[:2], lossy)
            return p if np.iscomplexobj(cells[0]) else p.real
        a = solve(b, case)
        for v in job['v']:
            if v == 'order':
                d = dict(case, fourier_type=1)
                mon.case(dict(case=d, v=v))
                o = a if case['fourier_type'] == 1 else solve(b, d)
                ref = oracle.compare(mon, v, b, d, o, tol * 10)
                if ref is not None and len(cells) > 1:
                    up = oracle.reference(dict(d, geom=oracle.layers_of(d)[::-1], thickness=d['thickness'][::-1]))
                    s, p = np.sin(oracle.psi_of(d)), np.cos(oracle.psi_of(d))
                    if np.abs(up.solve(s, p).de_ri - ref.solve(s, p).de_ri).max() > 1e-4:
                        mon.true('order observable', True)
                continue
            if b == 1:       # fixed shape: each of the 2 layers in 2 slices, or 2 inserted layers
                cs, ts = cells, case['thickness']
                if v in ('cut', 'both'):
                    w = rng.random(2)
                    cs = [cells[0], cells[0], cells[1], cells[1]]
                    ts = [float(case['thickness'][k // 2] * (w[k // 2] if k % 2 else 1 - w[k // 2])) for k in range(4)]
                    if v == 'both':
                        cs, ts = [cells[0], *cs[2:]], [case['thickness'][0], *ts[2:]]
                if v in ('insert', 'both'):
                    cs, ts = insert(rng, cs, ts, fresh, 1 if v == 'both' else 2)
            else:
                cs, ts = cells, case['thickness']
                if v in ('cut', 'both'):
                    cs, ts = cut(rng, cs, ts, 5)
                if v in ('insert', 'both'):
                    cs, ts = insert(rng, cs, ts, fresh, int(rng.integers(1, 5)))
            d = dict(case, ucell=cs if vec else np.stack(cs), thickness=ts)
            mon.case(dict(case=d, v=v))
            oracle.same(mon, v, b, case, a, solve(b, d), tol)
