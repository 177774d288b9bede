"""Order-by-order comparison with an independent Maxwell solver."""
import numpy as np

import gen
import oracle
from drive import rng_of, solve

RULE = ('random raster and vector gratings (1D scalar, conical, 2D; real, absorbing and metallic layers and substrates) solved by '
        'the package and, online, by an independent S-matrix coupled-wave solver; monitor compares every order: efficiencies, '
        's/p parts, complex amplitudes (in each backend convention) and array layout. Distinct by full input.')
ASSUMPTIONS = ['the reference uses the same truncation and Li factorisation; cases where the reference itself is '
               'ill-conditioned (condition > 1e9) are inconclusive, not failures',
               's/p split and signs are not compared for orders travelling exactly along z']
EXPECT = ['ref R', 'ref T', 'ref s/p parts', 'ref amplitude', 'layout']


def plan(tier, seed):
    return (gen.deck('C04', seed, tier, numpy=(64, 8), torch=(64, 5), jax=6)
            + gen.deck('C04', seed, tier, numpy=(12, 5), torch=(12, 4), jax=1, kind='vec', lanes=4)
            + gen.deck('C04', seed, tier, numpy=(10, 2), torch=(10, 1), jax=1, kind='big', lanes=3)
            + gen.deck('C04', seed, tier, numpy=(8, 4), torch=(8, 4), jax=1, kind='layout', lanes=8))


def run_job(job, mon):
    b, ln = job['b'], job.get('ln', 0)
    for c in range(job['n']):
        rng = rng_of('C04', job['kind'], job['seed'], b, job['i'], c, ln)
        case = gen.any_case(rng, b, 2 if job['kind'] == 'vec' else ln, **(dict(dim='2d') if job['kind'] == 'vec' else {}))
        if job['kind'] == 'vec':
            gen.vectorise(rng, case, lossy=rng.random() < .4)
        elif job['kind'] == 'big':
            case = gen.big(rng, b, ln)
        case['fourier_type'] = 1
        gen.options(rng, case)
        mon.case(case)
        out = solve(b, case)
        fx, fy = case['fto']
        mon.true('layout', out.R.shape == (2 * fy + 1, 2 * fx + 1) == out.T.shape, str(out.R.shape), case=case)
        tol = 1e-6 if b == 2 else 1e-7
        oracle.compare(mon, 'ref', b, case, out, tol)
