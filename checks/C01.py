"""Energy conservation of lossless structures."""
import numpy as np

import gen
from drive import NAMES, rng_of, solve

RULE = ('random real-index stacks (1D scalar, conical, 2D raster and vector cells; 1-5 layers; hostile angles, scales, '
        'zero thickness, options) solved on the real code; the monitor sums the efficiencies of every returned polarization. '
        'Non-trivial: the stack has index contrast or more than one propagating order. Distinct by full input.')
ASSUMPTIONS = ['orders closer to cutoff than 1e-7 are not required to be exactly empty', 'superstrate and all indices real']
EXPECT = ['sum', 'range', 'evanescent', 's+p']


def plan(tier, seed):
    return (gen.deck('C01', seed, tier, numpy=(48, 8), torch=(48, 5), jax=5)
            + gen.deck('C01', seed, tier, numpy=(8, 4), torch=(8, 3), jax=1, kind='vec', lanes=4)
            + gen.deck('C01', seed, tier, numpy=(8, 2), torch=(6, 1), jax=1, kind='big', lanes=3))


def judge(mon, b, case, out, tol):
    name = NAMES[b]
    kt, kb = gen.propagating(case, 'top'), gen.propagating(case, 'bot')
    fx, fy = case['fto']
    for which, s in out.subs():
        ctx = dict(case=case, backend=name, which=which)
        mon.true('shape', s.de_ri.shape == (2 * fy + 1, 2 * fx + 1) == s.de_ti.shape, f'{s.de_ri.shape}', **ctx)
        mon.near('sum', s.de_ri.sum() + s.de_ti.sum(), 1.0, tol, **ctx)
        for nm, de in (('R', s.de_ri), ('T', s.de_ti), ('Rs', s.de_ri_s), ('Rp', s.de_ri_p), ('Ts', s.de_ti_s), ('Tp', s.de_ti_p)):
            mon.true('range', np.all(np.isreal(de)) and np.all(de.real >= -tol) and np.all(de.real <= 1 + tol),
                     f'{nm} outside [0,1]: {de.min()} {de.max()}', **ctx)
        for nm, de, k in (('R', s.de_ri, kt), ('T', s.de_ti, kb)):
            dead = k < -1e-7
            mon.near('evanescent', np.where(dead, de, 0), np.zeros(de.shape), 1e-10, part=nm, **ctx)
        mon.near('s+p R', s.de_ri_s + s.de_ri_p, s.de_ri, 1e-12, **ctx)
        mon.near('s+p T', s.de_ti_s + s.de_ti_p, s.de_ti, 1e-12, **ctx)
    mon.near('shortcut', out.R, out.res.de_ri, 0, case=case, backend=name)
    mon.near('shortcut', out.T, out.res.de_ti, 0, case=case, backend=name)


def run_job(job, mon):
    b = job['b']
    for c in range(job['n']):
        rng = rng_of('C01', job['kind'], job['seed'], b, job['i'], c, job.get('ln', 0))
        if job['kind'] == 'vec':
            case = gen.any_case(rng, b, 2, dim='2d', lossy=False)
            nl = len(case['thickness'])
            case['ucell'] = [gen.vector_layer(rng, gen.index_real(rng), gen.boxes(rng, case['period'], int(rng.integers(0, 4))))
                             for _ in range(nl)]
        elif job['kind'] == 'big':
            case = gen.big(rng, b, job.get('ln', 0), lossy=False)
        else:
            case = gen.any_case(rng, b, job.get('ln', 0), lossy=False, max_layers=5)
        gen.options(rng, case)
        mon.case(case, nontrivial=True)
        judge(mon, b, case, solve(b, case), 1e-7 if b == 2 else 1e-8)
