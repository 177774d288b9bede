"""Absorption: passive structures never gain power, and the power lost is the decrease of the Poynting flux inside."""
import numpy as np

import fields
import gen
from drive import NAMES, rng_of, solve

RULE = ('random absorbing stacks (weak absorbers, metals, absorbing substrates, both Fourier methods, raster and vector cells) solved '
        'on the real code; the monitor checks R+T<=1, sign and finiteness of every order, and integrates the Poynting flux of the '
        'returned field map over each sampled plane: top = 1-R, bottom = T, non-increasing with depth, and strictly lossy when a '
        'strong absorber fills a layer. Distinct by full input.')
ASSUMPTIONS = ['indices n - ik with k >= 0; superstrate real', 'flux compared at 1e-6; monotonicity allows 1e-7 of rounding',
               'the sampled planes are exact integrals because more sample points than harmonics are used']
EXPECT = ['R+T<=1', 'orders', 'flux top', 'flux bottom', 'flux decreases', 'companion']


def plan(tier, seed):
    return (gen.deck('C02', seed, tier, numpy=(56, 6), torch=(56, 4), jax=4)
            + gen.deck('C02', seed, tier, numpy=(40, 3), torch=(40, 2), jax=2, kind='field')
            + gen.deck('C02', seed, tier, numpy=(8, 3), torch=(8, 2), jax=0, kind='vec'))


def judge(mon, b, case, out):
    tol = 1e-7 if b == 2 else 1e-8
    for which, s in out.subs():
        ctx = dict(case=case, backend=NAMES[b], which=which)
        tot = s.de_ri.sum() + s.de_ti.sum()
        mon.true('R+T<=1', np.isfinite(tot) and tot <= 1 + tol, f'R+T={tot}', **ctx)
        for nm in ('de_ri', 'de_ti', 'de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
            v = getattr(s, nm)
            mon.true('orders', np.all(np.isfinite(v)) and v.min() >= -tol and v.max() <= 1 + tol, f'{nm}: {v.min()} {v.max()}', **ctx)
        if which != 'res':
            mon.true('companion', np.isfinite(tot), '', **ctx)
        mon.near('s+p', s.de_ti_s + s.de_ti_p, s.de_ti, 1e-12, **ctx)


def run_job(job, mon):
    b, ln = job['b'], job.get('ln', 0)
    for c in range(job['n']):
        rng = rng_of('C02', job['kind'], job['seed'], b, job['i'], c, ln)
        case = gen.any_case(rng, b, ln, lossy=True, lossy_bot=rng.random() < .5,
                            **(dict(dim='2d') if job['kind'] == 'vec' else {}))
        if job['kind'] == 'vec':
            gen.vectorise(rng, case, lossy=True)
        if not isinstance(case['ucell'], list) and not np.any(np.imag(case['ucell'])) and rng.random() < .8:
            u = case['ucell'] + 0j
            u[int(rng.integers(len(u)))] -= 1j * gen.rnd(rng, .01, 1)
            case['ucell'] = u
        gen.options(rng, case)
        mon.case(case)
        if job['kind'] == 'rnd':
            judge(mon, b, case, solve(b, case))
            continue
        fx, fy = case['fto']
        ry = 2 * fy + 3
        sel = (True, True, True)
        out, f, _ = fields.solve_field(b, case, (2 * fx + 3, ry, 6), sel)
        judge(mon, b, case, out)
        if gen.cutoff_gap(case) < 1e-6:
            mon.skip('at cutoff')
            continue
        subs = out.subs()
        for k, (which, s) in enumerate(subs):
            S = fields.flux(f[k], case)
            ctx = dict(case=case, backend=NAMES[b], which=which)
            mag = np.max(np.abs(f[k][..., :2]) * 1.0) * np.max(np.abs(f[k][..., 3:5])) / (np.real(case['n_top']) * np.cos(case['theta']))
            tol = (1e-7 if b == 2 else 1e-9) * (10 + mag)
            mon.near('flux top', S[0], 1 - s.de_ri.sum(), tol, **ctx)
            mon.near('flux bottom', S[-1], s.de_ti.sum(), tol, **ctx)
            mon.true('flux decreases', np.all(np.diff(S) <= tol), f'{S}', **ctx)
            for l, cell in enumerate(case['ucell'] if not isinstance(case['ucell'], list) else []):
                seg = S[6 * l:6 * l + 6]
                if np.all(np.imag(cell) == 0):      # nothing is absorbed in a transparent layer
                    mon.near('flux constant', seg - seg[0], np.zeros(6), tol, layer=l, **ctx)
