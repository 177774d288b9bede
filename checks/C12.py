"""Field maps against an independent Maxwell solution, and their own structural invariants."""
import numpy as np

import fields
import gen
import oracle
from drive import rng_of, tonp

RULE = ('random stacks solved with conv_solve_field at random resolutions; every component at every sample point is compared with '
        'fields of the independent reference solver, tangential continuity and Bloch periodicity are checked on the returned '
        'arrays, and maps are re-requested at other resolutions / companion selections. Distinct by full input and resolution.')
ASSUMPTIONS = ['cases where the reference is ill-conditioned (>1e8) are inconclusive',
               'global sign of the map follows the incident s/p basis of the package (opposite for cos(phi) < 0)']
EXPECT = ['field', 'continuity', 'bloch', 'resolution', 'select']


def plan(tier, seed):
    return (gen.deck('C12', seed, tier, numpy=(56, 5), torch=(56, 4), jax=3)
            + gen.deck('C12', seed, tier, numpy=(12, 3), torch=(12, 2), jax=0, kind='vec'))


def run_job(job, mon):
    b, ln = job['b'], job.get('ln', 0)
    for c in range(job['n']):
        rng = rng_of('C12', job['kind'], job['seed'], b, job['i'], c, ln)
        if job['kind'] == 'vec':
            case = gen.vectorise(rng, gen.grating(rng, dim='2d'), lossy=rng.random() < .3)
        else:
            case = gen.any_case(rng, b, ln)
        case['fourier_type'] = 1
        if b != 1 and rng.random() < .15:
            case['fto'] = [case['fto'][0], 0]
        res = (5, 4, 3) if b == 1 and rng.random() < .7 else tuple(int(v) for v in rng.integers(1, 8, 3))
        mon.case(dict(case=case, res=res))
        sel = (True, True, True) if rng.random() < .5 else tuple(bool(v) for v in gen.SUBSETS[int(rng.integers(7))])
        out, f, raw = fields.solve_field(b, case, res, sel)
        scalar = out.te is None
        ref = oracle.reference(case)
        if not ref.cond < 1e8:
            mon.skip('reference ill-conditioned')
            continue
        xs, ys, zs = fields.grid(case, res, scalar)
        psi = oracle.psi_of(case)
        pols = [(np.sin(psi), np.cos(psi)), (1.0, 0.0), (0.0, 1.0)]
        pols = pols[:1] if scalar else [p for p, s in zip(pols, sel) if s]
        mon.true('field shape', f.shape == (len(pols), len(zs) * len(case['thickness']), len(ys), len(xs), 6), str(raw.shape))
        clear = abs(np.cos(ref.phi)) > oracle.FAR
        tol = 3e-6 if b == 2 else 3e-7
        nz = len(zs)
        for k, (s, p) in enumerate(pols):
            want = np.concatenate(ref.solve(s, p).fields(xs, ys, zs))
            got = f[k]
            if not clear:      # sign of the incident basis undefined exactly along y
                if np.vdot(got, want).real < 0:
                    got = -got
            scale = 1 + np.abs(want).max()
            mon.near('field', got, want, tol * scale, case=case, backend=b, res=res, pol=k)
            if nz > 1:
                for l in range(1, len(case['thickness'])):
                    a, d = f[k, l * nz - 1], f[k, l * nz]
                    i = [0, 1, 3, 4]
                    mon.near('continuity', a[..., i], d[..., i], tol * scale, case=case, backend=b, layer=l)
            if len(xs) > 1:
                ph = np.exp(-1j * ref.k0 * ref.kx[ref.N // 2] * case['period'][0])
                mon.near('bloch x', f[k, :, :, -1], f[k, :, :, 0] * ph, tol * scale, case=case, backend=b)
            if len(ys) > 1:
                ph = np.exp(-1j * ref.k0 * ref.ky[ref.N // 2] * case['period'][1])
                mon.near('bloch y', f[k, :, 0], f[k, :, -1] * ph, tol * scale, case=case, backend=b)
        # the same solve asked again: other resolution, other selection
        mee = out.mee
        if b != 1 or rng.random() < .4:
            r2 = tuple(2 * (r - 1) + 1 for r in res)
            g = tonp(mee.calculate_field(res_x=r2[0], res_y=r2[1], res_z=r2[2], set_field_input=sel))
            nl = len(case['thickness'])
            idx_z = np.concatenate([np.arange(0, r2[2], 2) + l * r2[2] for l in range(nl)])
            ax = 0 if g.ndim == 4 else 1
            g = np.take(g, idx_z, axis=ax)
            g = g[..., ::2, :]
            if raw.shape[-3] > 1:
                g = np.take(g, np.arange(0, r2[1], 2), axis=ax + 1)
            mon.near('resolution', g, raw, 1e-9 * (1 + np.abs(raw).max()), case=case, backend=b, res=res)
        if not scalar:
            for s2 in gen.SUBSETS if b != 1 else [gen.SUBSETS[int(rng.integers(7))] for _ in range(3)]:
                h = tonp(mee.calculate_field(res_x=res[0], res_y=res[1], res_z=res[2], set_field_input=tuple(bool(v) for v in s2)))
                both = [(sum(s2[:k]), sum(sel[:k])) for k in range(3) if s2[k] and sel[k]]
                if mon.true('select', len(h) == sum(s2), f'{len(h)} maps for {s2}', case=case, backend=b) and both:
                    i, j = zip(*both)
                    mon.near('select', h[list(i)], raw[list(j)], 1e-9 * (1 + np.abs(raw).max()), case=case, backend=b, which=s2)
