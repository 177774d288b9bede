"""Single against double precision, recorded result types, spellings of the precision."""
import numpy as np

import gen
import oracle
import refrcwa as rr
from drive import NAMES, PARTS, Out, make, rng_of, solve, tonp

RULE = ('random problems (all formulations, both Fourier methods, raster and vector, 1-3 layers, dielectric/absorbing) solved in single and in double precision: '
        'efficiencies and field maps must agree to single-precision accuracy scaled by the sensitivity observed when the double-precision inputs are '
        'perturbed by one part in a million; recorded types of every result; double precision must agree with the independent reference far beyond single precision; '
        'every name of a precision gives bitwise the same results. Distinct by input.')
ASSUMPTIONS = ['well-conditioned: no operator, mode or interface matrix with condition number above 1000, no mode within 2e-3 of cutoff',
               'sensitivity is estimated from three perturbed double-precision runs', 'jax: the precision is chosen at construction']
EXPECT = ['numpy single', 'jax single', 'torch single', 'numpy type', 'jax type', 'torch type', 'numpy names', 'torch names', 'numpy double', 'torch double',
          'jax double', 'numpy switched', 'torch switched', 'numpy field', 'torch field', 'numpy stored', 'torch stored']
SINGLE = dict(c=np.complex64, f=np.float32)
DOUBLE = dict(c=np.complex128, f=np.float64)


def plan(tier, seed):
    f = 1 if tier == 'quick' else 10
    jobs = [dict(kind='pair', b=1, seed=seed, i=i, n=2, lane=f'j{i % 8}', ln=i % 8) for i in range(8 * f)]
    jobs += [dict(kind='pair', b=b, seed=seed, i=i, n=6) for b in (0, 2) for i in range(60 * f)]
    return jobs


def names(b):
    if b == 0:
        return [0, np.complex128], [1, np.complex64]
    if b == 1:
        import jax.numpy as jnp
        return [0, jnp.complex128, np.complex128], [1, jnp.complex64, np.complex64]
    import torch
    return [0, torch.complex128, np.complex128], [1, torch.complex64, np.complex64]


def jiggle(rng, case, eps):
    c = dict(case)
    e = lambda: 1 + eps * gen.pick(rng, -1, 1)
    for k in ('n_top', 'n_bot', 'theta', 'wavelength'):
        c[k] = c[k] * e()
    if c['phi'] is not None:
        c['phi'] = c['phi'] * e()
    c['thickness'] = [t * e() for t in c['thickness']]
    c['period'] = [p * e() for p in c['period']]
    if isinstance(c['ucell'], np.ndarray):
        c['ucell'] = c['ucell'] * (1 + eps * rng.choice([-1, 1], c['ucell'].shape))
    else:
        s = [p / q for p, q in zip(c['period'], case['period'])]
        c['ucell'] = [[b * e(), [[o[0], o[1] * s[0], o[2] * s[1], *o[3:5], o[5] * e(), *o[6:]] for o in ob]] for b, ob in c['ucell']]
        c['period'] = [p * (1 + 1e-12) for p in c['period']]
    return c


def tame(case, oc):
    """(well-conditioned, reference): no near-singular operator, mode or interface matrix on the way of a single-precision solve."""
    ref = oracle.reference(oc)
    kx, ky = gen.orders(case)
    K, I = np.diag(kx.ravel()), np.eye(kx.size)
    worst = ref.cond
    for l in oracle.layers_of(case):
        _, ey, ez = rr.conv_matrices(*l, *case['fto'], oc.get('sampling'))
        if case['fto'][1] == 0:
            worst = max(worst, np.linalg.cond(K @ K - ey), np.linalg.cond(K @ np.linalg.inv(ez) @ K - I))
    near = min([np.abs(s['lam'] ** 2).min() for s in ref.stack], default=1)
    return worst < 1e3 and near > 2e-3, ref


def types(mon, b, out, want, case):
    for n, s in out.subs():
        for k in PARTS:
            t = getattr(s, k).dtype
            mon.true(f'{NAMES[b]} type', t == want['c' if k[:2] in ('R_', 'T_') else 'f'], f'{n}.{k} is {t}', case=case)


def run_job(job, mon):
    b = job['b']
    for c in range(job['n']):
        rng = rng_of('C16', job['seed'], b, job['i'], c)
        case = gen.any_case(rng, b, job.get('ln', 0), hostile=False)
        case['thickness'] = [min(t, 1.2 * case['wavelength']) for t in case['thickness']]
        vec = b != 1 and case['phi'] is not None and rng.random() < .2
        if vec:
            gen.vectorise(rng, case, most=3)
            case['fourier_type'] = 1
        if gen.cutoff_gap(case) < 1e-2:
            mon.skip('near cutoff')
            continue
        mon.case(dict(case=case, b=b))
        oc = dict(case)
        if case['fourier_type'] == 0 and not vec:
            oc['sampling'] = oracle.sampling_of(case)
        good, ref = tame(case, oc)
        two, one = names(b)
        ctx = dict(case=case, backend=NAMES[b])
        d = solve(b, case)
        types(mon, b, d, DOUBLE, case)
        tc = one[int(rng.integers(len(one)))]
        s = solve(b, case, type_complex=tc)
        types(mon, b, s, SINGLE, case)
        # sensitivity of this problem
        sens = {}
        for _ in range(3 if b != 1 else 2):
            p = solve(b, jiggle(rng, case, 1e-6))
            for (n, x), (_, y) in zip(d.subs(), p.subs()):
                for k in PARTS:
                    sens[n, k] = np.maximum(sens.get((n, k), 0), np.abs(np.abs(getattr(x, k)) - np.abs(getattr(y, k))).max())
        kx, ky = gen.orders(case)
        far = np.hypot(kx, ky) > 1e-3
        for (n, x), (_, y) in zip(d.subs(), s.subs()):
            for k in PARTS[4:] if good else ():
                u, v = getattr(x, k), getattr(y, k)
                if k not in ('de_ri', 'de_ti'):
                    u, v = np.where(far, u, 0), np.where(far, v, 0)
                mon.near(f'{NAMES[b]} single', v, u, 5e-4 + 20 * max(sens[n, k], sens[n, 'de_ri'], sens[n, 'de_ti']), part=k, which=n, **ctx)
        # double precision really is double
        worst = max(sens.values())
        if worst < 1e-4:
            if ref.cond < 1e7:
                oracle.compare(mon, f'{NAMES[b]} double', b, oc, d, 5e-9 if b == 2 else 1e-9, ref=ref, amps=False, parts=False)
            else:
                mon.skip('reference ill-conditioned')
        # spellings
        if b != 1 or c == 0:
            for group, base in ((two, d), (one, s)):
                alt = solve(b, case, type_complex=group[int(rng.integers(len(group)))])
                for (n, x), (_, y) in zip(base.subs(), alt.subs()):
                    for k in PARTS:
                        mon.near(f'{NAMES[b]} names', getattr(y, k), getattr(x, k), 0.0 if b != 1 else 1e-6, part=k, **ctx)
        if b != 1:
            # single-precision data do not lower the working precision
            if not vec:
                u = case['ucell']
                u32 = u.astype(np.complex64 if np.iscomplexobj(u) else np.float32)
                a1, a2 = solve(b, dict(case, ucell=u32)), solve(b, dict(case, ucell=u32.astype(u.dtype)))
                types(mon, b, a1, DOUBLE, case)
                mon.near(f'{NAMES[b]} stored', a1.R, a2.R, 1e-10, **ctx)
                mon.near(f'{NAMES[b]} stored', a1.T, a2.T, 1e-10, **ctx)
            # chosen later, on an existing object
            mee = make(b, case)
            mee.type_complex = tc
            mee.ucell = case['ucell']
            mee.period = case['period']
            late = Out(mee.conv_solve(), mee)
            for k in ('R', 'T'):
                u = getattr(s, k)
                if good:
                    mon.near(f'{NAMES[b]} switched', getattr(late, k), u, 2e-4 + 20 * worst, part=k, **ctx)
                mon.true(f'{NAMES[b]} switched', getattr(late, k).dtype == np.float32, f'{getattr(late, k).dtype} after switching', **ctx)
            if good and rng.random() < .5:
                res = dict(res_x=int(rng.integers(2, 5)), res_y=int(rng.integers(1, 3)), res_z=2)
                fd, fs = tonp(make(b, case).conv_solve_field(**res)[1]), tonp(make(b, case, type_complex=tc).conv_solve_field(**res)[1])
                mon.true(f'{NAMES[b]} field', fd.dtype == np.complex128 and fs.dtype == np.complex64, f'types {fd.dtype} {fs.dtype}', **ctx)
                top = np.abs(fd).max()
                fp = tonp(make(b, jiggle(rng, case, 1e-6)).conv_solve_field(**res)[1])
                if abs(np.cos(case['phi'] or 0) * np.sin(case['theta'])) < 1e-4 and np.abs(fs + fd).max() < np.abs(fs - fd).max():
                    fs = -fs       # the sense of s is a matter of rounding when the incident kx vanishes
                mon.near(f'{NAMES[b]} field', fs, fd, 1e-3 * top + 30 * np.abs(fp - fd).max(), **ctx)
