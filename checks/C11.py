"""Reversed light paths."""
import numpy as np

import gen
from drive import rng_of, solve

RULE = ('for random lossless and absorbing stacks each s->s, s->p, p->s, p->p channel from the incidence direction into a propagating '
        'reflected or transmitted order is compared with a second run of the package along the reversed path (transmission: through '
        'the stack turned upside down). The specular channels are reversible at every truncation and compared to rounding; the other '
        'orders see a shifted truncation when reversed and are compared within ten times the observed change under refinement. '
        'Distinct by input and order.')
ASSUMPTIONS = ['lossless half-spaces, isotropic media', 'non-specular channels whose truncation error exceeds 2e-2 are inconclusive']
EXPECT = ['specular reflection', 'specular transmission', 'order reflection', 'order transmission']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    jobs = []
    for i in range(5 * f):
        for l in range(8):
            jobs.append(dict(kind='zero', b=1, seed=seed, i=i, n=1, lane=f'j{l}', ln=l))
    for b in (0, 2):
        jobs += [dict(kind='zero', b=b, seed=seed, i=i, n=6 if b == 0 else 4) for i in range(64 * f)]
        jobs += [dict(kind='order', b=b, seed=seed, i=i, n=2 if b == 0 else 1) for i in range(48 * f)]
    for i in range(2 * f):
        for l in range(3):
            jobs.append(dict(kind='order', b=1, seed=seed, i=i, n=1, lane=f'o{l}', ln=l))
    return jobs


def reversed_case(case, k, side, rng):
    """Incidence along minus the in-plane wavevector k of an outgoing order, from the side it leaves to; None if grazing."""
    d = dict(case)
    if side == 'bot':
        d.update(n_top=case['n_bot'], n_bot=case['n_top'], thickness=list(case['thickness'])[::-1])
        d['ucell'] = case['ucell'][::-1] if isinstance(case['ucell'], list) else case['ucell'][::-1].copy()
    n = float(np.real(d['n_top']))
    kx, ky = -k[0], -k[1]
    if case['phi'] is None:
        if abs(kx) > .998 * n:
            return None
        d['theta'] = float(np.arcsin(kx / n))
        return d
    q = np.hypot(kx, ky)
    if q > .998 * n:
        return None
    d['theta'] = float(np.arcsin(q / n))
    d['phi'] = float(np.arctan2(ky, kx))
    if rng.random() < .3:
        d['theta'], d['phi'] = -d['theta'], d['phi'] + np.pi
    return d


def channels(out, side, at):
    """[[s->s, s->p], [p->s, p->p]] power channels of one order; scalar solves give a single number."""
    pre = 'de_ri' if side == 'top' else 'de_ti'
    if out.te is None:
        return np.array([[getattr(out.res, pre)[at]]])
    return np.array([[getattr(s, f'{pre}_s')[at], getattr(s, f'{pre}_p')[at]] for s in (out.te, out.tm)])


def run_job(job, mon):
    b, ln = job['b'], job.get('ln', 0)
    for c in range(job['n']):
        rng = rng_of('C11', job['kind'], job['seed'], b, job['i'], c, ln)
        if job['kind'] == 'zero':
            case = gen.any_case(rng, b, ln, lossy_bot=False)
            if b != 1 and case['phi'] is not None and case['ucell'].shape[1] > 1 and rng.random() < .2:
                case['fourier_type'] = 1
                gen.vectorise(rng, case, lossy=rng.random() < .5)
        else:
            dim = ['1d', 'con', '2d'][ln] if b == 1 else gen.pick(rng, '1d', '1d', 'con', '2d')
            if b == 1:
                sh = {'1d': (1, 4, [7, 0], 2), 'con': (1, 3, [5, 0], 2), '2d': (2, 2, [2, 2], 1)}[dim]
                case = gen.grating(rng, dim=dim, lossy_bot=False, shapes=sh)
            else:
                case = gen.grating(rng, dim=dim, lossy_bot=False)
                case['fto'] = [int(rng.integers(8, 16)), 0] if dim != '2d' else [3, 3]
            if rng.random() < .7:           # gentle contrast: converges
                u = np.asarray(case['ucell'])
                case['ucell'] = 1.5 + .25 * (u - u.mean())
                case['ucell'] = case['ucell'].real + (1j * np.minimum(case['ucell'].imag, 0) if np.iscomplexobj(u) else 0)
        case['fourier_type'] = case['fourier_type'] if job['kind'] == 'zero' else 1
        if case['phi'] is not None and case['pol'] in (0, 1):
            case['pol'] = .37       # keeps both runs out of the scalar formulation; the channels come from the companions anyway
        a = solve(b, case)
        fx, fy = case['fto']
        KX, KY = gen.orders(case)
        finer = None
        for side, n in (('top', case['n_top']), ('bot', case['n_bot'])):
            n = float(np.real(n))
            kz2 = n ** 2 - KX ** 2 - KY ** 2
            if job['kind'] == 'zero':
                picks = [(fy, fx)] if kz2[fy, fx] > 1e-6 else []
            else:
                ok = np.argwhere(kz2 > .005 * n * n)
                ok = [tuple(q) for q in ok if tuple(q) != (fy, fx)]
                picks = [ok[int(rng.integers(len(ok)))]] if ok else []
            for at in picks:
                d = reversed_case(case, (KX[at], KY[at]), side, rng)
                if d is None:
                    continue
                mon.case(dict(case=case, order=[int(q) for q in at], side=side))
                u = channels(a, side, at)
                o = solve(b, d)
                v = channels(o, side, at).T
                ctx = dict(case=case, reverse=d, order=at, backend=b)
                kin = (KX[fy, fx], KY[fy, fx])
                if case['phi'] is not None and (np.hypot(*kin) < 1e-7 or np.hypot(KX[at], KY[at]) < 1e-7):
                    u, v = u.sum(keepdims=True), v.sum(keepdims=True)      # polarization frames of a wave along z are arbitrary
                name = {'top': 'reflection', 'bot': 'transmission'}[side]
                if job['kind'] == 'zero':
                    tol = 1e-6 if b == 2 else 1e-8
                    if gen.cutoff_gap(case) < 1e-5 or gen.cutoff_gap(d) < 1e-5:
                        tol = 1e-3
                    mon.near(f'specular {name}', v, u, tol, **ctx)
                    continue
                if gen.cutoff_gap(case) < 1e-4:
                    mon.skip('order at cutoff')
                    continue
                up = [fx + 3, fy + 2 if fy else 0] if b != 1 else [fx + 2, fy + 1 if fy else 0]
                if finer is None:
                    finer = solve(b, dict(case, fto=up))
                at2 = (at[0] + up[1] - fy, at[1] + up[0] - fx)
                o2 = solve(b, dict(d, fto=up))
                u2, v2 = channels(finer, side, at2), channels(o2, side, at2).T
                if u.shape == (1, 1) and u2.shape != (1, 1):
                    u2, v2 = u2.sum(keepdims=True), v2.sum(keepdims=True)
                err = max(np.abs(u2 - u).max(), np.abs(v2 - v).max())
                if err > 2e-2:
                    mon.skip('not converged')
                    continue
                mon.near(f'order {name}', v2, u2, 1e-5 + 10 * err, **ctx)
