"""Convergence with the truncation to the exact solution of lamellar gratings (modal method without Fourier series)."""
import numpy as np

import gen
import modal
from drive import NAMES, rng_of, solve, tonp

RULE = ('random dielectric lamellar gratings (1-3 layers of 1-4 stripes, duty cycles from 4 to 96 %, oblique incidence, TE and TM) solved with growing truncation through the scalar, conical, crossed and vector descriptions, on '
        'every backend; the efficiencies of the propagating orders are compared with the exact modal solution, whose modes are roots of the characteristic equation of the profile (no Fourier '
        'series, no factorisation rule). Allowed: 0.6 times the observed change of the last doubling (an error that falls with the first power only exceeds it) plus the uncertainty of the modal solution. Distinct by input and description.')
ASSUMPTIONS = ['lossless dielectrics, no order within 1e-3 of cutoff', 'cases where the modal solution is not settled (2e-3) are inconclusive',
               'sampled Fourier series only approximates the profile: judged at 2e-3']
EXPECT = ['numpy exact', 'torch exact', 'jax exact', 'numpy improves', 'torch improves', 'numpy sampled', 'torch sampled']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 10
    jobs = [dict(kind='lam', b=b, seed=seed, i=i, n=3) for b in (0, 2) for i in range(40 * f)]
    jobs += [dict(kind='lam', b=1, seed=seed, i=i, n=1, lane=f'j{i % 8}', ln=i % 8) for i in range(8 * f)]
    return jobs


def problem(rng, nl=None):
    pol = int(rng.integers(2))
    nl = nl or int(rng.integers(1, 4))
    px = 24
    layers, cell = [], []
    for _ in range(nl):
        k = int(rng.integers(1, 5))
        cuts = np.sort(rng.choice(np.arange(1, px), k - 1, replace=False))
        n = 1 + 2.2 * rng.random(k) if rng.random() < .6 else rng.choice([1.0, 1.5, 2.0, 3.0], k)
        layers.append((n ** 2, np.append(cuts / px, 1.0)))
        cell.append(n[np.searchsorted(cuts, np.arange(px), side='right')])
    wl = float(gen.pick(rng, 1.0, 1.55e-6, 633.0))
    p = wl * gen.rnd(rng, .25, 1.7)
    return dict(n_top=float(gen.pick(rng, 1.0, 1.0, 1.5)), n_bot=gen.index_real(rng), theta=gen.rnd(rng, .05, 1.2) * gen.pick(rng, 1, 1, -1), phi=None, pol=pol,
                period=[p, p * gen.rnd(rng, .6, 1.4)], wavelength=wl, ucell=np.array(cell)[:, None], thickness=[wl * gen.rnd(rng, .05, .7) for _ in range(nl)],
                fto=[0, 0], fourier_type=1), layers


def stripes(layers, period):
    """The same cell as vector rectangles."""
    px, py = period
    out = []
    for eps, edges in layers:
        n = np.sqrt(eps)
        left = np.concatenate([[0], edges[:-1]])
        out.append([float(n[0]), [['rectangle', float((a + b) / 2 * px), py / 2, float((b - a) * px), py, float(v)] for v, a, b in list(zip(n, left, edges))[1:]]])
    return out


def describe(rng, case, layers, b):
    k = int(rng.integers(5)) if b != 1 else int(rng.integers(2))
    if k == 0:
        return 'scalar', case
    if k == 1:
        return 'conical', dict(case, phi=0.0)
    if k == 2:
        return 'rows', dict(case, phi=0.0, ucell=np.repeat(case['ucell'], 2, axis=1))
    if k == 3:
        return 'vector', dict(case, phi=0.0, ucell=stripes(layers, case['period']))
    # the grating turned by a quarter: stripes along x, incidence plane along y
    return 'turned', dict(case, phi=np.pi / 2, ucell=np.transpose(case['ucell'], (0, 2, 1))[:, ::-1].copy(), period=case['period'][::-1])


def middle(a, n, keep):
    v = np.asarray(a).ravel()
    c = len(v) // 2
    return v[c - keep:c + keep + 1]


def run_job(job, mon):
    b = job['b']
    for c in range(job['n']):
        rng = rng_of('C27', job['seed'], b, job['i'], c)
        case, layers = problem(rng, [1, 2][job['ln'] % 2] if b == 1 else None)
        kx = case['n_top'] * np.sin(case['theta']) * case['period'][0] / case['wavelength'] * 2
        if gen.cutoff_gap(dict(case, fto=[6, 0])) < 1e-3 or abs(kx - round(kx)) < 1e-3:
            mon.skip('near cutoff or zone edge')
            continue
        args = (case['n_top'], case['n_bot'], layers, case['thickness'], case['period'][0], case['wavelength'], case['theta'], case['pol'])
        keep = 5
        try:
            e1, e2 = [[middle(v, 0, keep) for v in modal.efficiencies(*args, n)] for n in (18, 26)]
        except (np.linalg.LinAlgError, ValueError):
            mon.skip('modal solution incomplete')
            continue
        unc = max(np.abs(x - y).max() for x, y in zip(e1, e2))
        if not unc < 2e-3:
            mon.skip('modal solution unsettled')
            continue
        how, d = describe(rng, case, layers, b)
        mon.case(dict(case=d, how=how))
        ns = (6, 12, 24) if b != 1 else (6, 12)
        got = []
        for n in ns:
            o = solve(b, dict(d, fto=[n, 0] if how != 'turned' else [0, n]))
            got.append([middle(o.R, n, keep), middle(o.T, n, keep)])
        move = max(np.abs(x - y).max() for x, y in zip(got[-1], got[-2]))
        ctx = dict(case=d, how=how, backend=NAMES[b], unc=unc, move=move)
        if move > .05:
            mon.skip('truncation too low')
            continue
        # with the right factorisation the error falls at least as the square of the truncation, so it is below the last change
        last = max(np.abs(x - y).max() for x, y in zip(got[-2], got[-3])) if len(got) > 2 else 0.0
        tol = (.6 if len(got) > 2 else 1.5) * move + .05 * last + 5 * unc + 2e-5
        for x, y, part in zip(got[-1], e2, 'RT'):
            mon.near(f'{NAMES[b]} exact', x, y, tol, part=part, **ctx)
        if len(ns) == 3:
            err = [max(np.abs(x - y).max() for x, y in zip(g, e2)) for g in got]
            mon.true(f'{NAMES[b]} improves', err[2] <= .8 * max(err[:2]) + 5 * unc + 1e-4, f'errors {err}', **ctx)
            if how != 'vector' and rng.random() < .5:
                o = solve(b, dict(d, fto=[12, 0] if how != 'turned' else [0, 12], fourier_type=0))
                for x, y, part in zip((o.R, o.T), got[1], 'RT'):
                    mon.near(f'{NAMES[b]} sampled', middle(x, 12, keep), y, 2e-3 + 2 * move, part=part, **ctx)
