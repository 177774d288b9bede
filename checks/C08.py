"""Linearity in the polarization; pol and psi."""
import numpy as np

import gen
from drive import NAMES, Out, make, rng_of, solve

RULE = ('random conical and 2D problems at random linear polarizations (pol or psi, inside and outside the first quadrant); the monitor '
        'recombines the companion TE/TM amplitudes and compares with the returned ones, repeats with another polarization and demands '
        'unchanged companions, and compares pol with the equivalent psi at construction and by assignment; 1D scalar solves too. '
        'Distinct by full input.')
ASSUMPTIONS = []
EXPECT = ['superposition', 'companions fixed', 'pol=psi', 'pure TE', 'pure TM', 'scalar pol=psi', 'quadrature']


def plan(tier, seed):
    return (gen.deck('C08', seed, tier, numpy=(64, 6), torch=(64, 4), jax=4)
            + gen.deck('C08', seed, tier, numpy=(8, 4), torch=(8, 3), jax=0, kind='vec'))


def identical(mon, name, a, b, tol, **ctx):
    for (n, s), (m, t) in zip(a, b):
        for k in ('R_s', 'R_p', 'T_s', 'T_p', 'de_ri', 'de_ti', 'de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
            u, v = getattr(s, k), getattr(t, k)
            mon.near(name, v, u, tol * (1 + np.abs(u)), part=k, which=n, **ctx)


def run_job(job, mon):
    b, ln = job['b'], job.get('ln', 0)
    for c in range(job['n']):
        rng = rng_of('C08', job['kind'], job['seed'], b, job['i'], c, ln)
        case = gen.any_case(rng, b, ln, **(dict(dim='2d') if job['kind'] == 'vec' else {}))
        if job['kind'] == 'vec':
            gen.vectorise(rng, case)
        gen.options(rng, case)
        mon.case(case)
        ctx = dict(case=case, backend=NAMES[b])
        psi = float(np.pi / 2 * (1 - case['pol']))
        if case['phi'] is None:
            a = solve(b, case)
            d = {k: v for k, v in case.items() if k != 'pol'}
            identical(mon, 'scalar pol=psi', a.subs(), solve(b, d, psi=psi).subs(), 1e-9, **ctx)
            m = make(b, dict(case, pol=1 - case['pol']))
            m.psi = psi
            identical(mon, 'scalar pol=psi', a.subs(), Out(m.conv_solve(), m).subs(), 1e-9, **ctx)
            s = a.res
            none, some = ('R_p', 'R_s') if case['pol'] == 0 else ('R_s', 'R_p')
            mon.near('scalar kind', getattr(s, none), np.zeros(s.R_s.shape), 0, **ctx)
            mon.near('scalar kind', getattr(s, none.replace('R', 'T')), np.zeros(s.R_s.shape), 0, **ctx)
            continue
        if rng.random() < .3:
            psi = gen.pick(rng, gen.rnd(rng, -3.1, 3.1), gen.rnd(rng, np.pi / 2, np.pi))
            d = {k: v for k, v in case.items() if k != 'pol'}
            m = make(b, d, psi=psi)
        else:
            m = make(b, case)
        a = Out(m.conv_solve(), m)
        if a.te is None:       # torch answers pure TE/TM at azimuth 0 with the scalar form
            mon.skip('scalar form')
            continue
        cs, sn = np.cos(psi), np.sin(psi)
        kx, ky = gen.orders(case)
        p_in = 1.0
        for k in ('R_s', 'R_p', 'T_s', 'T_p'):
            te, tm, r = getattr(a.te, k), getattr(a.tm, k), getattr(a.res, k)
            mon.near('superposition', r, cs * tm + sn * te, (1e-7 if b == 2 else 1e-9) * (1 + abs(te) + abs(tm)), part=k, psi=psi, **ctx)
        # orthogonal polarization: the two powers add up to the TE and TM powers of every order
        o = solve(b, {k: v for k, v in case.items() if k != 'pol'}, psi=psi - np.pi / 2)
        if o.te is not None:
            for k in ('de_ri', 'de_ti', 'de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
                mon.near('quadrature', getattr(a.res, k) + getattr(o.res, k), getattr(a.te, k) + getattr(a.tm, k),
                         1e-7 if b == 2 else 1e-9, part=k, psi=psi, **ctx)
            identical(mon, 'companions fixed', a.subs()[1:], o.subs()[1:], 1e-8, **ctx)
        p2 = float(gen.pick(rng, .25, gen.rnd(rng, .01, .99), gen.rnd(rng, .01, .99), 10 ** gen.rnd(rng, -7, -2), 1 - 10 ** gen.rnd(rng, -7, -2)))
        d = {k: v for k, v in case.items() if k != 'pol'}
        u = solve(b, d, pol=p2)
        identical(mon, 'companions fixed', a.subs()[1:], u.subs()[1:], 1e-8, **ctx)
        w = solve(b, d, psi=float(np.pi / 2 * (1 - p2)))
        identical(mon, 'pol=psi', u.subs(), w.subs(), 1e-8, **ctx)
        m.pol = p2
        identical(mon, 'pol=psi', u.subs(), Out(m.conv_solve(), m).subs(), 1e-8, assigned='pol', **ctx)
        m.psi = psi
        identical(mon, 'pol=psi', a.subs(), Out(m.conv_solve(), m).subs(), 1e-8, assigned='psi', **ctx)
        for pol, which in ((0, 'te'), (1, 'tm')):
            v = solve(b, d, pol=pol)
            comp = getattr(a, which)
            nm = 'pure TE' if pol == 0 else 'pure TM'
            for k in ('de_ri', 'de_ti'):
                mon.near(nm, getattr(v.res, k), getattr(comp, k), 1e-6 if b == 2 else 1e-8, part=k, **ctx)
            mon.true('pol reads back', abs(float(np.real(np.asarray(v.mee.pol))) - pol) < 1e-5, f'{v.mee.pol}', **ctx)
