"""Homogeneous stacks against closed-form thin-film optics (characteristic matrices)."""
import numpy as np

import gen
import refrcwa as rr
from drive import NAMES, rng_of, solve

RULE = ('random uniform stacks written in many ways (one pixel, many equal pixels, base index of a vector layer, a covering rectangle), '
        'at random truncation, angle (normal, Brewster, beyond the critical angle, near grazing), real / absorbing / metallic media, '
        'solved on the real code; the monitor compares the specular efficiencies and complex amplitudes of every returned '
        'polarization with the characteristic-matrix formula and demands empty higher orders. Distinct by full input.')
ASSUMPTIONS = ['incidence strictly below 90 degrees', 'amplitude sign at azimuth exactly +-90 degrees is not compared']
EXPECT = ['film R', 'film T', 'specular only', 'film amplitude', 'brewster', 'tir']


def plan(tier, seed):
    return gen.deck('C03', seed, tier, numpy=(80, 10), torch=(80, 6), jax=7)


def describe(rng, b, ln, dim, n_layers):
    """Equivalent ways of writing a uniform stack."""
    real = all(np.imag(n) == 0 for n in n_layers)
    kind = int(rng.integers(4)) if b != 1 else ln % 4
    if dim != '2d' or kind < 2:
        if b == 1:
            ny, nx = (1, 3) if dim != '2d' else (2, 2)
        else:
            ny = 1 if dim != '2d' else int(rng.integers(2, 5))
            nx = int(rng.integers(1, 7))
        u = np.stack([np.full((ny, nx), n) for n in n_layers])
        return u.real.astype(float) if real else u.astype(complex)
    return None


def run_job(job, mon):
    b, ln = job['b'], job.get('ln', 0)
    for c in range(job['n']):
        rng = rng_of('C03', job['kind'], job['seed'], b, job['i'], c, ln)
        if b == 1:
            dim, nl, fto = [('1d', 2, [2, 0]), ('con', 1, [1, 0]), ('2d', 2, [1, 1]), ('2d', 1, [0, 1]), ('con', 3, [2, 0]),
                            ('1d', 1, [0, 0]), ('2d', 3, [1, 0]), ('con', 2, [0, 0])][ln]
        else:
            dim = gen.pick(rng, '1d', 'con', '2d')
            nl = int(rng.integers(1, 6))
            fto = [int(rng.integers(0, 6)), 0] if dim != '2d' else [int(rng.integers(0, 3)), int(rng.integers(0, 3))]
        lossy = rng.random() < .5
        n_layers = [gen.index_lossy(rng) if lossy and rng.random() < .6 else gen.index_real(rng) for _ in range(nl)]
        case = gen.grating(rng, dim=dim, lossy=False, lossy_bot=lossy and rng.random() < .5, shapes=(2, 2, fto, nl))
        case['fto'] = fto
        special = int(rng.integers(8))
        nt = case['n_top']
        if special == 0 and np.isreal(case['n_bot']):      # bare interface
            n_layers = [gen.pick(rng, nt, case['n_bot'])] * nl
            if rng.random() < .5:
                case['thickness'] = [0.0] * nl
        if special == 1:                                   # Brewster on a bare interface
            case['n_bot'] = gen.rnd(rng, 1.1, 3.0)
            n_layers = [case['n_bot']] * nl
            case['theta'] = float(np.arctan(case['n_bot'] / nt))
            case['pol'] = 1
        if special == 2:                                   # total internal reflection
            case['n_top'] = nt = gen.rnd(rng, 1.8, 3.5)
            case['n_bot'] = gen.rnd(rng, 1.0, 1.6)
            n_layers = [gen.rnd(rng, 1.0, 3.5) for _ in range(nl)]
            crit = np.arcsin(case['n_bot'] / nt)
            case['theta'] = float(crit + (1.5 - crit) * rng.random())
        if special == 3:                                   # very thick absorber
            n_layers[0] = complex(gen.rnd(rng, 1, 3), -gen.rnd(rng, .5, 4))
            case['thickness'][0] = case['wavelength'] * gen.rnd(rng, 5, 200)
        u = describe(rng, b, ln, dim, n_layers)
        if u is None:
            base = [gen.index_real(rng) for _ in n_layers]
            px, py = case['period']
            u = []
            for n, o in zip(n_layers, base):
                w = int(rng.integers(3))
                if w == 0:
                    u.append([n, []])
                elif w == 1:
                    u.append([o, [['rectangle', px / 2, py / 2, px, py, n]]])
                else:
                    u.append([o, [['rectangle', px / 4, py / 2, px / 2, py, n], ['rectangle', px * .75, py / 2, px / 2, py, n]]])
        case['ucell'] = u
        gen.options(rng, case)
        mon.case(dict(case=case, n_layers=n_layers))
        out = solve(b, case)
        w = rr.slab_stack(case['n_top'], case['n_bot'], n_layers, case['thickness'], case['theta'], case['wavelength'])
        tol = 1e-6 if b == 2 else 1e-8
        psi = np.pi / 2 * (1 - case['pol'])
        pols = dict(res=(np.sin(psi), np.cos(psi)), te=(1.0, 0.0), tm=(0.0, 1.0))
        fx, fy = case['fto']
        ctr = (fy, fx)
        scalar = out.te is None
        for which, s in out.subs():
            a, p = pols[which]
            ctx = dict(case=case, backend=NAMES[b], which=which)
            wr, wt = a * a * w['Rs'] + p * p * w['Rp'], a * a * w['Ts'] + p * p * w['Tp']
            mon.near('film R', s.de_ri[ctr], wr, tol, **ctx)
            mon.near('film T', s.de_ti[ctr], wt, tol, **ctx)
            for de in (s.de_ri, s.de_ti):
                rest = de.copy()
                rest[ctr] = 0
                mon.near('specular only', rest, np.zeros(de.shape), 1e-9, **ctx)
            if abs(np.sin(case['theta'])) > 1e-5:
                for part, val in (('de_ri_s', a * a * w['Rs']), ('de_ri_p', p * p * w['Rp']), ('de_ti_s', a * a * w['Ts']),
                                  ('de_ti_p', p * p * w['Tp'])):
                    mon.near('film s/p parts', getattr(s, part)[ctr], val, tol, part=part, **ctx)
                n, nb = complex(case['n_top']), complex(case['n_bot'])
                amp = dict(R_s=a * w['rs'], R_p=p * w['rp'], T_s=a * w['ts'], T_p=p * w['tp'])
                if not scalar:
                    if b == 2:
                        amp['T_p'] *= n / nb
                    else:
                        amp['R_p'] *= -1j * n
                        amp['T_p'] *= -1j * n
                for k, want in amp.items():
                    want = np.conj(want) if b == 2 else want
                    got = getattr(s, k)[ctr]
                    t = 10 * tol * (1 + abs(want))
                    if abs(np.cos(case['phi'] or 0)) > 1e-7:
                        mon.near('film amplitude', got, want, t, part=k, **ctx)
                    else:
                        mon.near('film magnitude', abs(got), abs(want), t, part=k, **ctx)
            if special == 1 and which != 'te':
                mon.near('brewster', s.de_ri[ctr], 0.0, tol, **ctx)
            if special == 2:
                mon.near('tir', s.de_ri[ctr], 1.0, tol, **ctx)
