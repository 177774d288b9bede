"""Extreme but valid inputs: finite, conserving, and equal to the limit of nearby inputs."""
import numpy as np

import fields
import gen
import oracle
import refrcwa as rr
from drive import NAMES, rng_of, solve, tonp

RULE = ('base problems of every formulation pushed to an injected extreme: orders exactly at cutoff of the half-spaces or of a uniform layer (lengths chosen so that the '
        'equality holds in floating point), orders leaving exactly along the normal, exactly normal, nearly normal (down to 1e-30) and nearly grazing incidence, azimuths at and around multiples of 90 degrees and many turns away, '
        'zero / 1e-15 / hundreds to 1e4 wavelength thick layers (propagating, evanescent, absorbing, metallic), contrasts down to 1e-16, index-matched and repeated-index layers, extreme units (1e-18..1e18), '
        'periods much smaller and much larger than the wavelength, single-pixel cells, truncation 0 and many thin layers. Every recorded result must be finite and passive, conserve energy if lossless, agree '
        'with the independent solution where that is regular, and with the result a minute parameter change away; the field map of most of them must be finite, carry the powers 1 - R and T, and equal the independent field. Distinct by input and extreme.')
ASSUMPTIONS = ['near cutoff efficiencies vary like the square root of the distance, which sets the tolerance of the comparison with nearby inputs',
               'incidence strictly below 90 degrees']
KINDS = ['straight', 'cutoff', 'normal', 'grazing', 'azimuth', 'thick', 'thin', 'contrast', 'matched', 'units', 'period', 'pixel', 'many']
EXPECT = [f'{k} finite' for k in KINDS] + [f'{k} energy' for k in KINDS] + ['cutoff limit', 'contrast limit', 'normal limit', 'thin limit', 'units same', 'matched transparent',
                                                                             'thick model R', 'grazing model R', 'thick field', 'thin field', 'normal field', 'grazing field', 'many field', 'cutoff field finite']

SHAPES = [('1d', 1, 4, [2, 0], 2), ('con', 1, 3, [1, 0], 2), ('2d', 2, 2, [1, 1], 2), ('1d', 1, 3, [1, 0], 3), ('con', 1, 4, [2, 0], 1),
          ('2d', 2, 3, [1, 1], 1), ('2d', 3, 2, [0, 2], 2), ('con', 1, 2, [1, 0], 3)]


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    jobs = []
    for k, kind in enumerate(KINDS):
        jobs += [dict(kind=kind, b=b, seed=seed, i=i, n=4) for b in (0, 2) for i in range((16 if kind == 'cutoff' else 8) * f)]
        for r in range(2 * f):
            ln = (k + 4 * r) % 8
            jobs.append(dict(kind=kind, b=1, seed=seed, i=r, n=1, lane=f'j{ln}', ln=ln))
    return jobs


def base(rng, b, ln, lossy=False, **kw):
    if b == 1:
        dim, ny, nx, fto, nl = SHAPES[ln]
        c = gen.grating(rng, dim=dim, shapes=(ny, nx, list(fto), nl), hostile=False, scale=False, zero_thickness=False, lossy=lossy, **kw)
    else:
        c = gen.grating(rng, hostile=False, scale=False, zero_thickness=False, lossy=lossy, **kw)
    if rng.random() < .5:
        c['fourier_type'] = 1
    return c


def lossless(case):
    def real(x):
        return not np.any(np.imag(np.asarray(x)))
    return real(case['ucell']) and real(case['n_bot'])


def watch(mon, kind, b, case, out, energy=1e-7, extra=None):
    """Finite, passive and conserving."""
    ctx = dict(case=case, backend=NAMES[b], extreme=extra)
    for which, s in out.subs():
        every = np.concatenate([np.asarray(getattr(s, k)).ravel() for k in ('R_s', 'R_p', 'T_s', 'T_p')])
        de = np.concatenate([np.asarray(getattr(s, k)).ravel() for k in ('de_ri', 'de_ti', 'de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p')])
        if not mon.true(f'{kind} finite', np.isfinite(every).all() and np.isfinite(de).all(), 'nan or inf in the result', which=which, **ctx):
            continue
        tot = s.de_ri.sum() + s.de_ti.sum()
        mon.true(f'{kind} range', de.min() > -energy and de.max() < 1 + energy and tot < 1 + energy, f'min {de.min()} max {de.max()} sum {tot}', which=which, **ctx)
        if lossless(case):
            mon.near(f'{kind} energy', tot, 1.0, energy, which=which, **ctx)


def model(mon, kind, b, case, out, tol, max_cond=1e9):
    if case.get('fourier_type') != 1:
        case = dict(case, sampling=oracle.sampling_of(case))
    try:
        oracle.compare(mon, f'{kind} model', b, case, out, tol, amps=False, parts=False, max_cond=max_cond)
    except np.linalg.LinAlgError:
        mon.skip('reference singular')


def chart(mon, kind, b, case, out, rng, digits=1e-6, model=True):
    """The field map at the same extreme: finite, carrying 1 - R in and T out, never gaining power on the way down, and the independent field."""
    if rng.random() < (.5 if b == 1 else .25):
        return
    fx, fy = case['fto']
    scalar = out.te is None
    res = (2 * fx + 3, 1 if scalar else 2 * fy + 3, 3)
    raw = tonp(out.mee.calculate_field(res_x=res[0], res_y=res[1], res_z=res[2], set_field_input=(True, False, False)))
    ctx = dict(case=case, backend=NAMES[b])
    if not mon.true(f'{kind} field finite', np.isfinite(raw).all(), 'nan or inf in the field map', **ctx):
        return
    f = fields.to_ref(raw, b, scalar, case)[0]
    top = max(1.0, np.abs(f).max() ** 2)
    s = fields.flux(f, case)
    digits = digits * top / abs(np.cos(case['theta']))
    mon.near(f'{kind} field power', s[0], 1 - out.R.sum(), digits, plane='top', **ctx)
    mon.near(f'{kind} field power', s[-1], out.T.sum(), digits, plane='bottom', **ctx)
    mon.true(f'{kind} field power', np.diff(s).max() < 2 * digits, f'gain {np.diff(s).max()}', **ctx)
    if not model or gen.cutoff_gap(case) < 1e-3:
        return
    try:
        ref = oracle.reference(case if case.get('fourier_type') == 1 else dict(case, sampling=oracle.sampling_of(case)))
    except np.linalg.LinAlgError:
        return mon.skip('reference singular')
    if not ref.cond < 1e6:
        return mon.skip('reference ill-conditioned')
    psi = oracle.psi_of(case)
    want = np.concatenate(ref.solve(np.sin(psi), np.cos(psi)).fields(*fields.grid(case, res, scalar)))
    if np.vdot(f, want).real < 0 and abs(np.cos(ref.phi)) < 1e-5:
        f = -f
    mon.near(f'{kind} field', f, want, digits + 3e-6 * (1 + np.abs(want).max()), **ctx)


def limit(mon, kind, b, case, a, o, tol, **ctx):
    for (n, s), (_, t) in zip(a.subs(), o.subs()):
        for k in ('de_ri', 'de_ti'):
            mon.near(f'{kind} limit', getattr(s, k), getattr(t, k), tol, part=k, case=case, which=n, backend=NAMES[b], **ctx)


def run_job(job, mon):
    b, ln, kind = job['b'], job.get('ln', 0), job['kind']
    for c in range(job['n']):
        rng = rng_of('C23', kind, job['seed'], b, job['i'], c, ln)
        globals()['do_' + kind](mon, rng, b, ln)


# ------------------------------------------------------------------------------------------------ extremes
def do_cutoff(mon, rng, b, ln):
    case = base(rng, b, ln, lossy=bool(rng.random() < .2))
    wl = case['wavelength'] = float(gen.pick(rng, 1.0, 2.0, .5, 1024.0))
    where = gen.pick(rng, 'top', 'bot', 'layer', 'layer', 'all')
    n = float(gen.pick(rng, 1.0, 1.5, 2.0, 1.25, 3.0))
    m = int(rng.integers(1, 3))
    p = wl * m / n
    case['period'] = [p, float(gen.pick(rng, p, p, 1.37 * p))]
    case['thickness'] = [wl * gen.rnd(rng, .1, 1.2) for _ in case['thickness']]
    how = int(rng.integers(3))
    case['n_top'] = 1.0
    if how == 0 or case['phi'] is None:
        case['theta'] = 0.0
    elif how == 1:
        case['phi'] = float(gen.pick(rng, np.pi / 2, -np.pi / 2, 1.5 * np.pi))
        case['period'] = [p, p * gen.rnd(rng, .7, 1.6)]
        case['theta'] = float(gen.pick(rng, 0.0, .3))
    else:
        case['theta'] = 0.0
        case['phi'] = gen.rnd(rng, 0, 6)
    if case['fto'][1] and rng.random() < .5:           # the order along y
        case['period'] = case['period'][::-1]
        if how == 1:
            case['phi'] = float(gen.pick(rng, 0.0, np.pi))
    if where in ('top', 'all'):
        case['n_top'] = n
    if where in ('bot', 'all'):
        case['n_bot'] = n
    if where in ('layer', 'all'):
        u = case['ucell'] = case['ucell'].copy()
        u[int(rng.integers(len(u)))] = n
    mon.case(dict(case, extreme=where))
    out = solve(b, case)
    digits = 5e-3 if where in ('layer', 'all') else 2e-5        # the mode matrices of the layer are nearly singular there
    watch(mon, 'cutoff', b, case, out, energy=digits, extra=where)
    chart(mon, 'cutoff', b, case, out, rng, 10 * digits, model=False)
    # the neighbour on one side differs by O(sqrt(delta))
    near = []
    for d in (1e-8, -1e-8):
        c2 = dict(case, wavelength=wl * (1 + d))
        o2 = solve(b, c2)
        watch(mon, 'cutoff', b, c2, o2, energy=digits, extra=where)
        near.append(o2)
    span = max(float(np.abs(getattr(s, k) - getattr(t, k)).max()) for (_, s), (_, t) in zip(near[0].subs(), near[1].subs()) for k in ('de_ri', 'de_ti'))
    if span > .1:
        return mon.skip('resonance at cutoff')
    for o2 in near:
        limit(mon, 'cutoff', b, case, out, o2, 3 * span + 3e-3, where=where)


def do_straight(mon, rng, b, ln):
    """An order that leaves along the normal (its kx, or kx and ky, exactly 0) under oblique incidence."""
    case = base(rng, b, ln, lossy=bool(rng.random() < .3))
    if case['fto'][0] == 0:
        case['fto'] = [int(rng.integers(1, 3)), case['fto'][1]]
    exact = rng.random() < .5
    if exact:                              # representable: half the wave is handed over by the incidence
        case['n_top'], case['theta'] = gen.pick(rng, (1.0, np.arcsin(.5)), (2.0, np.arcsin(.25)), (1.5, np.arcsin(1 / 3)))
    case['theta'] = float(abs(case['theta']) + (0.0 if exact else .05)) * float(gen.pick(rng, 1, -1))
    if case['phi'] is not None:
        case['phi'] = float(gen.pick(rng, 0.0, 0.0, np.pi, np.pi / 2, -np.pi / 2, np.pi / 4, .7))
    m = int(rng.integers(1, case['fto'][0] + 1))
    phi = case['phi'] or 0.0
    kx, ky = [abs(case['n_top'] * np.sin(case['theta']) * f(phi)) for f in (np.cos, np.sin)]
    wl = case['wavelength']
    px = wl * m / kx if kx > 1e-3 else case['period'][0]
    py = case['period'][1]
    if case['fto'][1] and ky > 1e-3 and rng.random() < .7:
        py = wl * int(rng.integers(1, case['fto'][1] + 1)) / ky
    turns = [0] if b == 1 else range(-2, 3)
    if gen.cutoff_gap(dict(case, period=[px, py])) < 1e-3:
        return mon.skip('near cutoff')
    outs = []
    for k in turns:                        # neighbouring numbers, as the equality has to hold after rounding
        c2 = dict(case, period=[px * (1 + k * 2.3e-16), py])
        mon.case(dict(c2, extreme=k))
        outs.append(solve(b, c2))
        watch(mon, 'straight', b, c2, outs[-1], extra=k)
        model(mon, 'straight', b, c2, outs[-1], 1e-6)
        chart(mon, 'straight', b, c2, outs[-1], rng, 1e-5)
    limit(mon, 'straight', b, case, outs[0], solve(b, dict(case, period=[px * (1 + 1e-9), py])), 1e-5)


def do_normal(mon, rng, b, ln):
    case = base(rng, b, ln, lossy=bool(rng.random() < .3))
    if gen.cutoff_gap(dict(case, theta=0.0)) < 1e-2:
        return mon.skip('near cutoff')
    tiny = float(gen.pick(rng, 0.0, -0.0, 1e-30, 1e-20, -1e-16, 1e-12, 1e-9))
    case['theta'] = tiny
    if case['phi'] is not None and rng.random() < .5:
        case['phi'] = float(gen.pick(rng, 0.0, np.pi / 2, np.pi, -np.pi / 2))
    mon.case(dict(case, extreme=tiny))
    out = solve(b, case)
    watch(mon, 'normal', b, case, out, extra=tiny)
    model(mon, 'normal', b, case, out, 1e-6)
    chart(mon, 'normal', b, case, out, rng)
    limit(mon, 'normal', b, case, out, solve(b, dict(case, theta=1e-7)), 2e-5, tiny=tiny)


def do_grazing(mon, rng, b, ln):
    case = base(rng, b, ln, lossy=bool(rng.random() < .3))
    gap = float(10 ** -gen.rnd(rng, 1, 4))          # radians from 90 degrees
    case['theta'] = (np.pi / 2 - gap) * float(gen.pick(rng, 1, 1, -1))
    mon.case(dict(case, extreme=gap))
    out = solve(b, case)
    watch(mon, 'grazing', b, case, out, energy=1e-9 / gap + 1e-7, extra=gap)
    chart(mon, 'grazing', b, case, out, rng)
    if gen.cutoff_gap(case) > 1e-9:
        model(mon, 'grazing', b, case, out, 1e-6 + 1e-9 / gap)


def do_azimuth(mon, rng, b, ln):
    case = base(rng, b, ln, lossy=bool(rng.random() < .3))
    if case['phi'] is None:
        case['phi'] = 0.0
    d = float(gen.pick(rng, 0.0, 1e-16, 1e-12, -1e-12, 1e-9, -1e-6))
    k = int(rng.integers(-4, 5))
    case['phi'] = k * np.pi / 2 + d + 2 * np.pi * int(gen.pick(rng, 0, 0, 1, -3, 100))
    mon.case(dict(case, extreme=case['phi']))
    out = solve(b, case)
    if gen.cutoff_gap(case) < 1e-5:
        return mon.skip('near cutoff')
    watch(mon, 'azimuth', b, case, out, extra=d)
    chart(mon, 'azimuth', b, case, out, rng, 1e-5)
    model(mon, 'azimuth', b, case, out, 1e-6)


def do_thick(mon, rng, b, ln):
    lossy = bool(rng.random() < .6)
    case = base(rng, b, ln, lossy=lossy)
    wl = case['wavelength']
    which = int(rng.integers(len(case['thickness'])))
    mult = float(10 ** gen.rnd(rng, 1, 4))
    case['thickness'] = list(case['thickness'])
    case['thickness'][which] = wl * mult
    if rng.random() < .3:
        case['thickness'] = [wl * mult * gen.rnd(rng, .5, 1) for _ in case['thickness']]
    kind = int(rng.integers(3))
    u = case['ucell']
    if kind == 0:             # frustrated: high index top, low index layer beyond the critical angle
        case['n_top'], case['theta'] = 3.0, 1.2
        u = u.copy()
        u[which] = 1.0 + .05 * rng.random(u.shape[1:])
    elif kind == 1 and lossy:             # metal
        u = u.astype(complex)
        u[which] = complex(.2, -4.0) - .3j * rng.random(u.shape[1:])
    case['ucell'] = u
    if gen.cutoff_gap(case) < 1e-3:
        return mon.skip('near cutoff')
    mon.case(dict(case, extreme=mult))
    out = solve(b, case)
    watch(mon, 'thick', b, case, out, energy=1e-7, extra=mult)
    # phases of 2 pi n mult are only known to mult * 1e-12
    chart(mon, 'thick', b, case, out, rng, 1e-6 + 1e-9 * mult)
    model(mon, 'thick', b, case, out, 1e-6 + 1e-9 * mult, max_cond=1e6)


def do_thin(mon, rng, b, ln):
    case = base(rng, b, ln, lossy=bool(rng.random() < .4))
    wl = case['wavelength']
    t = float(gen.pick(rng, 0.0, 1e-300, 1e-18, 1e-15, 1e-12))
    th = list(case['thickness'])
    which = [i for i in range(len(th)) if rng.random() < .6] or [0]
    for i in which:
        th[i] = wl * t
    case['thickness'] = th
    if gen.cutoff_gap(case) < 1e-3:
        return mon.skip('near cutoff')
    mon.case(dict(case, extreme=t))
    out = solve(b, case)
    watch(mon, 'thin', b, case, out, extra=t)
    model(mon, 'thin', b, case, out, 1e-6)
    chart(mon, 'thin', b, case, out, rng)
    c2 = dict(case, thickness=[wl * 1e-8 if i in which else v for i, v in enumerate(th)])
    limit(mon, 'thin', b, case, out, solve(b, c2), 1e-4, t=t)


def do_contrast(mon, rng, b, ln):
    case = base(rng, b, ln)
    h = float(10 ** -gen.rnd(rng, 4, 17))
    u = case['ucell']
    flat = np.stack([np.full(u.shape[1:], gen.pick(rng, gen.index_real(rng), case['n_top'], gen.rnd(rng, 1.2, 3))) for _ in u]).astype(float)
    pattern = rng.normal(size=u.shape)
    case['ucell'] = flat + h * pattern
    if gen.cutoff_gap(case) < 1e-2 or layer_gap(case, flat) < 1e-2:
        return mon.skip('near cutoff')
    mon.case(dict(case, extreme=h))
    out = solve(b, case)
    watch(mon, 'contrast', b, case, out, extra=h)
    w = rr.slab_stack(case['n_top'], case['n_bot'], [f.flat[0] for f in flat], case['thickness'], case['theta'], case['wavelength'])
    psi = np.pi / 2 * (1 - case['pol'])
    pols = dict(res=(np.sin(psi), np.cos(psi)), te=(1.0, 0.0), tm=(0.0, 1.0))
    fx, fy = case['fto']
    phase = sum(case['thickness']) / case['wavelength']
    for which, s in out.subs():
        a, p = pols[which]
        for k, v in (('de_ri', a * a * w['Rs'] + p * p * w['Rp']), ('de_ti', a * a * w['Ts'] + p * p * w['Tp'])):
            want = np.zeros((2 * fy + 1, 2 * fx + 1))
            want[fy, fx] = v
            mon.near('contrast limit', getattr(s, k), want, 1e-6 + 3e3 * h * (1 + phase), part=k, which=which, case=case, backend=NAMES[b], h=h)


def layer_gap(case, flat):
    kx, ky = gen.orders(case)
    return min(np.abs(f.flat[0] ** 2 - kx ** 2 - ky ** 2).min() for f in flat)


def do_matched(mon, rng, b, ln):
    case = base(rng, b, ln)
    n = case['n_top']
    mode = int(rng.integers(3))
    u = case['ucell'].copy()
    if mode == 0:           # everything one index: transparent
        u[:] = n
        case['n_bot'] = n
    elif mode == 1:         # layers equal to the neighbouring half-space
        u[0] = n
        if len(u) > 1:
            u[-1] = case['n_bot']
    else:                   # repeated layer
        u[:] = u[0]
    case['ucell'] = u
    if gen.cutoff_gap(case) < 1e-3:
        return mon.skip('near cutoff')
    mon.case(dict(case, extreme=mode))
    out = solve(b, case)
    watch(mon, 'matched', b, case, out, extra=mode)
    chart(mon, 'matched', b, case, out, rng, 1e-5)
    if mode == 0:
        fx, fy = case['fto']
        want = np.zeros((2 * fy + 1, 2 * fx + 1))
        for which, s in out.subs():
            mon.near('matched transparent', s.de_ri, want, 1e-7, which=which, case=case, backend=NAMES[b])
            w = want.copy()
            w[fy, fx] = 1
            mon.near('matched transparent', s.de_ti, w, 1e-7, which=which, case=case, backend=NAMES[b])
    else:
        model(mon, 'matched', b, case, out, 1e-6)


def do_units(mon, rng, b, ln):
    case = base(rng, b, ln, lossy=bool(rng.random() < .3))
    if gen.cutoff_gap(case) < 1e-3:
        return mon.skip('near cutoff')
    f = float(gen.pick(rng, 1e-18, 1e-12, 1e-9, 1e-6, 1e3, 1e9, 1e12, 1e18))
    big = dict(case, wavelength=case['wavelength'] * f, period=[p * f for p in case['period']], thickness=[t * f for t in case['thickness']])
    mon.case(dict(big, extreme=f))
    out = solve(b, big)
    watch(mon, 'units', b, big, out, extra=f)
    chart(mon, 'units', b, big, out, rng, 1e-5)
    ref = solve(b, case)
    for (n, s), (_, t) in zip(ref.subs(), out.subs()):
        for k in ('de_ri', 'de_ti'):
            mon.near('units same', getattr(t, k), getattr(s, k), 1e-7, part=k, case=case, which=n, backend=NAMES[b], f=f)


def do_period(mon, rng, b, ln):
    case = base(rng, b, ln, lossy=bool(rng.random() < .3))
    f = float(10 ** gen.pick(rng, gen.rnd(rng, -3, -1), gen.rnd(rng, 1, 2)))
    g = f if rng.random() < .5 else float(10 ** gen.rnd(rng, -.5, .5))
    case['period'] = [case['wavelength'] * f, case['wavelength'] * g]
    if gen.cutoff_gap(case) < 1e-3:
        return mon.skip('near cutoff')
    mon.case(dict(case, extreme=f))
    out = solve(b, case)
    watch(mon, 'period', b, case, out, energy=1e-6, extra=f)
    chart(mon, 'period', b, case, out, rng, 1e-5)
    model(mon, 'period', b, case, out, 1e-5, max_cond=1e8)


def do_pixel(mon, rng, b, ln):
    case = base(rng, b, ln, lossy=bool(rng.random() < .3))
    if b != 1:
        k = int(rng.integers(3))
        if k == 0:
            case['ucell'] = case['ucell'][:, :, :1] if case['ucell'].shape[1] == 1 else case['ucell'][:, :2, :1]
        elif k == 1:
            case['fto'] = [0, 0]
        else:
            case['ucell'], case['fto'] = case['ucell'][:, :1, :1], [0, 0]
    else:
        case['fto'] = [0, 0]
    if gen.cutoff_gap(case) < 1e-3:
        return mon.skip('near cutoff')
    mon.case(case)
    out = solve(b, case)
    watch(mon, 'pixel', b, case, out)
    chart(mon, 'pixel', b, case, out, rng, 1e-5)
    model(mon, 'pixel', b, case, out, 1e-6)


def do_many(mon, rng, b, ln):
    case = base(rng, b, ln, lossy=bool(rng.random() < .3))
    n = int(rng.integers(20, 60)) if b != 1 else 6
    u = case['ucell']
    case['ucell'] = np.concatenate([u] * (n // len(u) + 1))[:n] * (1 + .2 * rng.random((n, 1, 1)))
    case['thickness'] = [case['wavelength'] * gen.rnd(rng, 0, .3) for _ in range(n)]
    case['fto'] = [min(v, 2) for v in case['fto']]
    if gen.cutoff_gap(case) < 1e-3:
        return mon.skip('near cutoff')
    mon.case(dict(case, extreme=n))
    out = solve(b, case)
    watch(mon, 'many', b, case, out, energy=1e-6, extra=n)
    chart(mon, 'many', b, case, out, rng, 1e-5)
    model(mon, 'many', b, case, out, 1e-5, max_cond=1e7)
