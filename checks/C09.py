"""Symmetry-related problems have symmetry-related answers."""
import numpy as np

import gen
from drive import NAMES, rng_of, solve

RULE = ('a random problem and its image under scaling of all lengths, cyclic shift of the pattern, mirroring in x or y, half turn, '
        'exchange of axes, full turns of the azimuth and (-theta, phi+180deg) are both solved by the package; the monitor maps the '
        'orders onto each other (efficiencies of res/TE/TM, s and p parts; shifted amplitudes by their phase). Distinct by input and symmetry.')
ASSUMPTIONS = ['mirror images reverse the sign of psi for mixed polarization (handedness)',
               'exchange of axes is demanded of stacks whose layers each vary along one axis: the truncated operators of a truly 2D layer treat x and y in sequence and agree under exchange only in the limit',
               'orders within 1e-6 of cutoff are compared loosely because the images round differently']
SYMS = ['scale', 'shift', 'mirror x', 'mirror y', 'half turn', 'exchange', 'turn', 'negate']
EXPECT = SYMS + ['shift phase']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    jobs = []
    for i in range(3 * f):
        for l, v in enumerate(SYMS):
            jobs.append(dict(kind='s', b=1, seed=seed, i=i, n=2, lane=f'j{l}', ln=l, v=[v]))
    for b in (0, 2):
        jobs += [dict(kind='s', b=b, seed=seed, i=i, n=3 if b == 0 else 2, v=SYMS) for i in range((64 if b == 0 else 56) * f)]
        jobs += [dict(kind='vec', b=b, seed=seed, i=i, n=2, v=SYMS) for i in range(10 * f)]
    return jobs


def flip_psi(d, case):
    if case['phi'] is not None:
        d['psi'] = -float(np.pi / 2 * (1 - case['pol']))
        d.pop('pol', None)


def crossed(case, rng, boxes):
    """Makes every layer vary along one axis only (woodpile), where the truncated operators are symmetric under exchange."""
    case['crossed'] = True
    if boxes is None:
        cells = case['ucell'].copy()
        for layer in cells:
            if rng.random() < .5 or layer.shape[0] == 1:
                layer[:] = layer[:1]
            else:
                layer[:] = layer[:, :1]
        case['ucell'] = cells
    else:
        px, py = case['period']
        for j, (base, bx) in enumerate(boxes):
            if rng.random() < .5:
                boxes[j] = (base, [(x0, x1, 0.0, py, n) for x0, x1, _, _, n in bx])
            else:
                boxes[j] = (base, [(0.0, px, y0, y1, n) for _, _, y0, y1, n in bx])
        case['ucell'] = [gen.vector_layer(None, base, bx) for base, bx in boxes]


def image(v, case, rng, boxes):
    """(image problem, map of order arrays, amplitude phase or None); None if not applicable."""
    d = dict(case)
    cells = case['ucell'] if boxes is None else None
    px, py = case['period']
    phase = None
    back = lambda a: a

    def redraw(fn):
        out = []
        for base, bx in boxes:
            out.append(gen.vector_layer(None, base, [fn(*q) for q in bx]))
        return out
    if v == 'scale':
        s = float(10 ** gen.rnd(rng, -9, 9)) if rng.random() < .5 else gen.pick(rng, 1e-9, 1e9, 1e-6, 1000.0, 2.0, 1e-3)
        d.update(period=[px * s, py * s], wavelength=case['wavelength'] * s, thickness=[t * s for t in case['thickness']])
        if boxes is not None:
            d['ucell'] = redraw(lambda x0, x1, y0, y1, n: (x0 * s, x1 * s, y0 * s, y1 * s, n))
    elif v == 'shift':
        if boxes is None:
            ny, nx = cells.shape[1:]
            sx, sy = int(rng.integers(0, nx)), int(rng.integers(0, ny))
            d['ucell'] = np.roll(np.roll(cells, sx, axis=2), -sy, axis=1)
            ax, ay = sx / nx, sy / ny
        else:
            lo_x = min([q[0] for _, bx in boxes for q in bx], default=0) / px
            hi_x = max([q[1] for _, bx in boxes for q in bx], default=px) / px
            lo_y = min([q[2] for _, bx in boxes for q in bx], default=0) / py
            hi_y = max([q[3] for _, bx in boxes for q in bx], default=py) / py
            ax = -lo_x + (1 - hi_x + lo_x) * rng.random()
            ay = -lo_y + (1 - hi_y + lo_y) * rng.random()
            d['ucell'] = redraw(lambda x0, x1, y0, y1, n: (x0 + ax * px, x1 + ax * px, y0 + ay * py, y1 + ay * py, n))
        fx, fy = case['fto']
        mx, my = np.meshgrid(np.arange(-fx, fx + 1), np.arange(-fy, fy + 1))
        phase = np.exp(2j * np.pi * (mx * ax + my * ay))
    elif v == 'mirror x':
        d['ucell'] = cells[:, :, ::-1].copy() if boxes is None else redraw(lambda x0, x1, y0, y1, n: (px - x1, px - x0, y0, y1, n))
        if case['phi'] is None:
            d['theta'] = -case['theta']
        else:
            d['phi'] = np.pi - case['phi']
        flip_psi(d, case)
        back = lambda a: a[:, ::-1]
    elif v == 'mirror y':
        d['ucell'] = cells[:, ::-1].copy() if boxes is None else redraw(lambda x0, x1, y0, y1, n: (x0, x1, py - y1, py - y0, n))
        if case['phi'] is None:
            return None
        d['phi'] = -case['phi']
        flip_psi(d, case)
        back = lambda a: a[::-1]
    elif v == 'half turn':
        d['ucell'] = cells[:, ::-1, ::-1].copy() if boxes is None else redraw(lambda x0, x1, y0, y1, n: (px - x1, px - x0, py - y1, py - y0, n))
        if case['phi'] is None:
            return None
        if rng.random() < .5:
            d['phi'] = case['phi'] + np.pi
        else:
            d['theta'] = -case['theta']
        back = lambda a: a[::-1, ::-1]
    elif v == 'exchange':
        if case['phi'] is None or not case.get('crossed'):
            return None
        d['ucell'] = (np.array(np.swapaxes(cells[:, ::-1], 1, 2)[:, ::-1], order='C') if boxes is None
                      else redraw(lambda x0, x1, y0, y1, n: (y0, y1, x0, x1, n)))
        d.update(period=[py, px], fto=case['fto'][::-1], phi=np.pi / 2 - case['phi'])
        flip_psi(d, case)
        back = lambda a: a.T
    elif v == 'turn':
        if case['phi'] is None:
            return None
        d['phi'] = case['phi'] + 2 * np.pi * gen.pick(rng, 1, -1, 2)
    elif v == 'negate':
        if case['phi'] is None:
            return None
        d['theta'] = -case['theta']
        d['phi'] = case['phi'] + np.pi * gen.pick(rng, 1, -1)
    return d, back, phase


def run_job(job, mon):
    b, ln = job['b'], job.get('ln', 0)
    for c in range(job['n']):
        rng = rng_of('C09', job['kind'], job['seed'], b, job['i'], c, ln)
        boxes = None
        if job['kind'] == 'vec':
            case = gen.grating(rng, dim='2d', max_layers=2)
            boxes = [(gen.index_real(rng), gen.boxes(rng, case['period'], int(rng.integers(1, 4)), touch=False)) for _ in case['thickness']]
            case['ucell'] = [gen.vector_layer(None, base, bx) for base, bx in boxes]
        elif b == 1:
            case = gen.pooled(rng, [0, 1, 2, 3, 5, 2, 1, 2][ln])
        else:
            case = gen.grating(rng)
        gen.options(rng, case, pinv=False)
        if 'exchange' in job['v'] and case['phi'] is not None and (len(job['v']) == 1 or rng.random() < .3):
            crossed(case, rng, boxes)
        a = solve(b, case)
        for v in job['v']:
            im = image(v, case, rng, boxes)
            if im is None:
                continue
            d, back, phase = im
            mon.case(dict(case=d, v=v))
            o = solve(b, d)
            if (a.te is None) != (o.te is None):
                pairs = [('res', a.res, o.res)]
            else:
                pairs = [(n, s, t) for (n, s), (_, t) in zip(a.subs(), o.subs())]
            tol = 1e-6 if b == 2 else 1e-8
            if gen.cutoff_gap(case) < 1e-6:
                tol = 1e-4
            kx, ky = gen.orders(case)
            split = np.hypot(kx, ky) > 1e-7
            ctx = dict(case=case, image=d, backend=NAMES[b])
            for n, s, t in pairs:
                for k in ('de_ri', 'de_ti', 'de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
                    u, w = getattr(s, k), back(getattr(t, k))
                    if k[-2:] in ('_s', '_p'):
                        u, w = np.where(split, u, 0), np.where(split, w, 0)
                    mon.near(v, w, u, tol, part=k, which=n, **ctx)
                if phase is not None:
                    ph = phase.conj() if b == 2 else phase
                    for k in ('R_s', 'R_p', 'T_s', 'T_p'):
                        u, w = np.where(split, getattr(s, k) * ph, 0), np.where(split, getattr(t, k), 0)
                        mon.near('shift phase', w, u, 10 * tol * (1 + abs(u)), part=k, which=n, **ctx)
