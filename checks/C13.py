"""Automatic gradients against finite differences of the same solver."""
import numpy as np

import gen
import oracle
import refrcwa as rr
from drive import NAMES, meent, rng_of, tonp

RULE = ('random raster, anisotropic and vector problems (all formulations, both Fourier methods, 1-3 layers, real/complex indices, symmetric '
        'and uniform layers, normal incidence included); every quantity is handed over as differentiable at once, one backward pass is '
        'recorded and its derivative along a random direction of each quantity is compared with central differences (two step sizes) '
        'of the same backend\'s efficiencies. Distinct by input.')
ASSUMPTIONS = ['orders within 1e-3 of cutoff excluded (derivative unbounded)',
               'cases in which modes of one layer (of different orders, if it is uniform) come closer than 3e-3 are excluded for derivatives '
               'that mix them (cell, angles): known finding, see known_findings.txt',
               'finite differences that do not settle under halving of the step are inconclusive']
SCALARS = ('theta', 'phi', 'psi', 'pol', 'wavelength', 'n_top', 'n_bot')
EXPECT = ['torch thickness', 'torch ucell', 'torch period', 'torch theta', 'torch phi', 'torch psi', 'torch pol', 'torch wavelength',
          'torch n_top', 'torch n_bot', 'torch shape', 'torch present', 'jax present', 'jax shape']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    jobs = [dict(kind='coincide', b=2), dict(kind='coincide', b=1, lane='j0')]
    for i in range(2 * f):
        for l in range(8):
            jobs.append(dict(kind='raster', b=1, seed=seed, i=i, n=1, lane=f'j{l}', ln=l))
    jobs += [dict(kind='shape', b=1, seed=seed, i=i, n=1, lane=f's{i % 4}') for i in range(4 * f)]
    jobs += [dict(kind='raster', b=2, seed=seed, i=i, n=2) for i in range(90 * f)]
    jobs += [dict(kind='aniso', b=2, seed=seed, i=i, n=2) for i in range(12 * f)]
    jobs += [dict(kind='shape', b=2, seed=seed, i=i, n=2) for i in range(40 * f)]
    return jobs


# ------------------------------------------------------------------------------------------------ workload
def coinciding(case):
    """Smallest gap between modes (of different orders, if the layer is uniform) over the layers."""
    kx, ky = gen.orders(case)
    kx, ky = kx.ravel(), ky.ravel()
    scalar = case['phi'] is None
    if len(kx) < 2:
        return 1.0
    gap = 1.0
    for eps, xe, ye in oracle.layers_of(case):
        eps = np.asarray(eps, complex)
        if eps.ndim == 3:
            lam = rr.layer_modes(*rr.conv_matrices(eps, xe, ye, *case['fto']), kx, ky)[0] ** 2
            gap = min(gap, (np.abs(lam[:, None] - lam[None, :]) + 9 * np.eye(len(lam))).min())
            continue
        if np.ptp(eps.real) + np.ptp(eps.imag) < 1e-12:
            v = np.sort(kx ** 2 + ky ** 2)
            gap = min(gap, np.diff(v).min())
            continue
        lam = rr.layer_modes(*rr.conv_matrices(eps, xe, ye, *case['fto']), kx, ky)[0] ** 2
        if scalar or case['ucell'][0].shape[0] == 1:       # the two polarizations are separate problems in 1D: pair up the closest apart
            n = len(kx)
            ex, ey, ez = rr.conv_matrices(eps, xe, ye, *case['fto'])
            K = np.diag(kx)
            a = np.linalg.eigvals(K @ K - ey)
            b = np.linalg.eigvals((K @ np.linalg.inv(ez) @ K - np.eye(n)) @ ex)
            for w in (a, b):
                d = np.abs(w[:, None] - w[None, :]) + 9 * np.eye(n)
                gap = min(gap, d.min())
        else:
            d = np.abs(lam[:, None] - lam[None, :]) + 9 * np.eye(len(lam))
            gap = min(gap, d.min())
    return gap


def symmetric(rng, case):
    u = case['ucell']
    k = int(rng.integers(4))
    if k == 0:
        u = (u + u[:, :, ::-1]) / 2
    elif k == 1 and u.shape[1] > 1:
        u = (u + u[:, ::-1]) / 2
    elif k == 2:
        u = u.copy()
        u[int(rng.integers(len(u)))] = u.flat[0]
    case['ucell'] = np.ascontiguousarray(u)


# ------------------------------------------------------------------------------------------------ loss
class Loss:
    def __init__(self, rng, case, parts):
        fx, fy = case['fto']
        sh = (2 * fy + 1, 2 * fx + 1)
        self.w = {k: rng.normal(size=sh) for k in ('res.de_ri', 'res.de_ti', 'te.de_ri_s', 'te.de_ti_p', 'tm.de_ri_p', 'tm.de_ti_s',
                                                  'tm.de_ri', 'te.de_ti')}
        self.parts = parts
        self.companions = rng.random() < .5

    def __call__(self, r, lift):
        tot = 0
        for k, w in self.w.items():
            which, part = k.split('.')
            if which != 'res' and not self.companions:
                continue
            if part[-2:] in ('_s', '_p') and not self.parts:
                continue
            src = {'res': r.res, 'te': r.res_te_inc, 'tm': r.res_tm_inc}[which]
            if src is not None:
                tot = tot + (getattr(src, part) * lift(w)).sum()
        return tot


def base_args(case):
    a = {k: case[k] for k in ('n_top', 'n_bot', 'theta', 'phi', 'period', 'wavelength', 'ucell', 'thickness', 'fto', 'fourier_type',
                              'use_pinv', 'enhanced_dfs') if k in case}
    a['psi' if 'psi' in case else 'pol'] = case['psi'] if 'psi' in case else case['pol']
    return a


def fd(f, scale):
    """Directional derivative from two step sizes: (extrapolated value, spread)."""
    h = 1e-4 * scale
    d1 = (f(h) - f(-h)) / (2 * h)
    d2 = (f(2 * h) - f(-2 * h)) / (4 * h)
    return (4 * d1 - d2) / 3, abs(d1 - d2)


def forward(b, args, loss):
    m = meent().call_mee(backend=b, **args)
    r = m.conv_solve()
    if b == 2:
        import torch
        return float(loss(r, torch.tensor))
    return float(loss(r, np.asarray))


def settle(mon, name, got, f, scale, ctx, rel=2e-4):
    want, spread = fd(f, scale)
    tol = 10 * rel * abs(want) + spread + 1e-5 / scale
    if spread > 2e-3 * (abs(want) + 1e-3 / scale):
        mon.skip('finite difference unsettled')
        return
    mon.near(name, got, want, tol, **ctx)


def run_job(job, mon):
    if job['kind'] == 'coincide':
        return coincide(job, mon)
    for c in range(job['n']):
        rng = rng_of('C13', job['kind'], job['seed'], job['b'], job['i'], c, job.get('ln', 0))
        if job['kind'] == 'shape':
            shape_case(job, mon, rng)
        else:
            raster_case(job, mon, rng)


def raster_case(job, mon, rng):
    b = job['b']
    case = gen.any_case(rng, b, job.get('ln', 0), max_layers=7 if rng.random() < .2 else 3, zero_thickness=False, hostile=False, scale=False)
    if case['phi'] is not None and abs(np.sin(2 * case['phi'])) < 1e-9 and rng.random() < .5:
        case['phi'] += .3
    if case['phi'] is not None and case['pol'] in (0, 1) and rng.random() < .7:
        case['pol'] = .42
    if b == 2 and case['ucell'].shape[1] == 1 and case['phi'] is not None and abs(case['phi']) < 1e-12 and case['pol'] in (0, 1):
        case['phi'] = .4          # differentiating across the dispatch to the scalar solver changes the set of results
    if rng.random() < .6:
        symmetric(rng, case)
    if job['kind'] == 'aniso':
        u = case['ucell']
        case['ucell'] = np.stack([u, u * gen.rnd(rng, .8, 1.2), u * gen.rnd(rng, .8, 1.2)], axis=-1)
        if case['phi'] is None:
            case['phi'], case['pol'] = .3, .42
    case['n_bot'] = complex(case['n_bot']) if np.imag(case['n_bot']) else float(np.real(case['n_bot']))
    if case['phi'] is not None and rng.random() < .5:
        case['psi'] = oracle.psi_of(case)
    gen.options(rng, case)
    if gen.cutoff_gap(case) < 1e-3:
        mon.skip('order at cutoff')
        return
    kx, ky = gen.orders(case)
    loss = Loss(rng, case, bool((np.hypot(kx, ky) > 1e-2).all()))
    clear = coinciding(case) > 3e-3
    args = base_args(case)
    names = [n for n in ('thickness', 'ucell', 'period', *SCALARS) if n in args and args[n] is not None]
    if case['phi'] is None:
        names = [n for n in names if n not in ('phi', 'psi', 'pol')]
    if not .005 < args.get('pol', .5) < .995:
        names = [n for n in names if n != 'pol']            # one-sided: portions outside 0..1 are refused
    if b == 1:
        names = [n for n in names if n != 'pol']
    mon.case(dict(case=case, names=names))
    if b == 2:
        grads = torch_grads(args, names, loss, rng)
    else:
        grads = jax_grads(args, names, loss)
    if b == 1:      # each finite difference costs eight solves
        names = [names[k] for k in sorted(rng.choice(len(names), min(4, len(names)), replace=False))]
    for n in names:
        ctx = dict(case=case, backend=NAMES[b], wrt=n)
        g = grads[n]
        still = np.zeros(np.shape(args[n]), bool)
        if isinstance(g, tuple):         # some entries were plain numbers: no derivative along those
            g, still = g
        if not mon.true(f'{NAMES[b]} present', g is not None and np.all(np.isfinite(g)), 'no gradient or not finite', **ctx):
            continue
        x = np.asarray(args[n])
        d = rng.normal(size=x.shape) * ~still
        if np.iscomplexobj(x):
            d = d + 1j * rng.normal(size=x.shape)
        if n in ('ucell', 'theta', 'phi') and not clear:
            mon.skip('coinciding modes')
            continue
        if n == 'theta':
            d = np.asarray(1.0)
        g = np.asarray(g)
        ad = float(np.sum((g if b == 1 else g.conj()) * d).real)

        def f(s, n=n, x=x, d=d):
            y = x + s * d
            if y.ndim == 0:
                y = y.item()
            elif n in ('thickness', 'period'):
                y = [float(v) for v in y]
            return forward(b, {**args, n: y}, loss)
        settle(mon, f'{NAMES[b]} {n}', ad, f, {'wavelength': .3, 'period': .3, 'thickness': .3}.get(n, 1.0), ctx,
               rel=1e-3 if n == 'ucell' else 2e-4)


def torch_grads(args, names, loss, rng=None):
    import torch
    leaf, lists = {}, {}
    for n in names:
        x = np.asarray(args[n])
        if rng is not None and n in ('thickness', 'period') and rng.random() < .5:
            # the same quantity spelled as a list or tuple of single tensors, possibly next to plain numbers
            free = rng.random(len(x)) < (1 if rng.random() < .4 else .6)
            free[int(rng.integers(len(x)))] = True
            ent = [torch.tensor(float(v), dtype=torch.float64, requires_grad=True) if f else float(v) for v, f in zip(x, free)]
            lists[n] = (ent, ~free)
            leaf[n] = ent if rng.random() < .7 else tuple(ent)
            continue
        leaf[n] = torch.tensor(x, dtype=torch.complex128 if np.iscomplexobj(x) else torch.float64, requires_grad=True)
    m = meent().call_mee(backend=2, **{**args, **leaf})
    loss(m.conv_solve(), torch.tensor).backward()
    out = {n: tonp(t.grad) for n, t in leaf.items() if n not in lists}
    for n, (ent, still) in lists.items():
        g = [0.0 if not torch.is_tensor(t) else np.nan if t.grad is None else float(t.grad) for t in ent]
        out[n] = (np.array(g), still)
    return out


def jax_grads(args, names, loss):
    call = meent().call_mee
    call(backend=1)
    import jax
    import jax.numpy as jnp

    def f(p):
        return loss(call(backend=1, **{**args, **p}).conv_solve(), jnp.asarray)
    p = {n: jnp.asarray(np.asarray(args[n], dtype=complex if np.iscomplexobj(args[n]) else float)) for n in names}
    return {n: np.asarray(v) for n, v in jax.grad(f)(p).items()}


# ------------------------------------------------------------------------------------------------ vector shapes
def shape_case(job, mon, rng):
    b = job['b']
    case = gen.grating(rng, dim='2d', lossy=False, hostile=False, scale=False, zero_thickness=False, shapes=(2, 2, [2, 1] if b == 1 else
                       [int(rng.integers(1, 4)), int(rng.integers(1, 3))], 1 if b == 1 else int(rng.integers(1, 3))))
    case['theta'], case['phi'] = gen.rnd(rng, .1, 1.0), gen.rnd(rng, .15, 1.2)
    case['pol'] = .3
    px, py = case['period']
    layers, spots = [], []
    for li in range(len(case['thickness'])):
        objs = []
        for j in range(1 if b == 1 else int(rng.integers(1, 3))):
            kind = gen.pick(rng, 'box', 'box', 'rot', 'ell')
            r = min(px, py)
            n = gen.rnd(rng, 1.8, 3.0)
            cx, cy = px * gen.rnd(rng, .4, .6), py * gen.rnd(rng, .4, .6)
            lx, ly = r * gen.rnd(rng, .25, .45), r * gen.rnd(rng, .25, .45)
            q = int(rng.integers(4)) * np.pi / 2
            if kind == 'box':
                o = ['rectangle', cx, cy, lx, ly, n]
            elif kind == 'rot':
                o = ['rectangle', cx, cy, lx, ly, n, q + gen.rnd(rng, .2, 1.3), 4, 4]
            else:
                o = ['ellipse', cx, cy, lx, ly * 1.3, n, gen.rnd(rng, .2, 1.3), 8, 8]
            free = [1, 2, 3, 4, 5] + ([6] if len(o) > 6 else [])
            spots += [(li, j, k) for k in free]
            objs.append(o)
        layers.append([gen.rnd(rng, 1.0, 1.6), objs])
        spots.append((li, None, 0))
    case['ucell'] = layers
    if gen.cutoff_gap(case) < 1e-3:
        mon.skip('order at cutoff')
        return
    loss = Loss(rng, case, False)
    args = base_args(case)
    mon.case(dict(case=case))

    def build(put):
        out = []
        for li, (base, objs) in enumerate(layers):
            out.append([put((li, None, 0), base), [[o[0], *[put((li, j, k + 1), v) if (li, j, k + 1) in spots else v for k, v in
                                                            enumerate(o[1:])]] for j, o in enumerate(objs)]])
        return out
    val = {}
    for s in spots:
        val[s] = layers[s[0]][0] if s[1] is None else layers[s[0]][1][s[1]][s[2]]
    if b == 2:
        import torch
        leaf = {s: torch.tensor(v, dtype=torch.float64, requires_grad=True) for s, v in val.items()}
        if rng.random() < .5:
            for s in list(leaf):
                if s[1] is None:
                    del leaf[s]
        m = meent().call_mee(backend=2, **{**args, 'ucell': build(lambda s, v: leaf.get(s, v))})
        loss(m.conv_solve(), torch.tensor).backward()
        grads = {s: tonp(t.grad) for s, t in leaf.items()}
    else:
        call = meent().call_mee
        call(backend=1)
        import jax
        import jax.numpy as jnp
        keep = [s for s in spots if s[1] is not None and s[2] in (1, 2, 3, 4, 5)]
        one = {s: s[2] in (3, 4, 6) for s in keep}

        def f(p):
            return loss(call(backend=1, **{**args, 'ucell': build(lambda s, v: p.get(str(s), v))}).conv_solve(), jnp.asarray)
        g = jax.grad(f)({str(s): jnp.asarray([val[s]] if one[s] else val[s], dtype=float) for s in keep})
        grads = {s: np.asarray(g[str(s)]).reshape(()) for s in keep}
    todo = list(grads)
    if b == 1:
        todo = [todo[k] for k in sorted(rng.choice(len(todo), 3, replace=False))]
    elif len(todo) > 6:
        todo = [todo[k] for k in sorted(rng.choice(len(todo), 6, replace=False))]
    for s in todo:
        ctx = dict(case=case, backend=NAMES[b], wrt=s)
        g = grads[s]
        if not mon.true(f'{NAMES[b]} present', g is not None and np.all(np.isfinite(g)), 'no gradient or not finite', **ctx):
            continue

        def f(h, s=s):
            return forward(b, {**args, 'ucell': build(lambda t, v: v + h if t == s else v)}, loss)
        settle(mon, f'{NAMES[b]} shape', float(np.real(g)), f, .1 if s[1] is not None and s[2] != 5 else .5, ctx, rel=1e-3)


# ------------------------------------------------------------------------------------------------ recorded finding
def coincide(job, mon):
    """A uniform layer under a patterned one at normal incidence: the modes of orders +m and -m coincide exactly."""
    b = job['b']
    case = dict(n_top=1.0, n_bot=1.5, theta=0.0, phi=None, pol=0, period=[700.0, 700.0], wavelength=500.0, fto=[2, 0], fourier_type=0,
                ucell=np.array([[[1.0, 2.0, 2.5, 1.2]], [[1.7] * 4]]), thickness=[300.0, 200.0])
    rng = np.random.default_rng(7)
    loss = Loss(rng, case, False)
    args = base_args(case)
    mon.case(dict(case=case))
    g = (torch_grads if b == 2 else jax_grads)(args, ['ucell'], loss)['ucell']
    d = rng.normal(size=case['ucell'].shape)
    x = case['ucell']
    settle(mon, 'coinciding modes', float((np.conj(g) * d).sum().real), lambda s: forward(b, {**args, 'ucell': x + s * d}, loss), 1.0,
           dict(case=case, backend=NAMES[b]))
