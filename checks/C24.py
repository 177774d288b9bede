"""Transformed JAX solves against plain ones."""
import numpy as np

import gen
from drive import NAMES, PARTS, kwargs, meent, rng_of, tonp

RULE = ('random problems of every formulation with the sampled Fourier method (continuous for vmap), plain and enhanced sampling, pseudo-inverse, both precisions, perturbation values; '
        'random subsets of parameters are traced: jit over call arguments (compiled once, called with several values), vmap over batches of cells, angles, thicknesses, '
        'wavelengths, periods, half-space indices and polarization angles, jit of vmap, gradient inside jit, the solver flattened/unflattened and mapped, passed through jit and vmap (crossed cells). '
        'Every recorded result is compared with a plain solve of a new solver; afterwards the traced parameters are set again and the solver is solved and compared. Distinct by input and transformation.')
ASSUMPTIONS = ['jit with the sampled Fourier method; the polarization portion is not traced (refused), psi only for crossed or conical cells']
EXPECT = ['jit', 'vmap', 'roundtrip', 'options kept', 'solver through jit', 'usable after', 'jit gradient', 'argument', 'nested']

LANES = [('2d', 2, 3, [1, 1], 2), ('1d', 1, 5, [3, 0], 2), ('con', 1, 4, [2, 0], 2), ('2d', 3, 2, [2, 1], 1),
         ('2d', 2, 2, [1, 0], 2), ('con', 1, 3, [1, 0], 1), ('1d', 1, 4, [1, 0], 1), ('2d', 3, 3, [0, 1], 1)]


def plan(tier, seed):
    f = 1 if tier == 'quick' else 6
    jobs = []
    for r in range(f):
        for ln in range(8):
            for kind in ('call', 'vmap', 'tree', 'nested'):
                jobs.append(dict(kind=kind, seed=seed, i=r, lane=f'j{ln}', ln=ln))
    return jobs


def problem(rng, ln, single=None):
    dim, ny, nx, fto, nl = LANES[ln]
    c = gen.grating(rng, dim=dim, shapes=(ny, nx, list(fto), nl), hostile=False, scale=False, zero_thickness=False)
    c['fourier_type'] = 0
    c['enhanced_dfs'] = bool(rng.random() < .4)
    if rng.random() < .3:
        c['use_pinv'] = True
    if abs(c['theta']) < .02:
        c['theta'] = .1
    if rng.random() < .3:
        c['perturbation'] = 1e-12
    if (rng.random() < .25) if single is None else single:
        c['type_complex'] = 1
    if dim != '1d' and rng.random() < .5:
        c['psi'] = gen.rnd(rng, 0, 1.5)
        c.pop('pol')
    return c


def vary(rng, case, key):
    """Another admissible value of the same form."""
    v = case[key]
    if key == 'ucell':
        return v + .4 * rng.random(v.shape)
    if key in ('thickness', 'period'):
        return [float(x * gen.rnd(rng, .8, 1.2)) for x in v]
    if key in ('theta', 'phi', 'psi'):
        return float(v + gen.rnd(rng, .02, .1))
    if key == 'wavelength':
        return float(v * gen.rnd(rng, .9, 1.1))
    return v + .1 * rng.random()


def traceable(case):
    keys = ['ucell', 'thickness', 'period', 'theta', 'wavelength', 'n_top', 'n_bot']
    if case['phi'] is not None:
        keys.append('phi')
    if 'psi' in case:
        keys.append('psi')
    return keys


def grab(r):
    out = {}
    for n in ('res', 'res_te_inc', 'res_tm_inc'):
        s = getattr(r, n)
        if s is not None:
            out[n] = {k: getattr(s, k) for k in PARTS}
    return out


def plain(case):
    return {n: {k: np.asarray(v) for k, v in s.items()} for n, s in grab(meent().call_mee(backend=1, **kwargs(case)).conv_solve()).items()}


def tol(case, cond=1.0):
    return 2e-3 if case.get('type_complex') == 1 else 1e-7


def compare(mon, name, case, got, want, **ctx):
    t = tol(case)
    mon.true(f'{name} results', sorted(got) == sorted(want), f'{sorted(got)} != {sorted(want)}')
    for n in want:
        for k in PARTS:
            g, w = np.asarray(got[n][k]), want[n][k]
            mon.near(name, g, w, t * (1 + (np.abs(w).max() if w.size else 0)), part=f'{n}.{k}', **ctx)
            mon.true(f'{name} type', g.dtype == w.dtype, f'{n}.{k} {g.dtype} != {w.dtype}')


def well_posed(case):
    return gen.cutoff_gap(case) > .02


def draw(rng, ln, **kw):
    for _ in range(40):
        c = problem(rng, ln, **kw)
        if well_posed(c):
            return c
    return c


def run_job(job, mon):
    import jax
    import jax.numpy as jnp
    rng = rng_of('C24', job['kind'], job['seed'], job['i'], job['ln'])
    ln = job['ln']
    globals()[job['kind']](rng, ln, mon, jax, jnp, job)


def lift(jnp, v, case):
    v = np.asarray(v)
    if case.get('type_complex') == 1:
        v = v.astype(np.complex64 if np.iscomplexobj(v) else np.float32)
    return jnp.asarray(v)


def call(rng, ln, mon, jax, jnp, job):
    case = draw(rng, ln)
    keys = traceable(case)
    k = int(rng.integers(1, 4))
    names = [str(x) for x in rng.permutation(keys)[:k]]
    if job['i'] == 0 and ln % 2 == 0 and 'ucell' not in names:
        names.append('ucell')
    mee = meent().call_mee(backend=1, **kwargs(case))
    if rng.random() < .5:
        mee.conv_solve()
    f = jax.jit(lambda vals: grab(mee.conv_solve(**vals)))
    for step in range(3):
        now = dict(case)
        for nme in names:
            if step != 1:
                now[nme] = vary(rng, case, nme)
        if not well_posed(now):
            mon.skip('near cutoff')
            continue
        mon.case(dict(now, how='jit', names=names))
        got = f({n: lift(jnp, now[n], case) for n in names})
        want = plain(now)
        compare(mon, 'jit', now, got, want, names=names, step=step)
    # concrete call arguments, then the solver itself, after tracers were stored in it
    now = dict(case)
    for nme in names:
        now[nme] = vary(rng, case, nme)
    if well_posed(now):
        want = plain(now)
        got = grab(mee.conv_solve(**{n: lift(jnp, now[n], case) for n in names}))
        compare(mon, 'argument', now, got, want, names=names)
        got = grab(mee.conv_solve())
        compare(mon, 'argument stays', now, got, want, names=names)
        for n in names:
            setattr(mee, n, case[n])
        compare(mon, 'usable after', case, grab(mee.conv_solve()), plain(case), names=names)
    else:
        mon.skip('near cutoff')


def vmap(rng, ln, mon, jax, jnp, job):
    case = draw(rng, ln)
    if rng.random() < .4:
        case['fourier_type'] = 1
    keys = traceable(case)
    if case['fourier_type'] == 1:
        keys = [k for k in keys if k != 'ucell']
    name = str(rng.permutation(keys)[0])
    if job['i'] == 0 and ln % 2 == 0:
        name = 'ucell' if case['fourier_type'] == 0 else 'thickness'
    mee = meent().call_mee(backend=1, **kwargs(case))
    batch = []
    for _ in range(20):
        now = dict(case)
        now[name] = vary(rng, case, name)
        if well_posed(now):
            batch.append(now)
        if len(batch) == 3:
            break
    if len(batch) < 2:
        return mon.skip('near cutoff')
    mon.case(dict(case, how='vmap', name=name, values=[b[name] for b in batch]))
    stack = jnp.stack([lift(jnp, b[name], case) for b in batch])
    got = jax.vmap(lambda v: grab(mee.conv_solve(**{name: v})))(stack)
    for i, b in enumerate(batch):
        compare(mon, 'vmap', b, jax.tree_util.tree_map(lambda x: np.asarray(x)[i], got), plain(b), param=name)
    setattr(mee, name, batch[-1][name])
    compare(mon, 'usable after', batch[-1], grab(mee.conv_solve()), plain(batch[-1]), param=name)


OPTIONS = ('fto', 'connecting_algo', 'perturbation', 'device', 'type_complex', 'fourier_type', 'enhanced_dfs', 'use_pinv', 'backend', 'ucell_materials')
VALUES = ('n_top', 'n_bot', 'theta', 'phi', 'psi', 'pol', 'period', 'wavelength', 'ucell', 'thickness')


def tree(rng, ln, mon, jax, jnp, job):
    case = draw(rng, ln)
    if rng.random() < .3:
        case['fourier_type'] = 1
    mee = meent().call_mee(backend=1, **kwargs(case))
    # values and options set after construction travel as well
    if rng.random() < .6:
        case['use_pinv'] = bool(rng.random() < .5)
        case['enhanced_dfs'] = bool(rng.random() < .5)
        case['thickness'] = vary(rng, case, 'thickness')
        case['n_bot'] = vary(rng, case, 'n_bot')
        for k in ('use_pinv', 'enhanced_dfs', 'thickness', 'n_bot'):
            setattr(mee, k, case[k])
    want = plain(case)
    mon.case(dict(case, how='tree'))
    leaves, treedef = jax.tree_util.tree_flatten(mee)
    for other in (jax.tree_util.tree_unflatten(treedef, leaves), jax.tree_util.tree_map(lambda x: x, mee)):
        mon.true('roundtrip kind', type(other) is type(mee), str(type(other)))
        for k in OPTIONS:
            mon.true('options kept', getattr(other, k) == getattr(mee, k), f'{k}: {getattr(mee, k)!r} -> {getattr(other, k)!r}')
        for k in VALUES:
            a, b = getattr(mee, k), getattr(other, k)
            mon.true('values kept', (a is None and b is None) or (a is not None and b is not None and np.allclose(np.asarray(a), np.asarray(b), rtol=1e-6 if case.get('type_complex') == 1 else 1e-12, atol=1e-6 if case.get('type_complex') == 1 else 1e-15)), f'{k}: {a} -> {b}')
    compare(mon, 'roundtrip', case, grab(other.conv_solve()), want)
    if LANES[ln][0] == '2d' and case['fourier_type'] == 0:
        got = jax.jit(lambda m: grab(m.conv_solve()))(mee)
        compare(mon, 'solver through jit', case, got, want)
        compare(mon, 'usable after', case, grab(mee.conv_solve()), want)
        double = jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x), jnp.asarray(x)]), leaves)

        def one(lv):
            return grab(jax.tree_util.tree_unflatten(treedef, lv).conv_solve())
        got = jax.vmap(one)(double)
        for i in range(2):
            compare(mon, 'solver through vmap', case, jax.tree_util.tree_map(lambda x: np.asarray(x)[i], got), want)


def nested(rng, ln, mon, jax, jnp, job):
    case = draw(rng, ln, single=False)
    mee = meent().call_mee(backend=1, **kwargs(case))
    w = rng.normal(size=(2 * case['fto'][1] + 1, 2 * case['fto'][0] + 1))

    def loss(t, m):
        r = m.conv_solve(thickness=t)
        return (r.de_ri * w).sum() + (r.de_ti ** 2).sum()
    t = lift(jnp, case['thickness'], case)
    v, g = jax.jit(jax.value_and_grad(lambda x: loss(x, mee)))(t)
    other = meent().call_mee(backend=1, **kwargs(case))
    v0, g0 = jax.value_and_grad(lambda x: loss(x, other))(t)
    mon.case(dict(case, how='nested'))
    mon.near('jit gradient', np.asarray(g), np.asarray(g0), 1e-6 * (1 + np.abs(np.asarray(g0)).max()))
    mon.near('jit gradient value', float(v), float(v0), 1e-8 * (1 + abs(float(v0))))
    batch = []
    for _ in range(2):
        now = dict(case)
        now['thickness'], now['ucell'] = vary(rng, case, 'thickness'), vary(rng, case, 'ucell')
        batch.append(now)
    f = jax.jit(jax.vmap(lambda u, d: grab(mee.conv_solve(ucell=u, thickness=d))))
    got = f(jnp.stack([lift(jnp, b['ucell'], case) for b in batch]), jnp.stack([lift(jnp, b['thickness'], case) for b in batch]))
    for i, b in enumerate(batch):
        compare(mon, 'nested', b, jax.tree_util.tree_map(lambda x: np.asarray(x)[i], got), plain(b))
