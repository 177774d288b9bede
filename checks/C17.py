"""Spellings of parameters, defaults, refusals."""
import numpy as np

import gen
import oracle
from drive import KEYS, NAMES, Out, kwargs, make, meent, rng_of, solve, tonp

RULE = ('random problems whose parameters are exactly representable in every form; several parameters at once are respelled (int/float/complex/NumPy scalar, 0-d and 1-d '
        'arrays, lists, tuples, tensors/JAX arrays, one- or two-element periods and truncations, strided and Fortran-ordered cells, integer/single/complex cells, left at their default) '
        'and handed over at construction, by later assignment in random order, or as call arguments; all results are compared with the plain spelling. Each class of '
        'invalid value is handed over (at construction and later) on every backend and must raise. Distinct by input.')
ASSUMPTIONS = ['only spellings the backends accept are compared (bare NumPy scalars for period, thickness and truncation are refused)',
               'psi may lie outside 0..90 degrees; torch accepts boolean cells']
EXPECT = ['numpy spelled', 'jax spelled', 'torch spelled', 'numpy refused', 'jax refused', 'torch refused', 'numpy default', 'torch default', 'jax default',
          'backend refused', 'numpy usable after refusal', 'torch usable after refusal']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    jobs = [dict(kind='spell', b=1, seed=seed, i=i, n=4, lane=f'j{i % 8}', ln=i % 8) for i in range(16 * f)]
    jobs += [dict(kind='spell', b=b, seed=seed, i=i, n=6) for b in (0, 2) for i in range(80 * f)]
    jobs += [dict(kind='refuse', b=b, seed=seed, i=i) for b in (0, 2) for i in range(4 * f)]
    jobs += [dict(kind='refuse', b=1, seed=seed, i=i, lane=f'j{i}') for i in range(2)]
    jobs += [dict(kind='default', b=b, seed=seed, i=i, n=6) for b in (0, 2) for i in range(10 * f)]
    jobs += [dict(kind='default', b=1, seed=seed, i=i, n=2, lane=f'j{2 + i}') for i in range(2)]
    jobs += [dict(kind='backend', b=0)]
    return jobs


# ------------------------------------------------------------------------------------------------ spellings
def arr(b, v, dtype=None):
    """The backend's own array type, in double precision."""
    if b == 1:
        import jax.numpy as jnp
        return jnp.asarray(np.asarray(v, dtype=dtype))
    if b == 2:
        import torch
        return torch.tensor(np.asarray(v, dtype=dtype))
    return np.asarray(v, dtype=dtype)


def scalar(rng, b, v, cplx=True):
    out = [float(v), np.float64(v), arr(b, float(v))]
    if float(v).is_integer():
        out += [int(v), np.int64(int(v))]
    if cplx:
        out += [complex(v)]
    if b != 2:
        out += [np.array(float(v))]
    return gen.pick(rng, *out)


def spell(rng, b, key, case):
    v = case[key]
    ints = lambda w: all(float(x).is_integer() for x in w)
    if key == 'period':
        out = [list(v), tuple(v), np.array(v), [np.float64(x) for x in v], np.array(v, dtype=np.float32)]
        if b:
            out += [arr(b, v)]
        if ints(v):
            out += [[int(x) for x in v], np.array(v, dtype=int)]
        if v[0] == v[1]:
            out += [v[0], [v[0]], (v[0],), np.array([v[0]])]
            if b:
                out += [arr(b, [v[0]])]
            if ints(v):
                out += [int(v[0])]
        return gen.pick(rng, *out)
    if key == 'thickness':
        out = [list(v), tuple(v), np.array(v), [np.float64(x) for x in v], np.array(v, dtype=np.float32)]
        if b:
            out += [arr(b, v)]
        if ints(v):
            out += [[int(x) for x in v], np.array(v, dtype=int)]
        if len(v) == 1:
            out += [v[0]] + ([int(v[0])] if ints(v) else [])
        return gen.pick(rng, *out)
    if key == 'fto':
        out = [list(v), tuple(v), np.array(v), [float(x) for x in v], [np.int64(x) for x in v], np.array(v, dtype=float)]
        if b == 2:
            out += [arr(b, v)]
        if v[1] == 0:
            out += [v[0], float(v[0]), [v[0]], (v[0],), np.array([v[0]]), np.array(v[0])]
        return gen.pick(rng, *out)
    if key in ('theta', 'phi'):
        return None if v is None else scalar(rng, b, v)
    if key in ('n_top', 'n_bot'):
        if np.imag(v):
            return gen.pick(rng, complex(v), np.complex128(v), *([arr(b, complex(v))] if b else []))
        return scalar(rng, b, v)
    if key == 'wavelength':
        return scalar(rng, b, v, cplx=False)
    if key == 'pol':
        return scalar(rng, b, v, cplx=False) if not hasattr(v, 'shape') else v
    if key == 'ucell':
        out = [v, np.asfortranarray(v), v.astype(complex), np.ascontiguousarray(v.transpose(2, 0, 1)).transpose(1, 2, 0),
               np.repeat(v, 2, axis=2)[:, :, ::2], v.astype(np.complex64),
               v[:, :, ::-1].copy()[:, :, ::-1], v[::-1, ::-1].copy()[::-1, ::-1]]
        if b:
            out += [arr(b, v), arr(b, v.astype(complex))]
        if not np.iscomplexobj(v):
            out += [v.astype(np.float32)]
            if (v == np.round(v)).all():
                out += [v.astype(int), v.astype(np.int32)]
        w = gen.pick(rng, *out)
        return w
    return v


def cpu(rng, b):
    """The processor by any of its names."""
    if b == 1:
        import jax
        return gen.pick(rng, 0, 'cpu', jax.devices('cpu'))
    if b == 2:
        import torch
        return gen.pick(rng, 0, 'cpu', torch.device('cpu'))
    return gen.pick(rng, 0, 'cpu')


def nice(rng, b, ln):
    """A problem whose numbers survive every form."""
    case = gen.any_case(rng, b, ln, hostile=False, scale=False)
    q = lambda v, s: np.round(np.asarray(v) * s) / s
    case['ucell'] = q(case['ucell'].real, 64) + (1j * q(case['ucell'].imag, 64) if np.iscomplexobj(case['ucell']) else 0)
    if rng.random() < .4:                  # exact in single precision, but not so their products
        v = np.asarray(case['ucell']) * (1 + 1e-3 * rng.random(case['ucell'].shape))
        case['ucell'] = v.astype(np.complex64).astype(complex) if np.iscomplexobj(v) else v.astype(np.float32).astype(float)
    if rng.random() < .3:
        case['ucell'] = rng.integers(1, 4, case['ucell'].shape).astype(float)
    case['wavelength'] = float(max(1.0, q(gen.rnd(rng, 1, 4), 4)))
    case['period'] = [float(q(case['wavelength'] * gen.rnd(rng, .5, 2), 4)) for _ in range(2)]
    if rng.random() < .4:
        case['period'] = [case['period'][0]] * 2
    if rng.random() < .3:
        case['period'] = [float(max(1, round(p))) for p in case['period']]
    case['thickness'] = [float(q(gen.rnd(rng, 0, 2), 8)) for _ in case['thickness']]
    if rng.random() < .2:
        case['thickness'] = [float(round(t)) for t in case['thickness']]
    for k in ('n_top', 'n_bot'):
        v = q(np.real(case[k]), 8), q(np.imag(case[k]), 8)
        case[k] = complex(*v) if v[1] else float(max(v[0], 1.0))
    if rng.random() < .2:
        case['theta'] = 1.0
    return case


def match(mon, name, b, case, want, got, **ctx):
    if len(want.subs()) != len(got.subs()):
        mon.true(name, False, f'{len(got.subs())} results instead of {len(want.subs())}', case=case, **ctx)
        return
    tol = 1e-8 if gen.cutoff_gap(case) > 1e-3 else 1e-5
    for (n, x), (_, y) in zip(want.subs(), got.subs()):
        for k in ('de_ri', 'de_ti'):
            mon.near(name, getattr(y, k), getattr(x, k), tol, part=k, which=n, case=case, **ctx)


def describe(v):
    return f'{type(v).__name__} {getattr(v, "dtype", "")} {np.shape(v) if not isinstance(v, str) else v}'


def run_job(job, mon):
    if job['b'] == 1:
        meent().call_mee(backend=1)
    globals()[job['kind'] + '_job'](job, mon)


def spell_job(job, mon):
    b = job['b']
    for c in range(job['n']):
        rng = rng_of('C17', job['seed'], b, job['i'], c)
        case = nice(rng, b, job.get('ln', 0))
        if gen.cutoff_gap(case) < 1e-6:
            continue
        want = solve(b, case)
        keys = list(kwargs(case))
        for way in ('construct', 'assign', 'call') if b else ('construct', 'assign'):
            chosen = [k for k in keys if rng.random() < .5]
            if rng.random() < .5:      # one parameter on its own
                chosen = [keys[int(rng.integers(len(keys)))]]
            new = {k: spell(rng, b, k, case) for k in chosen}
            if rng.random() < .3:
                chosen, new = chosen + ['device'], {**new, 'device': cpu(rng, b)}
            desc = {k: describe(v) for k, v in new.items()}
            mon.case(dict(case=case, spelled=desc, way=way, b=b))
            if way == 'construct':
                mee = make(b, {**case, **new}, **({'device': new['device']} if 'device' in new else {}))
                out = Out(mee.conv_solve(), mee)
            else:
                plain = {k: v for k, v in kwargs(case).items() if k not in new or rng.random() < .5}
                other = nice(rng, b, job.get('ln', 0))
                for k in new:          # the object starts from other values
                    if k in plain and k not in ('ucell', 'thickness', 'fto', 'phi', 'pol'):
                        plain[k] = kwargs(other)[k]
                mee = meent().call_mee(backend=b, **plain)
                if way == 'assign':
                    for j in rng.permutation(len(chosen)):
                        setattr(mee, chosen[j], new[chosen[j]])
                    out = Out(mee.conv_solve(), mee)
                else:
                    out = Out(mee.conv_solve(**new), mee)
            match(mon, f'{NAMES[b]} spelled', b, case, want, out, spelled=desc, way=way)


# ------------------------------------------------------------------------------------------------ defaults
def default_job(job, mon):
    """What is left out means: vacuum, normal incidence, no azimuth, TE, truncation 0, double precision, sampled Fourier method."""
    b = job['b']
    full = dict(n_top=1.0, n_bot=1.0, theta=0.0, phi=None, pol=0, fto=[0, 0], fourier_type=0, enhanced_dfs=True, use_pinv=False, type_complex=0,
                connecting_algo='TMM', period=[1.0, 1.0], wavelength=1.0)
    for c in range(job['n']):
        rng = rng_of('C17d', job['seed'], b, job['i'], c)
        case = gen.grating(rng, dim='1d', hostile=False, scale=False)
        case['wavelength'] = gen.rnd(rng, .6, 1.6)
        case['thickness'] = [gen.rnd(rng, .05, .9) for _ in case['thickness']]
        case['period'] = [gen.rnd(rng, .6, 2.0)] * 2
        for k, v in full.items():
            if k not in case:
                case[k] = v
        left = [k for k in full if rng.random() < .35]
        for k in left:
            case[k] = full[k]
        given = {k: v for k, v in case.items() if k in KEYS and k not in left}
        mon.case(dict(case=case, left_out=left, b=b))
        want = solve(b, case)
        mee = meent().call_mee(backend=b, **given)
        out = Out(mee.conv_solve(), mee)
        match(mon, f'{NAMES[b]} default', b, case, want, out, left_out=left)
        if rng.random() < .5:
            f = tonp(mee.calculate_field())
            mon.near(f'{NAMES[b]} default', tonp(mee.conv_solve_field()[1]), f, 0, case=case, left_out='resolution')
            mon.near(f'{NAMES[b]} default', f, tonp(mee.calculate_field(20, 20, 20, (True, False, False))), 0, case=case, left_out='resolution')
        mon.true(f'{NAMES[b]} default', out.R.dtype == np.float64, f'type {out.R.dtype}', left_out=left)


# ------------------------------------------------------------------------------------------------ refusals
def bad_values(rng, b):
    u = np.array([[[1.0, 2.0, 2.0, 1.5]]])
    out = [('pol', float(gen.rnd(rng, 1.001, 5))), ('pol', -float(gen.rnd(rng, .001, 3))), ('pol', 2), ('pol', -1),
           ('type_complex', 'x'), ('type_complex', 2), ('type_complex', np.float64), ('type_complex', -1),
           ('fourier_type', 2), ('fourier_type', -1), ('fourier_type', 'cfs'),
           ('connecting_algo', 'SMM'), ('connecting_algo', 'tmm2'), ('connecting_algo', None),
           ('fto', [1, 2, 3]), ('fto', (1, 0, 0, 0)), ('fto', []), ('fto', 'a'), ('fto', None), ('fto', -1), ('fto', np.array([1, 2, 3])), ('fto', {}),
           ('ucell', 'x'), ('ucell', (1.0, 2.0)), ('ucell', 5.0), ('ucell', u[0]), ('ucell', u[0, 0]), ('ucell', np.array([[['a', 'b']]])), ('ucell', {}),
           ('ucell', np.stack([u, u], -1)), ('period', 'x'), ('period', None), ('period', {}), ('thickness', 'x'), ('thickness', None), ('thickness', {}),
           ('thickness', ['a'])]
    if b != 2:
        out += [('ucell', np.ones((1, 1, 4), bool)), ('ucell', np.stack([u] * 3, -1))]
    if b == 2:
        out += [('device', 'moon')]
    return out


def refuse_job(job, mon):
    b = job['b']
    rng = rng_of('C17r', job['seed'], b, job['i'])
    if b == 1:
        case = gen.pooled(rng, job['i'] * 2)
    else:
        case = gen.grating(rng, dim=('1d', 'con', '2d', '1d')[job['i'] % 4], hostile=False)
    case['fourier_type'] = 0
    want = solve(b, case)
    for key, bad in bad_values(rng, b):
        mon.case(dict(case=case, key=key, bad=describe(bad), b=b))
        if case['ucell'].shape[1] > 1 and key == 'ucell' and np.ndim(bad) in (3, 4):
            pass
        for late in (False, True):
            try:
                if late:
                    mee = make(b, case)
                    setattr(mee, key, bad)
                    out = mee.conv_solve()
                else:
                    out = make(b, case, **{key: bad}).conv_solve()
                res = f'accepted, returned R = {tonp(out.de_ri).sum():.4g}'
                ok = False
                if late and key == 'device':
                    ok = True
            except Exception as e:
                ok, res = True, type(e).__name__
            mon.true(f'{NAMES[b]} refused', ok, f'{key} = {bad!r} ({"assigned" if late else "at construction"}): {res}', case=case)
    # a refusal leaves the other parameters alone: valid values assigned again give the original answer
    if b != 1:
        mee = make(b, case)
        for key, bad in bad_values(rng, b):
            if key in ('device',):
                continue
            try:
                setattr(mee, key, bad)
                mee.conv_solve()
            except Exception:
                pass
            setattr(mee, key, case[key] if key in case else dict(type_complex=0, connecting_algo='TMM')[key])
        match(mon, f'{NAMES[b]} usable after refusal', b, case, want, Out(mee.conv_solve(), mee))


def backend_job(job, mon):
    for bad in (3, -1, 'numpy', None, 'torch', 7.5, [0]):
        mon.case(dict(backend=repr(bad)))
        try:
            meent().call_mee(backend=bad)
            ok = False
        except Exception:
            ok = True
        mon.true('backend refused', ok, f'backend {bad!r} accepted')
    for b, name in NAMES.items():
        mon.true('backend refused', name in type(meent().call_mee(backend=b)).__module__, 'wrong backend')
