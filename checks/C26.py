"""Copies and pickles of solvers and results: equal to the original, and independent of it."""
import copy
import pickle

import numpy as np

import gen
import pristine
from drive import NAMES, PARTS, kwargs, meent, rng_of, tonp

RULE = ('solvers in random states (new, after parameter changes, after solves, after field maps; raster, vector, labelled cells; single and double precision; a loaded user material table) are copied '
        '(copy, deepcopy, pickle; the pickle also loaded by another process); then original and copies are changed and solved in random interleavings, each against its own recorded parameters solved by a new solver in '
        'an untouched process. Field maps of a solved copy equal those of the original. Copied results equal the originals bit for bit and stay so. Distinct by state and way of copying.')
ASSUMPTIONS = ['JAX solvers: shallow copies only (they hold a device handle that cannot be pickled)', 'a shallow copy may share arrays, but not assigned parameters or later results']
EXPECT = ['numpy same', 'torch same', 'jax same', 'numpy independent', 'torch independent', 'jax independent', 'numpy field', 'torch field', 'result copy', 'numpy elsewhere', 'torch elsewhere']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 10
    jobs = [dict(kind='copy', b=1, seed=seed, i=i, lane=f'j{i % 8}', ln=i % 8) for i in range(8 * f)]
    jobs += [dict(kind='copy', b=b, seed=seed, i=i) for b in (0, 2) for i in range(60 * f)]
    return jobs


def results(r):
    out = {}
    for n in ('res', 'res_te_inc', 'res_tm_inc'):
        s = getattr(r, n)
        if s is not None:
            for k in PARTS:
                out[n, k] = tonp(getattr(s, k)).copy()
    return out


def fresh(b, kw):
    if b == 2:
        import torch
        torch.set_num_threads(1)
    return results(meent().call_mee(backend=b, **kw).conv_solve())


def elsewhere(b, data):
    """A pickled solver loaded and solved by another process."""
    if b == 2:
        import torch
        torch.set_num_threads(1)
    return results(pickle.loads(data).conv_solve())


def draw(rng, b, ln):
    c = gen.any_case(rng, b, ln, free=0, hostile=False)
    if b != 1 and c['phi'] is not None and rng.random() < .3:
        c['fourier_type'] = 1
        gen.vectorise(rng, c, most=3)
    return c


def alter(rng, b, mee, case):
    """One parameter changes on one of the objects (and in its record)."""
    k = gen.pick(rng, 'n_top', 'n_bot', 'theta', 'wavelength', 'thickness', 'ucell', 'fto', 'pol', 'period')
    u = case['ucell']
    if k in ('n_top', 'n_bot', 'theta', 'wavelength'):
        v = float(np.real(case[k]) * gen.rnd(rng, .8, .97)) if k != 'theta' else gen.rnd(rng, .05, 1)
    elif k == 'thickness':
        v = [t * gen.rnd(rng, .8, 1.2) + .01 * case['wavelength'] for t in case['thickness']]
    elif k == 'ucell' and isinstance(u, np.ndarray):
        v = u * gen.rnd(rng, .8, 1.2)
    elif k == 'fto' and b != 1:
        v = [int(rng.integers(0, 4)), int(rng.integers(0, 2)) if case['phi'] is not None else 0]
    elif k == 'pol' and case['phi'] is not None:
        v = gen.rnd(rng, 0, 1)
    elif k == 'period' and isinstance(u, np.ndarray):
        v = [p * gen.rnd(rng, .8, 1.2) for p in case['period']]
    else:
        k, v = 'wavelength', float(case['wavelength'] * gen.rnd(rng, .8, 1.2))
    case[k] = v
    setattr(mee, k, copy.deepcopy(v))


def judge(mon, name, b, mee, case, how, single):
    got = results(mee.conv_solve())
    want = pristine.call('checks.C26', 'fresh', b, kwargs(case)) if b != 1 else fresh(b, kwargs(case))
    match(mon, name, got, want, single, case=case, how=how, backend=NAMES[b])


def match(mon, name, got, want, single, **ctx):
    if mon.true(name, set(got) == set(want), f'{sorted(got)} != {sorted(want)}', **ctx):
        for k, w in want.items():
            mon.true(name, got[k].dtype == w.dtype, f'{k}: {got[k].dtype} != {w.dtype}', **ctx)
            mon.near(name, got[k], w, (1e-4 if single else 1e-10) * (1 + np.abs(w).max()), which=k, **ctx)


def run_job(job, mon):
    b = job['b']
    if b != 1:
        pristine.start()
    rng = rng_of('C26', job['seed'], b, job['i'])
    nm = NAMES[b]
    case = draw(rng, b, job.get('ln', 0))
    single = rng.random() < .1
    if single:
        case['type_complex'] = 1
    mee = meent().call_mee(backend=b, **{k: copy.deepcopy(v) for k, v in kwargs(case).items()})
    for _ in range(int(rng.integers(0, 3))):
        alter(rng, b, mee, case)
    solved = rng.random() < .7
    r = mee.conv_solve() if solved else None
    hows = ['copy'] if b == 1 else ['copy', 'deepcopy', 'pickle', 'nested']
    fs = dict(copy=copy.copy, deepcopy=copy.deepcopy, pickle=lambda o: pickle.loads(pickle.dumps(o)), nested=lambda o: copy.deepcopy(dict(a=[o, o]))['a'][0])
    objs = [('original', mee, dict(case))]
    for how in [str(h) for h in rng.permutation(hows)[:2]]:
        objs.append((how, fs[how](mee), dict(case)))
    if rng.random() < .3:          # a copy of a copy
        how, o, c = objs[-1]
        objs.append((how + ' twice', fs[how](o), dict(c)))
    mon.case(dict(b=b, i=job['i'], hows=[o[0] for o in objs], case=kwargs(case), solved=solved))
    if solved:
        res = dict(res_x=int(rng.integers(1, 5)), res_y=int(rng.integers(1, 4)), res_z=int(rng.integers(1, 4)))
        f0 = tonp(mee.calculate_field(**res))
        for how, o, c in objs[1:]:
            f = tonp(o.calculate_field(**res))
            mon.near(f'{nm} field', f, f0, (1e-4 if single else 1e-9) * (1 + np.abs(f0).max()), how=how, case=case)
        keep = results(r)
        twins = [copy.copy(r), copy.deepcopy(r), pickle.loads(pickle.dumps(r))]
    if b != 1 and rng.random() < .5:
        got = pristine.call('checks.C26', 'elsewhere', b, pickle.dumps(mee))
        match(mon, f'{nm} elsewhere', got, pristine.call('checks.C26', 'fresh', b, kwargs(case)), single, case=case)
    for how, o, c in objs:
        if rng.random() < .7:
            judge(mon, f'{nm} same', b, o, c, how, single)
    shown = {}                     # field maps of objects unchanged since their last solve: other objects' work leaves them alone
    fres = dict(res_x=2, res_y=2, res_z=2)
    for _ in range(4 if b != 1 else 2):
        j = int(rng.integers(len(objs)))
        how, o, c = objs[j]
        alter(rng, b, o, c)
        shown.pop(j, None)
        j = int(rng.integers(len(objs)))
        how, o, c = objs[j]
        judge(mon, f'{nm} independent', b, o, c, how, single)
        shown.pop(j, None)
        for i, f in shown.items():
            mon.near(f'{nm} independent', tonp(objs[i][1].calculate_field(**fres)), f, 1e-12 * (1 + np.abs(f).max()), how=objs[i][0], other=how, case=objs[i][2])
        shown[j] = tonp(o.calculate_field(**fres)).copy()
    for j, (how, o, c) in enumerate(objs):
        judge(mon, f'{nm} independent', b, o, c, how, single)
        shown[j] = tonp(o.calculate_field(**fres)).copy()
    for i, f in shown.items():
        mon.near(f'{nm} independent', tonp(objs[i][1].calculate_field(**fres)), f, 1e-12 * (1 + np.abs(f).max()), how=objs[i][0], case=objs[i][2])
    if solved:
        for t in [r, *twins]:
            for k, w in keep.items():
                mon.near('result copy', results(t)[k], w, 0.0, which=k)
            mon.near('result copy', tonp(t.de_ri), keep['res', 'de_ri'], 0.0)
            mon.near('result copy', tonp(t.de_ti), keep['res', 'de_ti'], 0.0)
