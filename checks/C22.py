"""The built-in optimiser: gradient requests and fits against an explicit gradient-descent model."""
import numpy as np

import gen
from drive import NAMES, meent, rng_of, tonp

RULE = ('random problems (all formulations, both Fourier methods on torch, several layers, real and complex cells, vector cells), random named parameter sets and losses '
        '(weighted efficiencies, squared targets, amplitudes, companion results); gradient requests, repeated requests, fits with plain and momentum descent of 0-4 iterations, '
        'fits after fits and fits after gradient requests. Every recorded gradient is compared with finite differences of the loss evaluated on new NumPy-backend solvers, '
        'every recorded trajectory with the explicit descent iteration using those gradients; momentum and Adam fits on both backends against the written-out update rules; parameters not named, the caller\'s arrays, earlier gradients and the stored '
        'parameters are recorded and compared. Distinct by input.')
ASSUMPTIONS = ['fits of thickness, period and cell; gradient requests also for the angles (real part)',
               'JAX fits compile and therefore use the sampled Fourier method',
               'gradients of cells whose layers have coinciding modes are excluded (see C13)',
               'a caller\'s torch tensor may be the optimised leaf itself']
EXPECT = ['torch grad', 'jax grad', 'torch fit', 'jax fit', 'torch returned', 'jax returned', 'torch others kept', 'jax others kept', 'torch params kept',
          'jax params kept', 'torch inputs kept', 'torch stored', 'jax stored', 'torch earlier gradient kept', 'torch solves after', 'torch forward calls', 'jax fit same trajectory', 'torch fit same trajectory']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    jobs = [dict(kind='run', b=1, seed=seed, i=i, lane=f'j{i % 8}', ln=i % 8) for i in range(8 * f)]
    jobs += [dict(kind='run', b=2, seed=seed, i=i) for i in range(64 * f)]
    jobs += [dict(kind='pair', b=1, seed=seed, i=i, lane=f'j{i % 8}', ln=i % 8) for i in range(8 * f)]
    return jobs


# ------------------------------------------------------------------------------------------------ problem and loss
def problem(rng, b, ln):
    case = gen.any_case(rng, b, ln, free=0, hostile=False, scale=False, zero_thickness=False, max_layers=2, lossy=bool(rng.random() < .3))
    case['fto'] = [min(v, 3) for v in case['fto']]
    u = case['ucell']
    u = u + .3 * rng.random(u.shape)          # no symmetric or uniform layer: their modes may coincide
    case['ucell'] = u
    if abs(case['theta']) < .05:
        case['theta'] = .1
    if case['phi'] is not None:
        case['phi'] = gen.rnd(rng, .1, 1.4)
    if b == 1:
        case['fourier_type'] = 0
    case['thickness'] = [max(t, .05) for t in case['thickness']]
    return case


class Loss:
    def __init__(self, rng, case):
        fx, fy = case['fto']
        sh = (2 * fy + 1, 2 * fx + 1)
        self.wr, self.wt = rng.normal(size=sh), rng.normal(size=sh)
        self.kind = int(rng.integers(3))
        self.target = rng.random(sh)
        self.calls = 0

    def __call__(self, r):
        return self.value(r)

    def value(self, r):
        self.calls += 1
        lift = self.lift(r)
        if self.kind == 0:
            return (r.de_ri * lift(self.wr)).sum() + (r.de_ti * lift(self.wt)).sum()
        if self.kind == 1:
            return ((r.de_ti - lift(self.target)) ** 2).sum()
        s = r.res if r.res_te_inc is None else r.res_te_inc
        return (s.de_ri * lift(self.wr)).sum() + (s.de_ti * lift(self.wt)).sum()

    @staticmethod
    def lift(r):
        if hasattr(r.de_ri, 'detach'):
            import torch
            return torch.tensor
        return np.asarray


def args_of(case):
    return {k: case[k] for k in ('n_top', 'n_bot', 'theta', 'phi', 'pol', 'period', 'wavelength', 'ucell', 'thickness', 'fto', 'fourier_type',
                                 'enhanced_dfs') if k in case}


class Model:
    """Loss and gradient of the current parameters from new NumPy solvers."""

    def __init__(self, case, loss):
        self.case, self.loss = case, loss
        self.p = {}

    def value(self, p):
        a = args_of(self.case)
        for k, v in p.items():
            a[k] = list(v) if k in ('period', 'thickness') else (v if k == 'ucell' else complex(v).real)
        r = meent().call_mee(backend=0, **a).conv_solve()
        return float(self.loss.value(r))

    def grad(self, p, key):
        """d loss / d p[key] (for complex entries d/dRe + i d/dIm) and the uncertainty."""
        v = np.asarray(p[key])
        out, unc = np.zeros(v.shape, v.dtype if np.iscomplexobj(v) else float), 0.0
        for i in np.ndindex(v.shape):
            for unit in ((1, 1j) if np.iscomplexobj(v) else (1,)):
                def f(h):
                    w = v.copy()
                    w[i] = w[i] + h * unit
                    return self.value({**p, key: w})
                h = 1e-4
                d1, d2 = (f(h) - f(-h)) / (2 * h), (f(2 * h) - f(-2 * h)) / (4 * h)
                out[i] += unit * (4 * d1 - d2) / 3
                unc = max(unc, abs(d1 - d2))
        return out, unc


def gap_ok(case):
    from checks.C13 import coinciding
    try:
        return coinciding(case) > 3e-2
    except np.linalg.LinAlgError:
        return False


def near_cutoff(case):
    return gen.cutoff_gap(case) < .05


# ------------------------------------------------------------------------------------------------ driving
def build(b, case, rng, mon_inputs):
    a = args_of(case)
    for k in ('period', 'thickness', 'ucell'):
        v = np.array(a[k])
        if k != 'ucell' and rng.random() < .5:
            v = [float(x) for x in a[k]]
        mon_inputs.append((k, v, np.array(v).copy()))
        a[k] = v
    return meent().call_mee(backend=b, **a)


def params(mee, keys):
    return {k: tonp(getattr(mee, k)).copy() for k in keys}


ALL = ('period', 'thickness', 'ucell', 'theta', 'phi', 'psi', 'wavelength', 'n_top', 'n_bot', 'fto')


def everything(mee):
    out = {}
    for k in ALL:
        v = getattr(mee, k)
        out[k] = None if v is None else np.array(tonp(v)).copy()
    return out


def same(a, b):
    return (a is None and b is None) or (a is not None and b is not None and a.shape == b.shape and np.array_equal(a, b))


def run_job(job, mon):
    rng = rng_of('C22', job['kind'], job['seed'], job['b'], job['i'])
    b = job['b']
    for _ in range(30):
        case = problem(rng, b, job.get('ln', 0))
        if not near_cutoff(case) and gap_ok(case):
            break
    else:
        return mon.skip('no well-conditioned problem')
    if job['kind'] == 'pair':
        return pair(job, mon, rng, case)
    loss = Loss(rng, case)
    model = Model(case, loss)
    inputs = []
    mee = build(b, case, rng, inputs)
    nm = NAMES[b]
    names = list(rng.permutation(['thickness', 'ucell', 'period'])[:int(rng.integers(1, 4))])
    names = [str(n) for n in names]
    p = params(mee, ('thickness', 'ucell', 'period'))
    mon.case(dict(b=b, i=job['i'], kind=loss.kind, names=names, **args_of(case)))
    earlier = []
    ops = [str(v) for v in rng.choice(['grad', 'fit', 'fit', 'angle'], 2 if b == 1 else 4)]
    if job['i'] % 2 == 0:
        ops[:2] = ['grad', 'grad'] if job['i'] % 4 == 0 else ['grad', 'fit']
    else:
        ops[0] = 'fit' if job['i'] % 4 == 1 else 'angle'
    scale = 1.0
    for step, op in enumerate(ops):
        before = everything(mee)
        if op == 'angle':
            keys = ['theta'] + (['phi'] if case['phi'] is not None else [])
            g = mee.grad(keys, mee.conv_solve, loss)
            for k in keys:
                got = tonp(g[k]).copy()
                want, unc = model.grad({**p, k: np.array(complex(tonp(getattr(mee, k))).real)}, k)
                if unc > 1e-3 * (abs(want) + 1e-2):
                    mon.skip('finite difference unsettled')
                    continue
                mon.near(f'{nm} grad angle', got.real, want, 2e-4 * abs(want) + unc + 1e-6, param=k)
            unchanged(mon, nm, before, everything(mee))
        elif op == 'grad':
            g = mee.grad(names, mee.conv_solve, loss)
            mon.true(f'{nm} grad names', sorted(g) == sorted(names), str(sorted(g)))
            for k in names:
                got = np.array(tonp(g[k])).copy()
                want, unc = model.grad(p, k)
                if unc > 2e-3 * (np.abs(want).max() + 1e-2):
                    mon.skip('finite difference unsettled')
                    continue
                if b == 1:
                    got = got.conj()        # JAX convention of complex gradients
                mon.near(f'{nm} grad', got, want, 2e-4 * np.abs(want).max() + unc + 1e-6, param=k, step=step, ops=ops)
                earlier.append((g, k, np.array(tonp(g[k])).copy()))
            unchanged(mon, nm, before, everything(mee))
        else:
            n = int(rng.integers(0, 5)) if rng.random() < .9 else 1
            momentum = float(gen.pick(rng, 0.0, .7))
            size = max(1e-2, max(np.abs(model.grad(p, k)[0]).max() for k in names))
            lr = float(gen.pick(rng, .01, .02)) / size
            traj = dict(p)
            vel = {}
            slack = {k: 0.0 for k in names}
            ok = True
            for _ in range(n):
                gs = {k: model.grad(traj, k) for k in names}
                for k in names:
                    gk, unc = gs[k]
                    if unc > 1e-3 * (np.abs(gk).max() + 1e-2):
                        ok = False
                    vel[k] = gk if k not in vel else momentum * vel[k] + gk
                    slack[k] += lr * (2e-4 * np.abs(gk).max() + unc + 1e-6) * (1 + 3 * momentum)
                traj = {k: (traj[k] - lr * vel[k] if k in names else traj[k]) for k in traj}
            calls = 0

            def forward(*a, **kw):
                nonlocal calls
                calls += 1
                return mee.conv_solve(*a, **kw)
            if b == 2:
                import torch
                ret = mee.fit(names, forward, loss, torch.optim.SGD, dict(lr=lr, momentum=momentum), n)
                mon.true(f'{nm} forward calls', calls == n, f'{calls} forward passes for {n} iterations')
            else:
                import optax
                ret = mee.fit(names, forward, loss, optax.sgd(lr, momentum=momentum or None), n)
            after = everything(mee)
            for j, k in enumerate(names):
                stored = after[k]
                got = np.array(tonp(ret[j] if b == 2 else ret[k]))
                mon.near(f'{nm} returned', got, stored, 0.0, param=k)
                if n == 0:
                    mon.near(f'{nm} fit of no iteration', stored, before[k], 0.0, param=k)
                elif ok:
                    mon.near(f'{nm} fit', stored, traj[k], slack[k] * (1 + .2 * n), param=k, n=n, lr=lr, momentum=momentum, names=names, step=step, ops=ops)
                else:
                    mon.skip('finite difference unsettled')
            mon.true(f'{nm} stored', all(np.isfinite(after[k]).all() for k in names), 'non-finite parameters')
            for k in ALL:
                if k not in names:
                    mon.true(f'{nm} others kept', same(before[k], after[k]), f'{k}: {before[k]} -> {after[k]}', names=names)
            p = params(mee, ('thickness', 'ucell', 'period'))
            # the stored result is what the solver now solves
            v = model.value(p)
            r = mee.conv_solve()
            mon.near(f'{nm} solves after', float(loss.value(r)), v, 1e-6 * (1 + abs(v)))
        for g, k, keep in earlier:
            mon.true(f'{nm} earlier gradient kept', np.array_equal(np.array(tonp(g[k])), keep), f'{k} changed after {op}')
    for k, v, keep in inputs:
        mon.true(f'{nm} inputs kept', np.array_equal(np.array(v), keep), f'caller\'s {k} changed: {keep} -> {v}')


def unchanged(mon, nm, before, after):
    for k in ALL:
        mon.true(f'{nm} params kept', same(before[k], after[k]), f'{k}: {before[k]} -> {after[k]}')


def pair(job, mon, rng, case):
    """One and the same fit on the two differentiable backends, and on an explicit update rule fed by the backend's own gradient requests."""
    import optax
    import torch
    loss = Loss(rng, case)
    names = [str(n) for n in rng.permutation(['thickness', 'ucell', 'period'])[:int(rng.integers(1, 4))]]
    n = int(rng.integers(2, 6))
    lr = float(gen.pick(rng, 1e-3, 5e-3))
    rule = ('sgd', 'momentum', 'adam', 'momentum')[job['i'] % 4]
    if rule == 'adam':      # complex entries are treated differently by the two libraries
        case = dict(case, ucell=case['ucell'].real.copy())
    out = {}
    for b in (1, 2):
        mee = meent().call_mee(backend=b, **args_of(case))
        if b == 2:
            opt = torch.optim.Adam if rule == 'adam' else torch.optim.SGD
            mee.fit(names, mee.conv_solve, loss, opt, dict(lr=lr, momentum=.8) if rule == 'momentum' else dict(lr=lr), n)
        else:
            opt = dict(adam=optax.adam(lr), sgd=optax.sgd(lr), momentum=optax.sgd(lr, momentum=.8))[rule]
            mee.fit(names, mee.conv_solve, loss, opt, n)
        out[b] = params(mee, names)
    mon.case(dict(pair=job['i'], names=names, n=n, lr=lr, rule=rule, **args_of(case)))
    # the update rule itself, one gradient request at a time
    mee = meent().call_mee(backend=2, **args_of(case))
    p = params(mee, names)
    m, v = {k: 0.0 for k in names}, {k: 0.0 for k in names}
    weak = {k: np.zeros(p[k].shape, bool) for k in names}
    for t in range(1, n + 1):
        g = mee.grad(names, mee.conv_solve, loss)
        for k in names:
            gk = np.array(tonp(g[k]))
            if rule == 'adam':
                m[k], v[k] = .9 * m[k] + .1 * gk, .999 * v[k] + .001 * gk ** 2
                d = lr * (m[k] / (1 - .9 ** t)) / (np.sqrt(v[k] / (1 - .999 ** t)) + 1e-8)
                weak[k] |= np.abs(gk) < 1e-4
            else:
                m[k] = (.8 * m[k] if rule == 'momentum' else 0.0) + gk
                d = lr * m[k]
            p[k] = p[k] - d
            setattr(mee, k, p[k])
    start = args_of(case)
    for k in names:
        move = np.abs(p[k] - np.array(start[k])).max()
        for b in (1, 2):
            mon.near(f'{NAMES[b]} fit same trajectory', np.where(weak[k], 0, out[b][k]), np.where(weak[k], 0, p[k]), 1e-3 * move + 1e-9, param=k, n=n, rule=rule)
