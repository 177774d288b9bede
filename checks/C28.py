"""Injected failures of the linear algebra library (PyTorch): the fallback must leave results and gradients alone."""
import numpy as np

import gen
from drive import PARTS, kwargs, meent, rng_of, tonp

RULE = ('random well-posed problems on PyTorch (crossed and conical cells with plain inverses; all formulations with pseudo-inverses), both precisions; while the solver runs, the library routine it asks '
        'is made to fail (LinAlgError, as LAPACK does when it meets a singular matrix or does not converge) at a random subset of calls, at one call only, or at all. Efficiencies, amplitudes, '
        'companions, the field map and gradients recorded under faults are compared with the fault-free run; a later run without faults with the first one. Distinct by input and fault pattern.')
ASSUMPTIONS = ['faults of the plain inverse are injected into the mode and boundary matrices (at least twice the number of orders), which are the ones that become singular at anomalies; the Fourier-factorisation inverses are left alone',
               'faults are injected in the forward pass']
EXPECT = ['result', 'field', 'gradient', 'afterwards']


def plan(tier, seed):
    f = 2 if tier == 'quick' else 20
    return [dict(kind=k, b=2, seed=seed, i=i, n=4) for k in ('inv', 'pinv') for i in range(32 * f)]


class Faults:
    """Stand-ins for the library routines that fail on request and count what they saw."""

    def __init__(self, which, pattern, least, rng):
        self.which, self.pattern, self.least, self.rng = which, pattern, least, rng
        self.calls = self.hits = 0

    def __enter__(self):
        import torch
        self.torch = torch
        self.real = {n: getattr(torch.linalg, n) for n in self.which}
        for n, f in self.real.items():
            setattr(torch.linalg, n, self.wrap(f))
        return self

    def wrap(self, f):
        def g(x, *a, **k):
            if x.ndim == 2 and x.shape[0] >= self.least:
                self.calls += 1
                p = self.pattern
                if p == 'all' or (p == 'some' and self.rng.random() < .4) or p == self.calls:
                    self.hits += 1
                    raise self.torch.linalg.LinAlgError('injected: the algorithm failed to converge')
            return f(x, *a, **k)
        return g

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(self.torch.linalg, n, f)


def record(case, fres, diff, faults=None):
    import torch
    t = torch.tensor([float(x) for x in case['thickness']], dtype=torch.float64, requires_grad=True)
    n = torch.tensor(np.asarray(case['ucell']), requires_grad=True)
    kw = kwargs(case)
    if diff:
        kw = {**kw, 'thickness': t, 'ucell': n}

    def forward():
        m = meent().call_mee(backend=2, **kw)
        r = m.conv_solve()
        return m, r, m.calculate_field(**fres)
    if faults is None:
        m, r, f = forward()
    else:
        with faults:
            m, r, f = forward()
    out = {(w, k): tonp(getattr(getattr(r, w), k)) for w in ('res', 'res_te_inc', 'res_tm_inc') if getattr(r, w) is not None for k in PARTS}
    g = None
    if diff:
        torch.manual_seed(1)
        w = torch.linspace(-1, 1.3, r.de_ri.numel(), dtype=torch.float64).reshape(r.de_ri.shape)
        (w * r.de_ri + (1 - w) * r.de_ti ** 2).sum().backward()
        g = dict(thickness=tonp(t.grad), ucell=tonp(n.grad))
    return out, tonp(f), g


def run_job(job, mon):
    for c in range(job['n']):
        rng = rng_of('C28', job['kind'], job['seed'], job['i'], c)
        case = gen.any_case(rng, 2, 0, hostile=False, scale=False, zero_thickness=False)
        if job['kind'] == 'inv' and case['phi'] is None:
            case['phi'] = .3
        case['fto'] = [min(v, 4) for v in case['fto']]
        if abs(case['theta']) < .02:
            case['theta'] = .1
        if job['kind'] == 'pinv':
            case['use_pinv'] = True
        single = rng.random() < .15
        if single:
            case['type_complex'] = 1
        if gen.cutoff_gap(case) < .02:
            mon.skip('order near cutoff')
            continue
        orders = (2 * case['fto'][0] + 1) * (2 * case['fto'][1] + 1)
        diff = not single and rng.random() < .5
        fres = dict(res_x=3, res_y=2, res_z=2)
        pattern = gen.pick(rng, 'all', 'some', 'some', int(rng.integers(1, 4)))
        which = ['pinv'] if job['kind'] == 'pinv' else gen.pick(rng, ['inv'], ['inv', 'pinv'])
        mon.case(dict(case=case, pattern=pattern, which=which, diff=diff))
        want = record(case, fres, diff)
        flt = Faults(which, pattern, 2 * orders if job['kind'] == 'inv' else 1, rng)
        got = record(case, fres, diff, flt)
        after = record(case, fres, False)
        mon.event('fault patterns', (tuple(which), pattern, flt.hits))
        tol = 1e-7
        if single:                 # what this problem loses in single precision anyway
            exact = record({**case, 'type_complex': 0}, fres, False)
            lost = max(np.abs(want[0][k] - w).max() / (1 + np.abs(w).max()) for k, w in exact[0].items())
            lost = max(lost, np.abs(want[1] - exact[1]).max() / (1 + np.abs(exact[1]).max()))
            tol = 5e-3 + 50 * lost
        ctx = dict(case=case, pattern=pattern, which=which, injected=flt.hits)
        for k, w in want[0].items():
            s = tol * (1 + np.abs(w).max())
            mon.near('result', got[0].get(k, np.nan), w, s, part=str(k), **ctx)
            mon.true('result', got[0][k].dtype == w.dtype, f'{k}: {got[0][k].dtype} != {w.dtype}', **ctx)
            mon.near('afterwards', after[0][k], w, s, part=str(k), **ctx)
        mon.near('field', got[1], want[1], tol * (1 + np.abs(want[1]).max()), **ctx)
        if diff:
            for k, w in want[2].items():
                mon.near('gradient', got[2][k], w, 1e-5 * (1 + np.abs(w).max()), wrt=k, **ctx)
