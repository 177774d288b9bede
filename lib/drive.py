"""Thin driver around the public API of the package under test (workers only: importing it imports meent)."""
import os

import numpy as np

NAMES = {0: 'numpy', 1: 'jax', 2: 'torch'}
PARTS = ('R_s', 'R_p', 'T_s', 'T_p', 'de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p')
_meent = None


def meent():
    global _meent
    if _meent is None:
        import meent as m
        repo = os.environ.get('VERIF_REPO', '/repo')
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(repo)), m.__file__
        _meent = m
    return _meent


def tonp(x):
    if x is None:
        return None
    if hasattr(x, 'detach'):
        x = x.detach().resolve_conj().cpu().numpy()
    return np.asarray(x)


class Sub:
    """numpy copy of one polarization's result."""

    def __init__(self, src):
        for k in PARTS:
            setattr(self, k, tonp(getattr(src, k)).copy())


class Out:
    def __init__(self, result, mee):
        self.raw = result
        self.mee = mee
        self.res = Sub(result.res) if result.res is not None else None
        self.te = Sub(result.res_te_inc) if result.res_te_inc is not None else None
        self.tm = Sub(result.res_tm_inc) if result.res_tm_inc is not None else None
        self.R = tonp(result.de_ri)
        self.T = tonp(result.de_ti)

    def subs(self):
        return [(n, s) for n, s in (('res', self.res), ('te', self.te), ('tm', self.tm)) if s is not None]


KEYS = ('n_top', 'n_bot', 'theta', 'phi', 'psi', 'period', 'wavelength', 'ucell', 'thickness', 'fto', 'fourier_type',
        'pol', 'type_complex', 'enhanced_dfs', 'use_pinv', 'perturbation', 'connecting_algo')


def kwargs(case):
    return {k: case[k] for k in KEYS if k in case}


def make(backend, case, **over):
    return meent().call_mee(backend=backend, **{**kwargs(case), **over})


def solve(backend, case, **over):
    mee = make(backend, case, **over)
    return Out(mee.conv_solve(), mee)


def rng_of(*key):
    """Independent reproducible stream for a job."""
    ints = []
    for k in key:
        if isinstance(k, str):
            ints.append(int.from_bytes(k.encode()[:8].ljust(8, b'\0'), 'little') % (2 ** 31))
        else:
            ints.append(int(k) % (2 ** 31))
    return np.random.default_rng(ints)
