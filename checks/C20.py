"""Material filling of labelled cells: position-by-position comparison with an independent lookup, over histories of fills."""
import os

import numpy as np

import gen
import nkref
from drive import NAMES, make, meent, rng_of, solve, tonp

RULE = ('random label cells (1-4 axes, integer/float/complex labels, missing and repeated labels, one to six materials) filled with lists mixing bundled names in any letter case, the real-only suffix, '
        'graphene and fit specifications and plain real/complex indices, including indices equal to other labels; sequences of fills at changing wavelengths, lists and cells on one and two solver objects interleaved '
        'with solves; every entry of every filled cell compared with an independent lookup. Filled cells are solved and compared with the same numbers entered by hand. Distinct by cell, list and wavelength.')
ASSUMPTIONS = ['every label has a material in the list', 'wavelengths inside the tables or clamped as specified in C18']
EXPECT = [f'{b} {k}' for b in ('numpy', 'torch') for k in ('fill', 'refill', 'untouched', 'type', 'solves alike', 'solver unaffected')]
REPO = os.environ.get('VERIF_REPO', '/repo')
_ref = None


def plan(tier, seed):
    f = 1 if tier == 'quick' else 12
    return ([dict(kind='fill', b=b, seed=seed, i=i, n=8) for b in (0, 2) for i in range(200 * f)]
            + [dict(kind='solve', b=b, seed=seed, i=i, n=3) for b in (0, 2) for i in range(120 * f)])


def tables():
    global _ref
    if _ref is None:
        _ref = nkref.bundled(REPO)
    return _ref


def value(material, wl):
    """Independent index of a list entry at a wavelength; None when inconclusive."""
    if isinstance(material, str):
        real = material.endswith('__real')
        name = material[:-6] if real else material
        e = next(v for k, v in tables().items() if k.upper() == name.upper())
        v = nkref.lookup(e, wl) if e['kind'] == 'table' else nkref.evaluate(e, wl)
        if e['kind'] != 'table' and e['name'] in '12' and abs(v.real) < 1e-6:
            return None          # a fit far outside its range has no index
        return None if v is None else complex(v).real if real else complex(v)
    if isinstance(material, dict):
        c = material['coefficients']
        return complex(nkref.evaluate(dict(name=str(material['formula']), c=c), wl))
    return complex(material)


def material(rng, n_labels, allow_tensor=False):
    k = int(rng.integers(7))
    if k <= 1:
        names = list(tables())
        name = names[int(rng.integers(len(names)))]
        return gen.pick(rng, name, name.lower(), name.upper()) + ('__real' if rng.random() < .2 else '')
    if k == 2:
        if rng.random() < .5:
            return meent().graphene_falkovsky(gen.rnd(rng, .05, .8), temperature=gen.rnd(rng, 100, 500))
        return dict(formula=1, coefficients=[gen.rnd(rng, 0, .5), gen.rnd(rng, .5, 2), 1e-7], wavelength_range=(1e-7, 1e-4))
    if k == 3:        # an index that is also a label
        return gen.pick(rng, 0, 1, 2, 3.0, float(rng.integers(n_labels)), int(rng.integers(n_labels)))
    if k == 4:
        return complex(gen.rnd(rng, .1, 4), -gen.rnd(rng, 0, 5))
    if k == 5:
        return gen.pick(rng, np.float64(gen.rnd(rng, 1, 4)), np.complex128(complex(gen.rnd(rng, 1, 4), -.1)))
    return gen.rnd(rng, 1, 4)


def materials(rng):
    """One to six entries; now and then a long list of plain indices around them."""
    n = int(rng.integers(1, 7))
    mats = [material(rng, n) for _ in range(n)]
    if rng.random() < .12:
        mats = mats + [float(v) for v in gen.rnd(rng, 1, 2) + 2 * rng.random(int(gen.pick(rng, 12, 60, 140, 270, 300)))]
        mats = [mats[int(i)] for i in rng.permutation(len(mats))]
    return mats


def label_cell(rng, n, shape=None):
    shape = shape or gen.pick(rng, (1, 1, 6), (2, 3, 4), (3, 1, 5), (1, 4, 4), (7,), (3, 4), (2, 2, 3, 3), (1, 1, 1))
    return rng.integers(0, n, shape)


def typed(rng, b, cell):
    forms = [cell, cell.astype(float), cell.astype(np.int32), cell.astype(complex), cell.astype(np.float32), cell.astype(np.int16)]
    if cell.max() < 256:
        forms.append(cell.astype(np.uint8))
    if cell.max() < 128:
        forms.append(cell.astype(np.int8))
    if b == 0 or rng.random() < .5:
        forms.append(np.asfortranarray(cell))
    c = gen.pick(rng, *forms)
    if b == 2 and rng.random() < .4:
        import torch
        return torch.tensor(c)
    return c


def expected(cell, mats, wl):
    vals = [value(m, wl) for m in mats]
    if any(v is None for v in vals):
        return None
    return np.array(vals, dtype=complex)[cell]


def run_job(job, mon):
    b = job['b']
    rng = rng_of('C20', job['seed'], b, job['i'], job['kind'])
    B = NAMES[b]
    if job['kind'] == 'fill':
        mees = [make(b, dict(period=[1e-6, 1e-6], wavelength=1e-6)) for _ in range(2)]
        mats = materials(rng)
        n = len(mats)
        cell = label_cell(rng, n)
        for step in range(job['n']):
            what = int(rng.integers(4))
            if step and what == 0:          # new list
                mats = materials(rng)
                n = len(mats)
                cell = label_cell(rng, n)
            elif step and what == 1:
                cell = label_cell(rng, n)
            elif step and what == 2:        # one entry of the same list object changes
                mats[int(rng.integers(n))] = material(rng, n)
            wl = float(10 ** gen.rnd(rng, -6.9, -4.8)) if rng.random() < .8 else 1.55e-6
            shown = typed(rng, b, cell)
            want = expected(cell, mats, wl)
            before, keep = np.array(tonp(shown)).copy(), [dict(m) if isinstance(m, dict) else m for m in mats]
            kw = {}
            single = rng.random() < .2
            if single:
                import torch
                kw['type_complex'] = np.complex64 if b == 0 else torch.complex64
            w = gen.pick(rng, wl, np.float64(wl))
            got = mees[int(rng.integers(2))].put_refractive_index_in_ucell(shown, mats, w, **kw)
            g = tonp(got)
            mon.case(dict(b=b, cell=cell, mats=[repr(m) for m in mats], wl=wl))
            ctx = dict(cell=cell, mats=[repr(m) for m in mats], wl=wl)
            mon.true(f'{B} type', g.dtype == (np.complex64 if single else np.complex128) and (b == 0) == isinstance(got, np.ndarray), f'{type(got)} {g.dtype}')
            if want is None:
                mon.skip('rows of one wavelength disagree')
            else:
                mon.near(f'{B} refill' if step else f'{B} fill', g, want, (1e-6 if single else 1e-8) * (1 + np.abs(want)), **ctx)
            mon.true(f'{B} untouched', np.array_equal(before, tonp(shown)), 'label cell changed', **ctx)
            mon.true(f'{B} untouched', len(keep) == len(mats) and all(x == y for x, y in zip(keep, mats)), 'material list changed', **ctx)
            g2 = np.array(g)
            # the filled cell belongs to the caller: writing to it must not reach later fills
            if b == 0:
                got[...] = 99
            else:
                got.fill_(99)
            again = tonp(mees[0].put_refractive_index_in_ucell(shown, mats, wl, **kw))
            mon.near(f'{B} refill', np.nan_to_num(again), np.nan_to_num(g2), 0, **ctx)
        mon.true(f'{B} refill', True)
        return
    for c in range(job['n']):
        n = int(rng.integers(2, 5))
        case = gen.grating(rng, dim=gen.pick(rng, '1d', 'con', '2d'), lossy=False, hostile=False, scale=False, n_top=1.0)
        wl = float(10 ** gen.rnd(rng, -6.5, -5.5))
        s = wl / case['wavelength']
        case['wavelength'], case['period'], case['thickness'] = wl, [p * s for p in case['period']], [t * s for t in case['thickness']]
        shape = case['ucell'].shape
        cell = rng.integers(0, n, shape)
        mats = [material(rng, n) for _ in range(n)]
        mats = [m if not isinstance(m, (int, float)) or m > 0 else 1.3 for m in mats]
        want = expected(cell, mats, wl)
        if want is None or np.abs(want).max() > 30 or np.abs(want).min() < .3 or want.imag.max() > 0:
            mon.skip('index out of the driven range')
            continue
        first = gen.layer_pattern(rng, shape[1], shape[2], False)[None].repeat(shape[0], 0)
        mee = make(b, {**case, 'ucell': first})
        r0 = tonp(mee.conv_solve().de_ri)
        filled = mee.put_refractive_index_in_ucell(cell, mats, wl)
        r1 = tonp(mee.conv_solve().de_ri)
        mon.near(f'{B} solver unaffected', r1, r0, 0, case=case)
        mon.near(f'{B} solver unaffected', float(np.real(tonp(mee.wavelength))), wl, 1e-15 * wl)
        mee.ucell = filled
        a = mee.conv_solve()
        h = solve(b, {**case, 'ucell': want})
        mon.case(dict(b=b, case={k: v for k, v in case.items() if k != 'ucell'}, cell=cell, mats=[repr(m) for m in mats]))
        mon.near(f'{B} solves alike', tonp(a.de_ri), h.R, 1e-6, mats=[repr(m) for m in mats], wl=wl)
        mon.near(f'{B} solves alike', tonp(a.de_ti), h.T, 1e-6, mats=[repr(m) for m in mats], wl=wl)
