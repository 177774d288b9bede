"""Dispersion models: every evaluated index is judged against an independent evaluation of the defining formula."""
import copy
import os
import shutil
import tempfile
import warnings

import numpy as np

import gen
import nkref
from checks.C18 import modeling, write_txt
from drive import NAMES, meent, rng_of, tonp

RULE = ('all bundled fit and oscillator entries over and beyond their range, random Sellmeier (both kinds) and Gaussian-broadened oscillator entries written as user files and given as specifications, and random graphene conditions '
        '(Fermi level 1 meV-2 eV, mobility 10-1e6, temperature 1-2000 K, thickness 0.1-10 nm, wavelength 0.1-500 um), on every backend, as scalar and arrays, compared with an independent evaluation '
        '(defining integral of the broadening function, graded quadrature of the conductivity); passivity of every physical model; valid and invalid conditions. Distinct by coefficients and wavelengths.')
ASSUMPTIONS = ['SciPy adaptive quadrature / Gauss-Legendre panels of the reference are accurate to 1e-9 (cross-checked while building)',
               'Sellmeier fits are only driven where n^2 is positive']
EXPECT = [f'{b} {k}' for b in ('numpy', 'jax', 'torch') for k in ('sellmeier', 'oscillator', 'graphene', 'array', 'passive', 'user sellmeier', 'user oscillator')] + \
         ['accepted', 'refused', 'unimplemented refused', 'spec unchanged', 'sampled graphene']
REPO = os.environ.get('VERIF_REPO', '/repo')


def plan(tier, seed):
    f = 1 if tier == 'quick' else 12
    jobs = [dict(kind='bundled', b=b, seed=seed, i=i) for b in (0, 1, 2) for i in range(2 * f)]
    jobs += [dict(kind='user', b=b, seed=seed, i=i) for b in (0, 1, 2) for i in range(20 * f)]
    jobs += [dict(kind='graphene', b=b, seed=seed, i=i) for b in (0, 1, 2) for i in range(40 * f)]
    jobs += [dict(kind='conditions', b=0, seed=seed, i=i) for i in range(4 * f)]
    jobs += [dict(kind='sampled', b=b, seed=seed, i=i) for b in (0, 2) for i in range(2 * f)]
    return jobs


def find(m, what, table, wl):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return tonp(m.find_nk_index(what, table, wl))


def random_entry(rng):
    """(entry, physical): an entry in the form of nkref.parse."""
    k = gen.pick(rng, '1', '2', 'brendel-bormann-ev', 'brendel-bormann-cm')
    lo = 10 ** gen.rnd(rng, -6.8, -5.5)
    hi = lo * gen.rnd(rng, 2, 30)
    if k in '12':
        c = [gen.rnd(rng, 0, 1)]
        for _ in range(int(rng.integers(1, 4))):
            pole = gen.pick(rng, lo * gen.rnd(rng, .05, .8), hi * gen.rnd(rng, 3, 10))
            c += [gen.rnd(rng, .1, 1.5) * (.2 if pole > hi else 1), pole if k == '1' else pole ** 2]
    elif k == 'brendel-bormann-ev':
        c = [gen.rnd(rng, 4, 12), gen.rnd(rng, .1, .9), gen.rnd(rng, .02, .2)]
        for _ in range(int(rng.integers(0, 5))):
            c += [gen.rnd(rng, .02, .8), gen.rnd(rng, .01, 2), gen.rnd(rng, .2, 12), gen.rnd(rng, .1, 2)]
    else:
        c = [gen.rnd(rng, 1, 4)]
        for _ in range(int(rng.integers(1, 4))):
            ce = 10 ** gen.rnd(rng, 2.3, 4)
            c += [ce ** 2 * gen.rnd(rng, .05, 2), ce * 10 ** gen.rnd(rng, -3, -1), ce * 10 ** gen.rnd(rng, -2, -.7), ce]
    c = [float(f'{x:.10g}') for x in c]
    return dict(kind='formula', name=k, c=c, lo=float(f'{lo:.4e}'), hi=float(f'{hi:.4e}'))


def spec_of(e):
    return dict(formula=int(e['name']) if e['name'] in '12' else e['name'], coefficients=list(e['c']), wavelength_range=(e['lo'], e['hi']))


def judge(mon, b, m, rng, what, table, e, prefix, n):
    group = 'sellmeier' if e['name'] in '12' else 'oscillator' if e['name'].startswith('brendel') else 'graphene'
    wls = [e['lo'], e['hi']] + list(e['lo'] * (e['hi'] / e['lo']) ** rng.random(n))
    if group == 'oscillator':
        wls += [e['lo'] / 2, e['hi'] * 2]
    wls = [float(w) for w in wls]
    ref = np.array([nkref.evaluate(e, w) for w in wls])
    good = np.isfinite(ref) & ~((np.abs(ref.real) < 1e-6) & (group == 'sellmeier'))
    wls, ref = np.array(wls)[good], ref[good]
    if not len(wls):
        mon.skip('negative permittivity of a fit')
        return
    mon.case(dict(b=b, e={k: e[k] for k in ('name', 'c', 'lo', 'hi')}, wl=wls))
    got = np.array([complex(find(m, what, table, gen.pick(rng, w, np.float64(w), np.array(w)))) for w in wls])
    ctx = dict(entry=e['name'], c=e['c'], wl=wls)
    mon.near(f'{NAMES[b]} {prefix}{group}', got, ref, (1e-10 if group == 'sellmeier' else 1e-7) * (1 + np.abs(ref)), **ctx)
    shape = (len(wls),) if rng.random() < .5 or len(wls) % 2 else (2, -1)
    arr = find(m, what, table, wls.reshape(shape))
    mon.near(f'{NAMES[b]} array', arr, got.reshape(shape), 1e-11 * (1 + np.abs(got.reshape(shape))), **ctx)
    mon.true(f'{NAMES[b]} array', np.iscomplexobj(arr), 'not complex')
    if group == 'sellmeier':
        mon.true(f'{NAMES[b]} passive', np.all(got.imag == 0) and np.all(got.real > 0), f'{got}')
    else:
        mon.true(f'{NAMES[b]} passive', np.all(got.imag <= 1e-12) and np.all(got.real >= 0), f'{got}', **ctx)
    if isinstance(what, str):
        r = find(m, what + '__real', table, wls)
        mon.near(f'{NAMES[b]} array', r, got.real, 1e-11 * (1 + np.abs(got)), **ctx)
        mon.true(f'{NAMES[b]} array', not np.iscomplexobj(r), 'real-only index is complex')


def conditions(rng):
    return [10 ** gen.rnd(rng, -3, .3), 10 ** gen.rnd(rng, 1, 6), 10 ** gen.rnd(rng, 0, 3.3), 10 ** gen.rnd(rng, -10, -8)]


def run_job(job, mon):
    b, k = job['b'], job['kind']
    rng = rng_of('C19', job['seed'], b, job['i'], k)
    m = modeling(b)
    if k == 'bundled':
        ref = nkref.bundled(REPO)
        table = m.read_material_table()
        before = {n: copy.deepcopy(v) for n, v in table.items() if isinstance(v, dict)}
        for name, e in sorted(ref.items()):
            if e['kind'] == 'formula':
                judge(mon, b, m, rng, name, table, e, '', 10)
        mon.true('spec unchanged', all(table[n] == v for n, v in before.items()))
    elif k == 'user':
        root = tempfile.mkdtemp(prefix='vp-nk-')
        try:
            ents = {}
            for j in range(6):
                e = random_entry(rng)
                while j < 4 and e['name'] != ('1', '2', 'brendel-bormann-ev', 'brendel-bormann-cm')[j]:
                    e = random_entry(rng)
                ents[f'Mat{j}'] = e
                kind = f'formula {e["name"]}' if e['name'] in '12' else f'model {e["name"]}'
                head = dict(material='M', type=kind, coefficients=' '.join(f'{x:.10g}' for x in e['c']), range=f'{e["lo"]:.4e} - {e["hi"]:.4e} m')
                if rng.random() < .5:
                    head = dict(reversed(list(head.items())))
                write_txt(os.path.join(root, f'Mat{j}.txt'), [], head)
            table = m.read_material_table(root)
            for n, e in ents.items():
                judge(mon, b, m, rng, n, table, e, 'user ', 6)
                s = spec_of(e)
                keep = copy.deepcopy(s)
                wl = e['lo'] * 1.3
                if np.isfinite(nkref.evaluate(e, wl)) and abs(nkref.evaluate(e, wl).real) > 1e-6:
                    a, c = find(m, n, table, wl), find(m, s, {}, wl)
                    mon.near(f'{NAMES[b]} array', c, a, 1e-12 * (1 + np.abs(a)), entry=e['name'])
                mon.true('spec unchanged', s == keep, e['name'])
            for bad in (3, 4, 'drude', 'formula 1'):
                try:
                    v = find(m, dict(formula=bad, coefficients=[0, 1, 1e-7], wavelength_range=(0, 1)), {}, 1e-6)
                    mon.true('unimplemented refused', False, f'{bad}: {v}')
                except Exception:
                    mon.true('unimplemented refused', True)
        finally:
            shutil.rmtree(root)
    elif k == 'graphene':
        for _ in range(4):
            c = conditions(rng)
            spec = meent().graphene_falkovsky(*c) if rng.random() < .5 else \
                meent().graphene_falkovsky(fermi_level=c[0], mobility=c[1], temperature=c[2], thickness=c[3])
            keep = copy.deepcopy(spec)
            lo = 10 ** gen.rnd(rng, -7, -4)
            judge(mon, b, m, rng, spec, {} if rng.random() < .5 else None, dict(kind='formula', name='graphene-falkovsky', c=c, lo=lo, hi=lo * gen.rnd(rng, 1.1, 5)), '', 4)
            mon.true('spec unchanged', spec == keep)
        d = meent().graphene_falkovsky(c[0])
        a = complex(find(m, d, {}, 1.3e-6))
        mon.near(f'{NAMES[b]} graphene', a, nkref.evaluate(dict(name='g', c=[c[0], 10000., 300., .34e-9]), 1.3e-6), 1e-7 * (1 + abs(a)), defaults=True)
    elif k == 'conditions':
        names = ['fermi_level', 'mobility', 'temperature', 'thickness']
        g = meent().graphene_falkovsky
        good = dict(fermi_level=.3, mobility=9000., temperature=290., thickness=3e-10)
        for n in names:
            for v in (gen.rnd(rng, 1e-3, 10), 1, np.float64(2.5), np.int64(3), np.array(.7), 1e-12, 1e12):
                try:
                    s = g(**{**good, n: v})
                    i = names.index(n)
                    mon.case(dict(cond=n, v=float(v)))
                    mon.true('accepted', s['coefficients'][i] == float(v) and all(s['coefficients'][j] == good[names[j]] for j in range(4) if j != i), f'{n}={v}: {s}')
                except Exception as ex:
                    mon.true('accepted', False, f'{n}={v!r}: {ex!r}')
            for v in (0, 0.0, -0.0, -1, -gen.rnd(rng, 1e-9, 10), float('nan'), float('inf'), -float('inf'), None, 'abc', [1, 2], np.array([.1, .2]), 1 + 1j, {}, ()):
                try:
                    s = g(**{**good, n: v})
                    mon.true('refused', False, f'{n}={v!r} accepted: {s}')
                except (TypeError, ValueError):
                    mon.true('refused', True)
        for wl in (0.0, -1e-6, float('nan'), float('inf'), np.array([1e-6, -1e-6])):
            try:
                v = find(m, g(**good), {}, wl)
                mon.true('refused', False, f'wavelength {wl} gave {v}')
            except (TypeError, ValueError):
                mon.true('refused', True)
    else:
        ref = nkref.bundled(REPO)
        table = m.read_material_table()
        for mev in (200, 400, 600):
            e = ref[f'optprop_Gr_Falkovsky-ef{mev}meV']
            spec = meent().graphene_falkovsky(mev / 1000)
            rows = e['rows'][rng.choice(len(e['rows']), 12, replace=False)]
            mon.case(dict(b=b, mev=mev, wl=rows[:, 0]))
            got = np.array([complex(find(m, spec, table, float(w))) for w in rows[:, 0]])
            # the tables hold six digits, also of the wavelength, which matters on the steep flank of the interband edge
            slope = np.array([abs(complex(find(m, spec, table, float(w) * (1 + 1e-6))) - g) for w, g in zip(rows[:, 0], got)])
            want = rows[:, 1] - 1j * rows[:, 2]
            mon.near('sampled graphene', got, want, 3e-5 * np.abs(want) + 3 * slope, mev=mev)
