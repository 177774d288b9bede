"""Material lookup: every returned index and warning is judged against an independent reading of the tables."""
import io
import os
import shutil
import tempfile
import warnings
from contextlib import redirect_stdout

import numpy as np

import gen
import nkref
from drive import NAMES, meent, rng_of, tonp

RULE = ('every bundled table and formula entry on every backend, at all table points of short tables and a sample of long ones, between points, at and just beyond both ends, far outside, '
        'as scalar, NumPy scalar, and 1D/2D arrays in any order, names in random letter case, with and without the real-only suffix; random user folders (nested, ascending/descending/shuffled rows, one row, '
        '.txt/.mat/fit entries, files rewritten between reads). Values are compared with an independent parser and interpolation, warnings are recorded per call. Distinct by material, wavelengths and folder content.')
ASSUMPTIONS = ['wavelengths next to rows of one wavelength with different data are inconclusive', 'fit entries are evaluated (not clamped) outside their range; their values are judged by C19',
               'jax: wavelength lists are passed as arrays']
EXPECT = [f'{b} {k}' for b in ('numpy', 'jax', 'torch') for k in ('value', 'real', 'inside quiet', 'outside warns', 'names', 'table points', 'user value', 'reread', 'unknown refused', 'single')] + \
         ['catalogue', 'user catalogue', 'printed']
REPO = os.environ.get('VERIF_REPO', '/repo')


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    jobs = [dict(kind='bundled', b=b, seed=seed, part=p, i=i) for i in range(f) for b in (0, 1, 2) for p in range(6)]
    jobs += [dict(kind='user', b=b, seed=seed, i=i) for b in (0, 1, 2) for i in range(10 * f)]
    jobs += [dict(kind='catalogue', b=0, seed=seed, i=i) for i in range(2 * f)]
    jobs += [dict(kind='single', b=b, seed=seed, i=i) for b in (0, 1, 2) for i in range(f)]
    return jobs


def modeling(b):
    import importlib
    meent()
    return importlib.import_module(f'meent.on_{NAMES[b]}.modeler.modeling')


def call(mon, b, m, name, table, wl):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        v = m.find_nk_index(name, table, wl)
    return v, [str(x.message) for x in w if issubclass(x.category, UserWarning)]


def casing(rng, name):
    k = int(rng.integers(4))
    return (name.lower(), name.upper(), name, ''.join(c.upper() if rng.random() < .5 else c.lower() for c in name))[k]


def want(entry, wl):
    return nkref.lookup(entry, wl)


def spread(rng, e, n):
    """Wavelengths inside the range of an entry, hitting table points, gaps and ends."""
    out = [e['lo'], e['hi']]
    if e['kind'] == 'table':
        x = e['rows'][:, 0]
        idx = np.arange(len(x)) if len(x) <= n else rng.choice(len(x), n, replace=False)
        out += list(x[idx])
        for i in rng.integers(0, max(len(x) - 1, 1), n):
            if len(x) > 1:
                out.append(x[i] + rng.random() * (x[i + 1] - x[i]))
    out += list(e['lo'] * (e['hi'] / e['lo']) ** rng.random(n // 2))
    return [float(min(max(v, e['lo']), e['hi'])) for v in out]


def judge(mon, b, m, rng, table, name, e, prefix='', n=24, tol=1e-9):
    B = NAMES[b]
    inside = spread(rng, e, n)
    outside = [e['lo'] * (1 - 1e-9), e['hi'] * (1 + 1e-9), e['lo'] / 3, e['hi'] * 2, e['hi'] * 1e9, e['lo'] * 1e-6]
    mon.case(dict(b=b, name=name, n=len(inside), wl=[inside[0], inside[-1]], prefix=prefix, rows=None if e['kind'] != 'table' else e['rows'][:50]))
    tabled = e['kind'] == 'table'
    scalar = {}
    for wl in inside + (outside if tabled else outside[:4]):
        w = gen.pick(rng, wl, np.float64(wl), np.array(wl)) if b != 1 else wl
        v, msgs = call(mon, b, m, casing(rng, name), table, w)
        v = complex(tonp(v))
        scalar[wl] = v
        if tabled:
            ref = want(e, wl)
            if ref is None:
                mon.skip('rows of one wavelength disagree')
            else:
                ok = mon.near(f'{B} {prefix}value', v, ref, tol * (1 + abs(ref)), material=name, wl=wl)
                if wl in e['rows'][:, 0]:
                    mon.true(f'{B} table points', ok, material=name, wl=wl)
        if e['lo'] <= wl <= e['hi']:
            mon.true(f'{B} inside quiet', not msgs, f'{name} at {wl}: {msgs}')
        else:
            mon.true(f'{B} outside warns', len(msgs) > 0, f'{name} at {wl}')
    # arrays give the scalars, in the given order and shape; real suffix; a warning when any value is outside
    keys = [k for k in scalar if e['lo'] <= k <= e['hi']]
    pickd = list(rng.permutation(keys))[:12]
    if len(pickd) >= 4:
        arr = np.array(pickd[:len(pickd) // 2 * 2])
        arr = arr.reshape(2, -1) if rng.random() < .5 else arr
        v, msgs = call(mon, b, m, casing(rng, name), table, arr)
        mon.near(f'{B} {prefix}array', tonp(v), np.vectorize(lambda x: scalar[x])(arr), tol * 10, material=name)
        mon.true(f'{B} inside quiet', not msgs, f'{name} array: {msgs}')
        r, _ = call(mon, b, m, casing(rng, name) + '__real', table, arr)
        r = tonp(r)
        mon.true(f'{B} real', not np.iscomplexobj(r), f'{name}: {r.dtype}')
        mon.near(f'{B} real', r, np.real(tonp(v)), tol * 10, material=name)
        far = arr.astype(float).copy()
        far.flat[int(rng.integers(far.size))] = e['hi'] * 1.5
        _, msgs = call(mon, b, m, name, table, far)
        mon.true(f'{B} outside warns', len(msgs) > 0, f'{name} array')
    a, _ = call(mon, b, m, name.lower(), table, inside[-1])
    c, _ = call(mon, b, m, name.upper(), table, inside[-1])
    mon.true(f'{B} names', complex(tonp(a)) == complex(tonp(c)), name)
    r, _ = call(mon, b, m, name + '__real', table, inside[-1])
    mon.near(f'{B} real', tonp(r), np.real(complex(tonp(a))), tol, material=name)
    return scalar


def write_txt(path, rows, head, sep='\t'):
    with open(path, 'w') as f:
        f.write('Wavelength(m)\tn\tk\n')
        for k, v in head.items():
            f.write(f'# {k}: {v}\n')
        for r in rows:
            f.write(sep.join(f'{x:.12g}' for x in r) + '\n')


def user_folder(rng, root):
    """Random user folder; returns {name: entry}."""
    out = {}
    n = int(rng.integers(2, 6))
    for i in range(n):
        sub = root if rng.random() < .5 else os.path.join(root, f'sub{int(rng.integers(2))}')
        os.makedirs(sub, exist_ok=True)
        name = gen.pick(rng, 'Gold', 'my_mat', 'ABC-1', 'x[y]', 'Si.O2') + f'_{i}'
        kind = gen.pick(rng, 'txt', 'txt', 'mat', 'fit')
        lo = 10 ** gen.rnd(rng, -7.5, -5)
        if kind == 'fit':
            hi = lo * gen.rnd(rng, 2, 20)
            c = [gen.rnd(rng, 0, .5), gen.rnd(rng, .3, 2), lo * gen.rnd(rng, .05, .5)]
            write_txt(os.path.join(sub, name + '.txt'), [], dict(type='formula 1', coefficients=' '.join(f'{x:.10g}' for x in c), range=f'{lo:.4e} - {hi:.4e} m'))
            out[name] = nkref.parse(os.path.join(sub, name + '.txt'))
            continue
        rows_n = int(gen.pick(rng, 1, 2, 3, 10, 30)) if kind == 'txt' else int(gen.pick(rng, 2, 5, 20))
        wl = np.sort(lo * 10 ** (rng.random(rows_n) * 1.5))
        rows = np.stack([wl, .1 + 4 * rng.random(rows_n), np.where(rng.random(rows_n) < .3, 0, 5 * rng.random(rows_n))], axis=1)
        rows = np.array([[float(f'{x:.12g}') for x in r] for r in rows])
        order = int(rng.integers(3))
        shown = rows if order == 0 else rows[::-1] if order == 1 else rows[rng.permutation(rows_n)]
        if kind == 'mat':
            from scipy.io import savemat
            savemat(os.path.join(sub, name + '.mat'), dict(WL=shown[:, :1], n=shown[:, 1:2], k=shown[:, 2:]))
            out[name] = dict(kind='table', rows=rows, lo=rows[0, 0], hi=rows[-1, 0], head={})
        else:
            head = gen.pick(rng, {}, dict(type='tabulated nk'), dict(type='model', source='Some: body', conditions='cold'))
            if rng.random() < .3:      # columns beyond k (uncertainties, say) carry no index
                shown = np.concatenate([shown, rng.random((rows_n, 1))], axis=1)
            write_txt(os.path.join(sub, name + '.txt'), shown, head)
            out[name] = nkref.parse(os.path.join(sub, name + '.txt'))
    with open(os.path.join(root, 'notes.md'), 'w') as f:
        f.write('not a table\n')
    return out


def run_job(job, mon):
    b, k = job['b'], job['kind']
    rng = rng_of('C18', job['seed'], b, job['i'], k, job.get('part', 0))
    m = modeling(b)
    if k == 'bundled':
        ref = nkref.bundled(REPO)
        table = m.read_material_table()
        mon.true(f'{NAMES[b]} names', set(table) == {n.upper() for n in ref}, 'the table does not hold exactly the bundled files')
        copy = {n: np.array(v) for n, v in table.items() if not isinstance(v, dict)}
        for j, name in enumerate(sorted(ref)):
            if j % 6 == job['part']:
                judge(mon, b, m, rng, table, name, ref[name], n=24 if b != 1 else 10)
        for n, v in copy.items():
            mon.true(f'{NAMES[b]} names', np.array_equal(v, np.array(table[n])), f'lookup changed the table of {n}')
        for bad in ('nosuchmaterial', '', 'au', 'au_johnson_real', 'au_johnson '):
            try:
                v = m.find_nk_index(bad, table, 1e-6)
                mon.true(f'{NAMES[b]} unknown refused', False, f'{bad!r} gave {v}')
            except Exception:
                mon.true(f'{NAMES[b]} unknown refused', True)
    elif k == 'user':
        root = tempfile.mkdtemp(prefix='vp-nk-')
        try:
            ref = user_folder(rng, root)
            table = m.read_material_table(root)
            mon.true(f'{NAMES[b]} names', set(table) == {n.upper() for n in ref}, f'{set(table)} != {set(ref)}')
            first = {}
            for name in ref:
                first[name] = judge(mon, b, m, rng, table, name, ref[name], prefix='user ', n=8 if b != 1 else 4)
            # rewrite one file: a new read sees the new data, the old table keeps the old
            txt = [n for n in ref if ref[n]['kind'] == 'table' and ref[n]['head'] is not None and not ref[n].get('mat')]
            for d, _, files in os.walk(root):
                for f in files:
                    if f.endswith('.txt') and f[:-4] in txt:
                        e = ref[f[:-4]]
                        rows = e['rows'].copy()
                        rows[:, 1] += 1
                        write_txt(os.path.join(d, f), rows, {})
                        again = m.read_material_table(root)
                        wl = e['lo']
                        v, _ = call(mon, b, m, f[:-4], again, wl)
                        mon.near(f'{NAMES[b]} reread', complex(tonp(v)), nkref.lookup(e, wl) + 1, 1e-9, material=f)
                        v, _ = call(mon, b, m, f[:-4], table, wl)
                        mon.near(f'{NAMES[b]} reread', complex(tonp(v)), nkref.lookup(e, wl), 1e-9, material=f)
                        break
            mon.true(f'{NAMES[b]} reread', True)
            for n in ref:
                try:
                    m.find_nk_index(n, m.read_material_table(), 1e-6)
                    mon.true(f'{NAMES[b]} unknown refused', False, f'{n} of a user folder leaked into the bundled catalogue')
                except Exception:
                    mon.true(f'{NAMES[b]} unknown refused', True)
                    break
        finally:
            shutil.rmtree(root)
    elif k == 'single':
        import importlib
        lib = {0: 'numpy', 1: 'jax.numpy', 2: 'torch'}[b]
        c64 = importlib.import_module(lib).complex64
        t = m.read_material_table(type_complex=c64)
        d = m.read_material_table()
        ref = nkref.bundled(REPO)
        mon.case(dict(b=b, single=True, i=job['i']))
        for name, v in t.items():
            if isinstance(v, dict):
                continue
            mon.true(f'{NAMES[b]} single', np.asarray(v).dtype == np.float32 and np.asarray(d[name]).dtype == np.float64, f'{name}: {np.asarray(v).dtype}')
            mon.near(f'{NAMES[b]} single', np.asarray(v), np.asarray(d[name]), 1e-6 * np.abs(np.asarray(d[name])) + 1e-30, material=name)
            x = float(np.asarray(d[name])[:, 0].mean())
            if nkref.lookup(ref[[n for n in ref if n.upper() == name][0]], x) is not None:
                a = complex(tonp(m.find_nk_index(name, t, x)))
                c = complex(tonp(m.find_nk_index(name, d, x)))
                mon.near(f'{NAMES[b]} single', a, c, 2e-2 * abs(c), material=name)
        try:
            m.read_material_table(type_complex='wrong')
            mon.true(f'{NAMES[b]} unknown refused', False, 'unknown precision accepted')
        except Exception:
            mon.true(f'{NAMES[b]} unknown refused', True)
    else:
        root = tempfile.mkdtemp(prefix='vp-nk-')
        try:
            for tag, path, ref in (('catalogue', None, nkref.bundled(REPO)), ('user catalogue', root, user_folder(rng, root))):
                mon.case(dict(tag=tag, i=job['i'], names=sorted(ref)))
                lst = meent().list_materials(path) if path else meent().list_materials()
                mon.true(tag, [x['name'] for x in lst] == sorted(n.upper() for n in ref), 'names differ')
                by = {n.upper(): e for n, e in ref.items()}
                for x in lst:
                    e = by[x['name']]
                    mon.near(tag, [x['wl_min'], x['wl_max']], [e['lo'], e['hi']], 1e-12 * e['hi'], material=x['name'])
                    mon.true(tag, x['source'] == e['head'].get('source', '') and x['conditions'] == e['head'].get('conditions', ''), f'{x}')
                out = io.StringIO()
                with redirect_stdout(out):
                    meent().print_materials(path) if path else meent().print_materials()
                text = out.getvalue()
                for n, e in by.items():
                    line = [l for l in text.splitlines() if l.startswith(n + ' ')]
                    mon.true('printed', len(line) == 1 and f'{e["lo"]:.4e}' in line[0] and f'{e["hi"]:.4e}' in line[0], f'{n}: {line}')
        finally:
            shutil.rmtree(root)
