"""A solver object has no memory: random histories against a model that knows only the current parameters."""
import copy

import numpy as np

import gen
import oracle
import pristine
from drive import NAMES, PARTS, Sub, kwargs, meent, rng_of, tonp

RULE = ('random histories of parameter changes (every attribute; raster/vector/formulation/layer-count/truncation changes; minute changes; the same values rearranged; '
        'the same caller array refilled and assigned again; caller arrays and lists overwritten after they were handed over; refused assignments; failing solves; excursions to single precision), solves, repeated solves and field maps on one to three interleaved solver '
        'objects, also of different backends; every recorded result is compared with a solver built from the current parameters in a process that has '
        'never solved anything (numpy, torch) or a new object (jax), and with the independent Maxwell solution. All earlier results, field maps and caller-owned inputs are '
        'compared bit for bit with copies taken when they were handed over. Distinct by history.')
ASSUMPTIONS = ['after a change of precision all parameters are assigned again',
               'field maps are taken directly after a solve (calculate_field describes the last solve)']
EXPECT = ['numpy fresh', 'torch fresh', 'jax fresh', 'numpy model R', 'torch model R', 'numpy field', 'torch field', 'repeat', 'results kept',
          'inputs kept', 'two objects', 'arrays reused']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 10
    jobs = [dict(kind='jax', b=1, seed=seed, i=i, lane=f'j{i % 8}', ln=i % 8, steps=12) for i in range(8 * f)]
    jobs += [dict(kind='one', b=b, seed=seed, i=i, steps=24) for b in (0, 2) for i in range(40 * f)]
    jobs += [dict(kind='two', b=b, seed=seed, i=i, steps=30) for b in (0, 2) for i in range(25 * f)]
    jobs += [dict(kind='mixed', b=0, seed=seed, i=i, steps=30) for i in range(20 * f)]
    return jobs


# ------------------------------------------------------------------------------------------------ a fresh evaluation
def record(mee, field):
    r = mee.conv_solve()
    out = {}
    for n in ('res', 'res_te_inc', 'res_tm_inc'):
        s = getattr(r, n)
        if s is not None:
            out[n] = {k: tonp(getattr(s, k)).copy() for k in PARTS}
    f = tonp(mee.calculate_field(**field)).copy() if field else None
    return r, out, f


def fresh(b, kw, field):
    """Called in the untouched process."""
    if b == 2:
        import torch
        torch.set_num_threads(1)
    return record(meent().call_mee(backend=b, **kw), field)[1:]


# ------------------------------------------------------------------------------------------------ one monitored object
class Watched:
    def __init__(self, rng, b, ln, mon, kept):
        self.rng, self.b, self.ln, self.mon, self.kept = rng, b, ln, mon, kept
        self.case = self.draw()
        self.case.pop('use_pinv', None)
        self.lent = []          # caller-owned numpy arrays and lists handed to the package
        self.log = []
        kw = {k: self.lend(k, v) for k, v in kwargs(self.case).items()}
        self.mee = meent().call_mee(backend=b, **kw)
        self.buffer = None

    def draw(self):
        c = gen.any_case(self.rng, self.b, self.ln, free=0, hostile=False, zero_thickness=True)
        if self.b != 1 and c['phi'] is not None and self.rng.random() < .25:
            c['fourier_type'] = 1
            gen.vectorise(self.rng, c, most=3)
        return c

    def lend(self, key, v):
        """The object actually handed over, in one of its accepted forms; its content must never change."""
        rng = self.rng
        if key in ('period', 'thickness'):
            v = list(v)
        if key in ('period', 'thickness') and rng.random() < .5:
            k = int(rng.integers(3))
            if k == 0:
                v = np.array(v)
            elif k == 1 and self.b == 2:
                import torch
                v = torch.tensor(v, dtype=torch.float64)
            elif k == 2 and self.b == 2 and rng.random() < .5:
                import torch
                v = torch.tensor(v, dtype=torch.float64, requires_grad=True)
        elif key == 'ucell' and isinstance(v, np.ndarray):
            v = v.copy()
            if self.b == 2 and rng.random() < .4:
                import torch
                v = torch.from_numpy(v)
        elif key == 'ucell':
            v = copy.deepcopy(v)
        elif key == 'fto':
            v = list(v)
        if isinstance(v, (list, np.ndarray)) or hasattr(v, 'detach'):
            self.kept.append([key, v, snapshot(v)])
            if isinstance(v, np.ndarray) or key in ('period', 'thickness', 'fto'):
                self.lent.append(self.kept[-1])
        return v

    def scribble(self):
        """The caller goes on using an array handed over earlier for something else."""
        held = [id(v) for v in (self.pending or {}).values()]
        free = [e for e in self.lent[-12:] if id(e[1]) not in held and not hasattr(e[1], 'detach')]
        if self.b == 1:        # jnp.array() may still be copying in the background: let it finish first
            for a in list(vars(self.mee).values()):
                if hasattr(a, 'block_until_ready'):
                    a.block_until_ready()
        for e in free if self.rng.random() < .5 else free[-1:]:
            v = e[1]
            if isinstance(v, list):
                v[:] = [7] * len(v)
            else:
                v[...] = v * gen.rnd(self.rng, 1.1, 2) + gen.rnd(self.rng, .1, .5)
            e[2] = snapshot(v)
            self.mon.true('arrays reused', True)
        self.log.append('scribble')

    def assign(self, key, v):
        self.case[key] = v
        if key in ('pol', 'psi'):
            other = 'psi' if key == 'pol' else 'pol'
            self.case.pop(other, None)
            self.pending.pop(other, None)
        h = self.lend(key, v)
        if self.b != 0 and self.rng.random() < .2:
            self.pending[key] = h          # handed over with the next solve
        else:
            self.pending.pop(key, None)
            setattr(self.mee, key, h)

    pending = None

    # -------------------------------------------------------------------------------------------- operations
    def change(self):
        rng, case = self.rng, self.case
        self.pending = self.pending or {}
        new = self.draw()
        k = int(rng.integers(15))
        same_rows = self.b != 1
        if k <= 2:
            key = gen.pick(rng, 'n_top', 'n_bot', 'theta', 'wavelength', 'period')
            v = new[key]
            if key == 'period' or key == 'wavelength':
                v = [float(p * gen.rnd(rng, .8, 1.2)) for p in case['period']] if key == 'period' else float(case['wavelength'] * gen.rnd(rng, .8, 1.2))
                if key == 'period' and not isinstance(case['ucell'], np.ndarray):
                    key, v = 'wavelength', float(case['wavelength'] * gen.rnd(rng, .8, 1.2))
            self.assign(key, v)
        elif k == 3:          # a change almost too small to see
            key = gen.pick(rng, 'wavelength', 'theta', 'thickness', 'n_top', 'ucell')
            e = 1 + 10 ** gen.rnd(rng, -9, -5)
            if key == 'thickness':
                self.assign(key, [t * e for t in case[key]])
            elif key == 'ucell':
                if isinstance(case[key], np.ndarray):
                    self.assign(key, case[key] * e)
            else:
                self.assign(key, float(case[key] * e))
        elif k == 4:
            self.assign('thickness', [float(case['wavelength'] * gen.rnd(rng, 0, .8)) for _ in case['thickness']])
        elif k == 5:
            p = gen.rnd(rng, 0, 1) if case['phi'] is not None else gen.pick(rng, 0, 1)
            if rng.random() < .5:
                self.assign('pol', p)
            else:
                self.assign('psi', float(np.pi / 2 * (1 - p)))
        elif k == 6 and same_rows:
            if case['phi'] is None or not isinstance(case['ucell'], np.ndarray):
                self.assign('phi', gen.azimuth(rng))
            elif case['ucell'].shape[1] == 1 and case['fto'][1] == 0:
                self.assign('phi', None)
                self.assign('pol', int(gen.pick(rng, 0, 1)))
            else:
                self.assign('phi', gen.azimuth(rng))
        elif k == 7 and self.b != 1:
            fy = int(rng.integers(0, 3)) if case['phi'] is not None else 0
            self.assign('fto', [int(rng.integers(0, 4)), fy])
        elif k == 8:
            key = gen.pick(rng, 'fourier_type', 'enhanced_dfs', 'use_pinv')
            if self.b == 1:
                key = gen.pick(rng, 'fourier_type', 'use_pinv')
            if key == 'fourier_type':
                self.assign(key, int(rng.integers(2)))
            else:
                self.assign(key, bool(rng.random() < .5))
        elif k == 9 and isinstance(case['ucell'], np.ndarray):
            # the caller's array is reused: refilled with the next cell and assigned again
            u = case['ucell']
            nxt = gen.layer_pattern(rng, u.shape[1], u.shape[2], False).real[None] * np.ones((u.shape[0], 1, 1))
            if self.buffer is None or self.buffer.shape != u.shape:
                self.buffer = np.empty(u.shape)
            self.buffer[...] = nxt
            self.case['ucell'] = self.buffer.copy()
            self.pending.pop('ucell', None)
            self.mee.ucell = self.buffer
        elif k == 10:         # refused: must change nothing
            key, bad = gen.pick(rng, ('pol', 1.5), ('pol', -.2), ('period', 'x'), ('thickness', 'x'), ('type_complex', 'x'))
            try:
                setattr(self.mee, key, bad)
            except Exception:
                pass
        elif k == 11:         # an excursion: single precision and back, everything assigned again
            self.flush()
            self.mee.type_complex = 1
            if rng.random() < .7:
                try:
                    self.mee.conv_solve()
                except Exception:      # ill-conditioned in single precision: a failing solve must not leave traces either
                    pass
            self.mee.type_complex = 0
            for key, v in kwargs(case).items():
                setattr(self.mee, key, self.lend(key, v))
        elif k == 12:         # a solve that fails half-way (more thicknesses than layers), then repaired
            self.flush()
            self.mee.thickness = [float(t) for t in case['thickness']] + [float(case['wavelength'])] * 2
            try:
                self.mee.conv_solve()
            except Exception:
                pass
            self.mee.thickness = self.lend('thickness', case['thickness'])
        elif k == 14:         # the same values in other places
            key = gen.pick(rng, 'ucell', 'ucell', 'thickness', 'period', 'halves', 'theta', 'phi')
            u = case['ucell']
            if key == 'ucell' and isinstance(u, np.ndarray):
                how = int(rng.integers(4))
                self.assign('ucell', (np.roll(u, 1, axis=2) if how == 0 else u[:, ::-1, ::-1] if how == 1 else u[::-1] if how == 2 else np.roll(u, 1, axis=1)).copy())
            elif key == 'thickness':
                self.assign('thickness', list(case['thickness'])[::-1])
            elif key == 'period' and isinstance(u, np.ndarray):
                self.assign('period', list(case['period'])[::-1])
            elif key == 'halves' and not np.iscomplexobj(case['n_bot']):
                top, bot = case['n_top'], case['n_bot']
                self.assign('n_top', bot)
                self.assign('n_bot', top)
            elif key == 'theta':
                self.assign('theta', -case['theta'])
            elif key == 'phi' and case['phi'] is not None:
                self.assign('phi', -case['phi'])
        else:                 # another structure altogether, in any order
            todo = ['ucell', 'thickness', 'period', 'wavelength', 'fto', 'phi', 'fourier_type']
            if self.b == 1:
                todo = ['ucell', 'thickness', 'period', 'wavelength']
            if not isinstance(new['ucell'], np.ndarray):
                self.case['geom'] = new['geom']
            else:
                self.case.pop('geom', None)
            for j in rng.permutation(len(todo)):
                self.assign(todo[j], new[todo[j]])
            if self.b != 1:
                self.assign('pol', new['pol'])
        self.log.append(k)

    def flush(self):
        for k, v in (self.pending or {}).items():
            setattr(self.mee, k, v)
        self.pending = {}

    def solve(self, field=False):
        mon, b, case = self.mon, self.b, self.case
        spec = None
        if field:
            rng = self.rng
            spec = dict(res_x=int(rng.integers(1, 6)), res_y=int(rng.integers(1, 5)), res_z=int(rng.integers(1, 4)),
                        set_field_input=gen.pick(rng, (True, False, False), (True, True, True), (True, False, True)))
        pend, self.pending = self.pending or {}, {}
        ctx = dict(case=case, backend=NAMES[b], history=self.log[-40:], pending=list(pend))
        if field and self.rng.random() < .5:
            r, f = self.mee.conv_solve_field(**spec, **pend)
        else:
            r = self.mee.conv_solve(**pend)
            f = self.mee.calculate_field(**spec) if field else None
            if field and self.rng.random() < .3:
                f2 = self.mee.calculate_field(**spec)
                mon.near('repeat', tonp(f2), tonp(f), 0.0, **ctx)
        got = {}
        for n in ('res', 'res_te_inc', 'res_tm_inc'):
            s = getattr(r, n)
            if s is not None:
                got[n] = {k: tonp(getattr(s, k)).copy() for k in PARTS}
                self.kept.append(('result', s, {k: v.copy() for k, v in got[n].items()}))
        if f is not None:
            self.kept.append(('field', f, tonp(f).copy()))
        kw = kwargs(case)
        mon.case(dict(history=self.log, case=kw, field=spec))
        if b == 1:
            want, wf = record(meent().call_mee(backend=1, **kw), spec)[1:]
        else:
            want, wf = pristine.call('checks.C15', 'fresh', b, kw, spec)
        name = f'{NAMES[b]} fresh'
        if not mon.true(name, set(got) == set(want), f'results {sorted(got)} != {sorted(want)}', **ctx):
            return
        for n in got:
            for k in PARTS:
                w = want[n][k]
                mon.near(name, got[n][k], w, 1e-10 * (1 + np.abs(w)), which=n, part=k, **ctx)
        if f is not None:
            mon.near(f'{NAMES[b]} field', tonp(f), wf, 1e-8 * (1 + np.abs(wf).max()), **ctx)
        if case['fourier_type'] == 0 and isinstance(case['ucell'], np.ndarray):
            oc = dict(case, sampling=oracle.sampling_of(case))
        else:
            oc = dict(case)
        oracle.compare(mon, f'{NAMES[b]} model', b, oc, Holder(got), 1e-5, amps=False, max_cond=1e8)
        self.log.append('field' if field else 'solve')


class Holder:
    """Recorded results in the shape the comparison with the reference expects."""

    def __init__(self, got):
        def sub(d):
            s = Sub.__new__(Sub)
            s.__dict__.update(d)
            return s
        self.res = sub(got['res'])
        self.te = sub(got['res_te_inc']) if 'res_te_inc' in got else None
        self.tm = sub(got['res_tm_inc']) if 'res_tm_inc' in got else None

    def subs(self):
        return [(n, s) for n, s in (('res', self.res), ('te', self.te), ('tm', self.tm)) if s is not None]


def snapshot(v):
    if isinstance(v, list):
        return copy.deepcopy(v)
    if hasattr(v, 'detach'):
        return tonp(v).copy(), v.requires_grad
    return v.copy()


def unchanged(v, snap):
    if isinstance(v, list):
        return v == snap
    if hasattr(v, 'detach'):
        return v.requires_grad == snap[1] and np.array_equal(tonp(v), snap[0]) and tonp(v).dtype == snap[0].dtype
    return v.dtype == snap.dtype and np.array_equal(v, snap)


def run_job(job, mon):
    if job['b'] != 1:
        pristine.start()
    rng = rng_of('C15', job['kind'], job['seed'], job['b'], job['i'])
    kept = []
    bs = {'jax': [1], 'one': [job['b']], 'two': [job['b']] * 2, 'mixed': [0, 2, 0]}[job['kind']]
    objs = [Watched(rng, b, job.get('ln', 0), mon, kept) for b in bs]
    solved = set()
    for step in range(job['steps']):
        o = objs[int(rng.integers(len(objs)))]
        p = rng.random()
        if p < (.62 if job['b'] != 1 else .72):
            o.change()
            if rng.random() < .3:
                o.scribble()
        elif p < .88:
            o.solve()
            solved.add(id(o))
        elif p < .96:
            o.solve(field=True)
        else:
            o.flush()
            r1, a1, _ = record(o.mee, None)
            r2, a2, _ = record(o.mee, None)
            for n in a1:
                for k in PARTS:
                    mon.near('repeat', a2[n][k], a1[n][k], 0.0 if o.b != 1 else 1e-12, part=k, case=o.case, backend=NAMES[o.b])
    for o in objs:
        o.solve(field=rng.random() < .5)
    if len(objs) > 1:
        mon.true('two objects', True)
    for key, v, snap in kept:
        if key == 'result':
            for k in PARTS:
                mon.true('results kept', np.array_equal(tonp(getattr(v, k)), snap[k]), f'earlier result {k} changed', job=job)
        elif key == 'field':
            mon.true('results kept', np.array_equal(tonp(v), snap, equal_nan=True), 'earlier field map changed', job=job)
        else:
            mon.true('inputs kept', unchanged(v, snap), f'caller-owned {key} changed', before=snap, after=tonp(v) if not isinstance(v, list) else v, job=job)
