"""Field plots: the recorded images against the field map they were asked to show."""
import importlib

import numpy as np

import gen
from drive import NAMES, meent, rng_of, tonp

RULE = ('random field maps (of solved problems in every formulation, and random arrays) plotted through the solver and through the plotting function with random selections of components, slices and views, on every backend; a stand-in '
        'for the final display records every image, its title and axis labels from the figure. Each image must be |component|^2 of the requested slice, named after that component; every requested image appears exactly once per map (in the order of the maps), nothing else does. Distinct by map and selection.')
ASSUMPTIONS = ['images are shown through pyplot (any way of drawing them)']
EXPECT = ['numpy image', 'torch image', 'jax image', 'numpy complete', 'torch complete', 'jax complete', 'map unchanged']
NAME2 = ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz']
NAME1 = {0: ['Ey', 'Hx', 'Hz'], 1: ['Hy', 'Ex', 'Ez']}


def plan(tier, seed):
    f = 1 if tier == 'quick' else 8
    return [dict(kind='plot', b=b, seed=seed, i=i, n=2 if b != 1 else 1, **(dict(lane=f'j{i % 4}', ln=i % 4) if b == 1 else {})) for b in (0, 1, 2) for i in range((24 if b != 1 else 8) * f)]


class Screen:
    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        self.plt, self.real, self.seen = plt, plt.show, []
        plt.figure()              # settles the display backend, which would replace show
        plt.close('all')

        def show(*a, **k):
            self.show()
        plt.show = show
        return self

    def show(self, *a, **k):
        for n in self.plt.get_fignums():
            for ax in self.plt.figure(n).axes:
                for im in ax.images:
                    self.seen.append((np.array(im.get_array()), ax.get_title(), ax.get_xlabel(), ax.get_ylabel()))
        self.plt.close('all')

    def __exit__(self, *a):
        self.show()
        self.plt.show = self.real


def run_job(job, mon):
    b = job['b']
    if b == 1:
        meent().call_mee(backend=1)
    for c in range(job['n']):
        rng = rng_of('C29', job['seed'], b, job['i'], c)
        case = gen.any_case(rng, b, job.get('ln', 0), hostile=False, zero_thickness=False)
        case['fto'] = [min(v, 2) for v in case['fto']] if b != 1 else case['fto']
        m = meent().call_mee(backend=b, **{k: v for k, v in case.items() if k in ('n_top', 'n_bot', 'theta', 'phi', 'pol', 'period', 'wavelength', 'ucell', 'thickness', 'fto', 'fourier_type')})
        res = dict(res_x=int(rng.integers(2, 6)), res_y=int(rng.integers(1, 4)), res_z=int(rng.integers(1, 4)))
        if case['phi'] is not None:
            res['set_field_input'] = gen.pick(rng, (True, False, False), (False, True, True), (True, True, True), (False, False, True))
        _, field = m.conv_solve_field(**res)
        if field.ndim == 5 and rng.random() < .3:
            field = field[-1]          # a single map
        show(mon, rng, b, m, field, case['pol'], case=case, res=res)
        for _ in range(4):             # any map of the documented shapes
            n = gen.pick(rng, 3, 6, 6)
            shape = [int(v) for v in rng.integers(1, 6, 3)] + [n]
            if n == 6 and rng.random() < .5:
                shape = [int(rng.integers(1, 4))] + shape
            f = rng.normal(size=shape) + 1j * rng.normal(size=shape)
            show(mon, rng, b, None, arr(b, f), gen.pick(rng, 0, 1), shape=shape)


def arr(b, f):
    if b == 1:
        import jax.numpy as jnp
        return jnp.asarray(f)
    if b == 2:
        import torch
        return torch.tensor(f)
    return f


def show(mon, rng, b, m, field, pol, **of):
    nm = NAMES[b]
    f = tonp(field).copy()
    maps = list(f) if f.ndim == 5 else [f]
    n = f.shape[-1]
    names = NAME2 if n == 6 else NAME1[int(pol != 0)]
    if m is not None and rng.random() < .4:
        sel, ys, zs, zx, yx = [1] * 6, 0, -1, True, True
        mon.case(dict(of=of, how='solver'))
        with Screen() as scr:
            m.field_plot(field)
    else:
        sel = [int(v) for v in rng.integers(0, 2, 6)]
        if not any(sel[:n]):
            sel[int(rng.integers(n))] = 1
        ys, zs = int(rng.integers(-maps[0].shape[1], maps[0].shape[1])), int(rng.integers(-maps[0].shape[0], maps[0].shape[0]))
        zx, yx = [(True, True), (True, False), (False, True)][int(rng.integers(3))]
        mod = importlib.import_module(f'meent.on_{nm}.emsolver.field_distribution')
        mon.case(dict(of=of, pol=pol, first=complex(f.flat[0]), how=[sel, ys, zs, zx, yx]))
        with Screen() as scr:
            mod.field_plot(field, pol=pol, plot_indices=sel, y_slice=ys, z_slice=zs, zx=zx, yx=yx)
    mon.true('map unchanged', np.array_equal(tonp(field), f))
    want = []
    for k in range(n):
        if sel[k]:
            if zx:
                want.append((names[k], ('X', 'Z'), [np.abs(g[:, ys, :, k]) ** 2 for g in maps]))
            if yx:
                want.append((names[k], ('X', 'Y'), [np.abs(g[zs, :, :, k]) ** 2 for g in maps]))
    ctx = dict(of=of, sel=sel, ys=ys, zs=zs, zx=zx, yx=yx, backend=nm)
    mon.true(f'{nm} complete', len(scr.seen) == len(want) * len(maps), f'{len(scr.seen)} images, {len(want) * len(maps)} asked for', **ctx)
    for name, axes, w in want:
        hit = [s for s in scr.seen if name in s[1].replace(',', ' ').split() and (s[2], s[3]) == axes]
        if mon.true(f'{nm} complete', len(hit) == len(w), f'{len(hit)} images of {name} over {axes}; titles {[s[1] for s in scr.seen]}', **ctx):
            for h, v in zip(hit, w):
                mon.near(f'{nm} image', h[0], v, 1e-9 * (1 + np.abs(v).max()), component=name, **ctx)
