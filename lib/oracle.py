"""What an independent solution of the same problem says a result must be, in the package's conventions."""
import numpy as np

import gen
import refrcwa as rr

FAR = 1e-7        # orders whose in-plane wavevector is closer to 0 than this have no defined s/p directions


def psi_of(case):
    if case.get('psi') is not None:
        return case['psi']
    return np.pi / 2 * (1 - case.get('pol', 0))


def layers_of(case):
    if case.get('geom') is not None:
        return case['geom']
    return [rr.raster_layer(l) for l in case['ucell']]


def sampling_of(case):
    """Samples per pixel (x, y) of the sampled Fourier method: at least 4*order+1 points per period, or per pixel if enhanced."""
    ny, nx = np.shape(case['ucell'])[1:3]
    out = []
    for n, f in ((nx, case['fto'][0]), (ny, case['fto'][1])):
        need = (4 * f + 1) * (n if case.get('enhanced_dfs', True) else 1)
        out.append(need // n + 1 if n < need else 1)
    return out


def reference(case, **over):
    c = {**case, **over}
    return rr.Reference(c['n_top'], c['n_bot'], c['theta'], c['phi'] or 0.0, c['period'], c['wavelength'], layers_of(c),
                        c['thickness'], c['fto'], modes=c.get('modes'), sampling=c.get('sampling'))


class Expected:
    """Per-order expectations of one polarization (E = p cos + s sin of the incidence frame)."""

    def __init__(self, ref, s, p):
        self.ref = ref
        sol = self.sol = ref.solve(s, p)
        N = ref.N
        sh = sol.shape
        kx, ky = ref.kx, ref.ky
        self.kx, self.ky = kx.reshape(sh), ky.reshape(sh)
        with np.errstate(all='ignore'):
            v = np.where(kx == 0, np.where(ky == 0, 0.0, np.sign(ky) * np.pi / 2), np.arctan(ky / np.where(kx == 0, 1, kx)))
        c, sn = np.cos(v), np.sin(v)
        hr, ht = -ref.Vt @ sol.r, ref.Vb @ sol.t

        def comp(vec):
            return (-sn * vec[:N] + c * vec[N:]).reshape(sh)

        self.er, self.et, self.hr, self.ht = comp(sol.r), comp(sol.t), comp(hr), comp(ht)
        kzt, kzb = ref.kzt.reshape(sh), ref.kzb.reshape(sh)
        self.de_ri, self.de_ti = sol.de_ri, sol.de_ti
        P = sol.p_inc
        self.de_ri_s = np.abs(self.er) ** 2 * kzt.real / P
        self.de_ri_p = np.abs(self.hr) ** 2 * (kzt / ref.n_top ** 2).real / P
        self.de_ti_s = np.abs(self.et) ** 2 * kzb.real / P
        self.de_ti_p = np.abs(self.ht) ** 2 * (kzb / ref.n_bot ** 2).real / P
        self.split = np.hypot(self.kx, self.ky) > FAR
        self.signed = self.split & (np.abs(self.kx) > FAR)

    def amplitudes(self, backend, scalar):
        """R_s, R_p, T_s, T_p in the convention of the backend; scalar: the 1D TE/TM formulation answered."""
        n, nb = self.ref.n_top, self.ref.n_bot
        # s is drawn along (-sin v, cos v), v = atan(ky / kx), also for the incident wave: a global sign for cos(phi) < 0
        g = -1.0 if np.cos(self.ref.phi) < 0 and not scalar else 1.0
        if scalar:
            a = [self.er, self.hr / n, self.et, self.ht / n]
        elif backend == 2:
            a = [self.er, self.hr / n, self.et, self.ht / nb]
        else:
            a = [self.er, -1j * self.hr, self.et, -1j * self.ht]
        a = [g * x for x in a]
        if backend == 2:
            c = self.ref.N // 2
            s0 = 1.0 if self.ref.kx[c] >= 0 else -1.0
            pc = np.where(self.kx >= 0, 1.0, -1.0) * s0
            a = [np.conj(x) * pc for x in a]
        return dict(zip(('R_s', 'R_p', 'T_s', 'T_p'), a))


def compare(mon, tag, backend, case, out, tol, ref=None, amps=True, parts=True, who=('res', 'te', 'tm'), max_cond=1e9):
    """Compare a solve with the reference, order by order.  Returns the reference or None when inconclusive."""
    ref = ref or reference(case)
    if not np.isfinite(ref.cond) or ref.cond > max_cond:
        mon.skip('reference ill-conditioned')
        return None
    if ref.cond > 1e6:
        tol = tol + 1e-14 * ref.cond        # rounding of the two solutions
    psi = psi_of(case)
    pols = dict(res=(np.sin(psi), np.cos(psi)), te=(1.0, 0.0), tm=(0.0, 1.0))
    scalar = out.te is None
    c = ref.N // 2
    for which, sub in out.subs():
        if which not in who:
            continue
        e = Expected(ref, *pols[which])
        ctx = dict(case=case, backend=backend, which=which, cond=float(ref.cond))
        mon.near(f'{tag} R', sub.de_ri, e.de_ri, tol, **ctx)
        mon.near(f'{tag} T', sub.de_ti, e.de_ti, tol, **ctx)
        if parts:
            for k in ('de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
                mon.near(f'{tag} s/p parts', np.where(e.split, getattr(sub, k), 0), np.where(e.split, getattr(e, k), 0), tol,
                         part=k, **ctx)
        if amps:
            # torch signs are relative to the sign of the incident kx
            clear = abs(np.cos(ref.phi)) > FAR and (backend != 2 or abs(ref.kx[c]) > FAR)
            sure = e.signed & clear
            for k, want in e.amplitudes(backend, scalar).items():
                got = getattr(sub, k)
                t = tol * (1 + np.abs(want))
                mon.near(f'{tag} amplitude', np.where(sure, got, 0), np.where(sure, want, 0), t, part=k, **ctx)
                mon.near(f'{tag} magnitude', np.where(e.split, np.abs(got), 0), np.where(e.split, np.abs(want), 0), t, part=k, **ctx)
    return ref


def same(mon, name, b, case, a, out, tol):
    """Two solves of one physical problem agree: every order, s/p part and (where directions are defined) amplitude."""
    kx, ky = gen.orders(case)
    split = np.hypot(kx, ky) > 1e-7
    if gen.cutoff_gap(case) < 1e-6:
        tol = max(tol, 1e-4)
    for (n, s), (_, t) in zip(a.subs(), out.subs()):
        for k in ('de_ri', 'de_ti'):
            mon.near(name, getattr(t, k), getattr(s, k), tol, part=k, case=case, which=n, backend=b)
        for k in ('de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
            if (a.te is None) == (out.te is None):
                u, v = np.where(split, getattr(s, k), 0), np.where(split, getattr(t, k), 0)
                mon.near(name, v, u, tol, part=k, case=case, which=n, backend=b)
        for k in ('R_s', 'R_p', 'T_s', 'T_p'):
            if a.te is None or out.te is None:
                continue
            u, v = np.where(split, getattr(s, k), 0), np.where(split, getattr(t, k), 0)
            mon.near(name + ' amplitude', v, u, tol * 20 * (1 + abs(u)), part=k, case=case, which=n, backend=b)
