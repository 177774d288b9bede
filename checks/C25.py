"""Solvers in concurrent threads: recorded results against the same work done alone, under injected switches."""
import random
import sys
import threading
import time

import numpy as np

import gen
import pristine
from drive import NAMES, PARTS, kwargs, meent, rng_of, tonp

RULE = ('two to six threads, each with its own solver object (one backend or mixed) and its own script of parameter changes, solves, field maps, gradient passes, material lookups and cell '
        'fills, started together; the interpreter switches threads every few microseconds and a line monitor inside the package injects extra switches. Every recorded value is compared with the same script run alone in a '
        'process that has done nothing else (NumPy, PyTorch) or before the threads start (JAX). The line monitor records the schedule; evidence counts switches inside package code and distinct schedules. Distinct by scripts.')
ASSUMPTIONS = ['each solver object is used by one thread', 'JAX compiles what the threads need beforehand: its compiler itself is not safe when two threads compile the same operation first (crash inside jaxlib)']
EXPECT = ['numpy alone', 'torch alone', 'jax alone', 'switches inside the package', 'distinct schedules', 'mixed alone']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 10
    jobs = [dict(kind='threads', b=b, seed=seed, i=i) for b in (0, 2) for i in range(36 * f)]
    jobs += [dict(kind='mixed', b=0, seed=seed, i=i) for i in range(16 * f)]
    jobs += [dict(kind='threads', b=1, seed=seed, i=i, lane=f'j{i % 4}', ln=i % 4) for i in range(8 * f)]
    return jobs


# ------------------------------------------------------------------------------------------------ scripts
def script(rng, b, ln):
    """A list of plain operations; the first one builds the solver."""
    case = gen.any_case(rng, b, ln, free=0, hostile=False, zero_thickness=False)
    case['fto'] = [min(v, 3) for v in case['fto']] if b != 1 else case['fto']
    vec = b != 1 and case['phi'] is not None and rng.random() < .3
    if vec:
        gen.vectorise(rng, case, most=4)
        case['fourier_type'] = 1
        case.pop('geom')
    ops = [('make', kwargs(case))]
    for _ in range(int(rng.integers(3, 7)) if b != 1 else 3):
        k = int(rng.integers(7))
        if k == 0:
            ops.append(('set', 'wavelength', float(case['wavelength'] * gen.rnd(rng, .9, 1.1))))
        elif k == 1:
            ops.append(('set', 'theta', gen.rnd(rng, .05, 1.2)))
        elif k == 2 and b != 1:
            ops.append(('set', 'fto', [int(rng.integers(1, 4)), int(rng.integers(0, 2)) if case['phi'] is not None else 0]))
        elif k == 3:
            ops.append(('field', dict(res_x=int(rng.integers(2, 5)), res_y=2, res_z=2)))
        elif k == 4 and b == 2:
            ops.append(('grad', [float(t) for t in case['thickness']]))
        elif k == 5 and b != 1:
            ops.append(('fill', rng.integers(0, 3, (1, 2, 4)), [gen.pick(rng, 'Si_aspnes', 'si_green-2008', 'SiO2_malitson', 1.45), gen.rnd(rng, 1, 3), gen.pick(rng, 'TiO2_siefke', 2.2)], 600e-9))
        ops.append(('solve',))
    return ops


def play(b, ops):
    out = []
    mee = None
    for op in ops:
        if op[0] == 'make':
            mee = meent().call_mee(backend=b, **op[1])
        elif op[0] == 'set':
            setattr(mee, op[1], op[2])
        elif op[0] == 'solve':
            r = mee.conv_solve()
            for n in ('res', 'res_te_inc', 'res_tm_inc'):
                s = getattr(r, n)
                if s is not None:
                    out += [tonp(getattr(s, k)).copy() for k in PARTS]
        elif op[0] == 'field':
            mee.conv_solve()
            out.append(tonp(mee.calculate_field(**op[1])).copy())
        elif op[0] == 'grad':
            import torch
            t = torch.tensor(op[1], dtype=torch.float64, requires_grad=True)
            mee.thickness = t
            r = mee.conv_solve()
            (r.de_ri ** 2).sum().backward()
            out.append(t.grad.numpy().copy())
            mee.thickness = op[1]
        elif op[0] == 'fill':
            out.append(tonp(mee.put_refractive_index_in_ucell(op[1], op[2], op[3])).copy())
    return out


def alone(b, ops):
    """Called in the untouched process."""
    if b == 2:
        import torch
        torch.set_num_threads(1)
    return play(b, ops)


# ------------------------------------------------------------------------------------------------ schedule
class Schedule:
    """Line events inside the package while threads run: records who ran, and sometimes gives the processor away."""

    def __init__(self, seed):
        import os
        self.root = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + '/meent/'
        self.rand = random.Random(seed)
        self.trace, self.last, self.switches = [], None, 0
        self.tool = next(t for t in (5, 1, 0) if sys.monitoring.get_tool(t) is None)
        self.codes = set()

    def start(self, code, off):
        if code.co_filename.startswith(self.root):
            if code not in self.codes:
                self.codes.add(code)
                sys.monitoring.set_local_events(self.tool, code, sys.monitoring.events.LINE)
        return None if code.co_filename.startswith(self.root) else sys.monitoring.DISABLE

    def line(self, code, line):
        me = threading.get_ident()
        if me != self.last:
            self.switches += self.last is not None
            self.last = me
            if len(self.trace) < 4000:
                self.trace.append((code.co_name, line))
        if self.rand.random() < .15:
            time.sleep(0 if self.rand.random() < .8 else 1e-4)

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.tool, 'schedule')
        m.register_callback(self.tool, m.events.PY_START, self.start)
        m.register_callback(self.tool, m.events.LINE, self.line)
        m.restart_events()
        m.set_events(self.tool, m.events.PY_START)
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(2e-5)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        sys.setswitchinterval(self.interval)
        m.set_events(self.tool, 0)
        for c in self.codes:
            m.set_local_events(self.tool, c, 0)
        m.free_tool_id(self.tool)


def run_job(job, mon):
    b = job['b']
    rng = rng_of('C25', job['kind'], job['seed'], b, job['i'])
    if job['kind'] == 'mixed' or b != 1:
        pristine.start()
    n = int(rng.integers(2, 7)) if b != 1 else 2
    bs = [b] * n if job['kind'] != 'mixed' else [int(rng.choice([0, 2])) for _ in range(n)]
    work = [script(rng, k, job.get('ln', 0)) for k in bs]
    same = rng.random() < .3
    if same:                      # all threads do the same work on equal inputs
        work = [work[0]] * n
        bs = [bs[0]] * n
    mon.case(dict(bs=bs, work=work))
    want = [pristine.call('checks.C25', 'alone', k, w) if k != 1 else play(1, w) for k, w in zip(bs, work)]
    got = [None] * n
    gate = threading.Barrier(n)

    def body(i):
        try:
            gate.wait()
            with np.errstate(all='ignore'):
                got[i] = play(bs[i], work[i])
        except BaseException as e:
            got[i] = e

    threads = [threading.Thread(target=body, args=(i,)) for i in range(n)]
    with Schedule(int(rng.integers(1 << 30))) as sch:
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    for i, k in enumerate(bs):
        name = 'mixed alone' if job['kind'] == 'mixed' else f'{NAMES[k]} alone'
        ctx = dict(thread=i, of=n, backend=NAMES[k], script=work[i], switches=sch.switches)
        if isinstance(got[i], BaseException):
            mon.fail(name, f'{type(got[i]).__name__}: {got[i]}', **ctx)
            continue
        w = want[i]
        if not mon.true(name, len(got[i]) == len(w), 'number of results', **ctx):
            continue
        for g, v in zip(got[i], w):
            mon.near(name, g, v, 1e-9 * (1 + np.abs(v).max()), **ctx)
    mon.true('switches inside the package', True)
    mon.stats['switches inside the package'][0] += sch.switches
    mon.true('distinct schedules', True)
    mon.event('schedules', hash(tuple(sch.trace)))
