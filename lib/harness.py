"""Runs the workload of one property under its monitors and writes the verdict and the evidence.

A check module checks/<ID>.py provides
    RULE, ASSUMPTIONS            text for the evidence file
    plan(tier, seed)             -> list of jobs (plain dicts; 'lane' keeps jobs together on one worker)
    run_job(job, mon)            -> drives the package and reports observations to the monitor

Verdicts are three-valued: a violated observation (exit 1), everything observed held (exit 0), or
inconclusive (nothing or too little observed, a worker died: exit 2).
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import sys
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORTED = 6


def encode(x, limit=60):
    """JSON-able, shortened picture of a value for evidence and replay files."""
    if isinstance(x, dict):
        return {str(k): encode(v, limit) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [encode(v, limit) for v in x[:limit]]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return f'{x.real:.12g}{x.imag:+.12g}j'
    if isinstance(x, np.ndarray):
        if x.size <= limit:
            return encode(x.tolist(), limit)
        return {'shape': list(x.shape), 'head': encode(x.ravel()[:8].tolist())}
    return repr(x)[:300]


class Monitor:
    """Collects what was observed while one job ran."""

    def __init__(self, job):
        self.job = job
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.stats = {}          # check name -> [observations, worst error / tolerance]
        self.violations = []
        self.skips = {}
        self.events = {}

    # -- cases
    def case(self, desc, nontrivial=True):
        self.evals += 1
        if nontrivial:
            txt = json.dumps(encode(desc, 10 ** 6), sort_keys=True)
            self.keys.add(hashlib.sha1(txt.encode()).hexdigest()[:16])
            if len(self.samples) < 1:
                self.samples.append(encode(desc))

    def skip(self, reason):
        self.skips[reason] = self.skips.get(reason, 0) + 1

    def event(self, name, key):
        """Distinct events (schedules, states) go into the evidence."""
        self.events.setdefault(name, set()).add(key)

    # -- observations
    def _seen(self, name, ratio):
        s = self.stats.setdefault(name, [0, 0.0])
        s[0] += 1
        s[1] = max(s[1], ratio)

    def fail(self, name, detail, **ctx):
        if len(self.violations) < 20:
            self.violations.append(dict(check=name, detail=str(detail)[:2000], context=encode(ctx)))

    def true(self, name, ok, detail='', **ctx):
        ok = bool(ok)
        self._seen(name, 0.0 if ok else 2.0)
        if not ok:
            self.fail(name, detail or 'condition is false', **ctx)
        return ok

    def near(self, name, got, want, tol, **ctx):
        """|got - want| <= tol elementwise (tol scalar or array); NaN and shape mismatch are violations."""
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self._seen(name, 2.0)
            self.fail(name, f'shape {got.shape} != {want.shape}', **ctx)
            return False
        err = np.abs(got - want)
        bad = ~(err <= tol)
        if got.size == 0:
            self._seen(name, 0.0)
            return True
        with np.errstate(all='ignore'):
            ratio = float(np.max(np.where(np.isfinite(err), err / np.maximum(tol, 1e-300), 1e99)))
        self._seen(name, ratio)
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(np.isfinite(err), err, np.inf) if err.ndim else err)), err.shape)
            self.fail(name, f'at {tuple(int(v) for v in i)}: got {got[i]!r} want {want[i]!r} (|diff| {err[i]:.3g}, tol '
                            f'{np.broadcast_to(tol, err.shape)[i]:.3g}); {int(bad.sum())} of {bad.size} differ',
                      got=got, want=want, **ctx)
            return False
        return True

    def dump(self):
        return dict(job=self.job, evals=self.evals, keys=self.keys, samples=self.samples, stats=self.stats,
                    violations=self.violations, skips=self.skips, events=self.events)


def run_one(mod, job):
    mon = Monitor(job)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            try:
                mod.run_job(job, mon)
            except MemoryError:
                raise
            except Exception as e:      # the workload only makes valid calls: an exception is an observation too
                tb = traceback.format_exc()
                if 'refrcwa.py' in tb and isinstance(e, np.linalg.LinAlgError):
                    mon.skip('reference singular')
                    return mon.dump()
                mon._seen('no exception', 2.0)
                mon.fail('no exception', f'{type(e).__name__}: {e}\n' + tb[-1500:])
    return mon.dump()


class Lines:
    """Records which source lines of the package this process executed (one event per line, then switched off)."""

    def __init__(self):
        self.seen = set()
        self.root = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + '/meent/'
        mon = sys.monitoring
        self.tool = next((t for t in (3, 4, 2) if mon.get_tool(t) is None), None)
        if self.tool is None:
            return
        mon.use_tool_id(self.tool, 'verif')
        mon.register_callback(self.tool, mon.events.PY_START, self.start)
        mon.register_callback(self.tool, mon.events.LINE, self.line)
        mon.set_events(self.tool, mon.events.PY_START)

    def start(self, code, offset):
        if code.co_filename.startswith(self.root):
            sys.monitoring.set_local_events(self.tool, code, sys.monitoring.events.LINE)
        return sys.monitoring.DISABLE

    def line(self, code, line):
        self.seen.add((code.co_filename[len(self.root):], line))
        return sys.monitoring.DISABLE


def code_lines(path):
    """Lines inside functions of a source file that carry code."""
    out, todo = set(), []
    try:
        top = compile(open(path).read(), path, 'exec')
    except (OSError, SyntaxError):
        return out
    todo = [c for c in top.co_consts if hasattr(c, 'co_code')]
    while todo:
        c = todo.pop()
        inner = [k for k in c.co_consts if hasattr(k, 'co_code')]
        if c.co_flags & 2:       # a function, not a class body
            out |= {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
        todo += inner
    return out


def worker(modname, units, counter, results, deadline):
    try:
        lines = Lines()
        sys.stdout = open(os.devnull, 'w')     # the package prints; keep the verdict channel clean
        mod = importlib.import_module(modname)
        try:
            import torch
            torch.set_num_threads(1)
        except Exception:
            pass
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(units):
                break
            for job in units[i]:
                if time.time() > deadline:
                    results.put(('late', job))
                    continue
                t = time.time()
                results.put(('start', (os.getpid(), job)))
                out = run_one(mod, job)
                out['pid'] = os.getpid()
                out['t'] = time.time() - t
                results.put(('done', out))
        results.put(('end', (os.getpid(), lines.seen)))
        results.close()
        results.join_thread()
    except BaseException:
        results.put(('broken', traceback.format_exc()))
        raise


def cpu_seconds(pid):
    try:
        f = open(f'/proc/{pid}/stat').read().rsplit(')', 1)[1].split()
        if f[0] in 'ZX':           # died: its jobs are run again
            return None
        return sum(int(v) for v in f[11:15]) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError, IndexError):
        return None


class Hangs:
    """A job whose process neither finishes nor computes anything any more has hung (deadlock)."""
    IDLE = 100.0

    def __init__(self):
        self.running, self.seen = {}, {}

    def start(self, pid, job):
        self.running[pid] = job
        self.seen[pid] = (time.time(), cpu_seconds(pid) or 0.0)

    def stop(self, pid):
        self.running.pop(pid, None)

    def poll(self):
        out = []
        for pid, job in list(self.running.items()):
            c = cpu_seconds(pid)
            if c is None:
                continue
            t, last = self.seen[pid]
            if c - last > 0.5:
                self.seen[pid] = (time.time(), c)
            elif time.time() - t > self.IDLE:
                out.append((pid, job))
                self.stop(pid)
        return out


def units_of(jobs):
    lanes, loose = {}, []
    for j in jobs:
        if j.get('lane') is not None:
            lanes.setdefault(j['lane'], []).append(j)
        else:
            loose.append(j)
    units = list(lanes.values())
    n = max(1, min(8, len(loose) // 32))
    units += [loose[i:i + n] for i in range(0, len(loose), n)]
    return units


def load_findings():
    """known_findings.txt: 'known: property=<id> check=<name> key=<job key> <what>' lines suppress exactly that job+check."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known:'):
                f = dict(p.split('=', 1) for p in line[6:].split() if '=' in p)
                out.append((f.get('property'), f.get('check'), f.get('key'), line[6:].strip()))
    return out


def pool(modname, jobs, a, deadline):
    """Runs the jobs in worker processes; returns what came back."""
    ctx = mp.get_context('fork')
    results, counter = ctx.Queue(), ctx.Value('i', 0)
    units = units_of(jobs)
    n = max(1, min(a.jobs, len(units)))
    procs = [ctx.Process(target=worker, args=(modname, units, counter, results, deadline), daemon=True) for _ in range(n)]
    for p in procs:
        p.start()
    done, late, broken, ended, executed = [], [], [], 0, set()
    hangs = Hangs()
    while ended < n:
        try:
            kind, val = results.get(timeout=5)
        except queue.Empty:
            for pid, job in hangs.poll():
                mon = Monitor(job)
                mon._seen('no hang', 2.0)
                mon.fail('no hang', f'the job neither finished nor computed anything for {Hangs.IDLE:.0f} s')
                done.append(mon.dump())
                ended += 1
                os.kill(pid, 9)
            if all(not p.is_alive() for p in procs):
                try:
                    kind, val = results.get(timeout=1)
                except queue.Empty:
                    break
            else:
                if time.time() > deadline + 240:
                    broken.append('timeout')
                    break
                continue
        if kind == 'start':
            hangs.start(*val)
        elif kind == 'done':
            hangs.stop(val['pid'])
            done.append(val)
            if a.first and val['violations'] and not any(f[0] == a.prop and f[2] == job_key(val['job']) for f in load_findings()):
                print('first violation:', val['violations'][0]['check'])
                for p in procs:
                    p.kill()
                return done, late, broken, executed, True
        elif kind == 'late':
            late.append(val)
        elif kind == 'end':
            ended += 1
            executed |= val[1]
        else:
            broken.append(val)
            ended += 1
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.terminate()
    return done, late, broken, executed, False


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--backend', type=int, help='development: only jobs of this backend')
    ap.add_argument('--first', action='store_true', help='development: stop at the first violation')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1))))
    a = ap.parse_args(argv)
    t0 = time.time()
    modname = f'checks.{a.prop}'
    mod = importlib.import_module(modname)

    if a.replay:
        rec = json.load(open(a.replay))
        out = run_one(mod, rec['job'])
        for v in out['violations']:
            print(f"  {v['check']}: {v['detail']}")
        if out['violations']:
            print(f'VIOLATION property={a.prop} replay={a.replay}')
            return 1
        print('replay: no violation')
        return 0

    jobs = mod.plan(a.tier, a.seed)
    if a.only:
        jobs = [j for j in jobs if j.get('kind') == a.only]
    if a.backend is not None:
        jobs = [j for j in jobs if j.get('b', a.backend) == a.backend]
        if not jobs:
            return 0
    limit = getattr(mod, 'LIMIT', {}).get(a.tier, 420 if a.tier == 'quick' else 3000)
    done, late, broken, executed, first = pool(modname, jobs, a, t0 + limit)
    if first:
        return 1
    have = {job_key(d['job']) for d in done} | {job_key(j) for j in late}
    again = [j for j in jobs if job_key(j) not in have]
    if again and time.time() < t0 + limit:       # a worker process died: once more, in new processes
        more = pool(modname, again, a, t0 + limit)
        done, late, broken, executed = done + more[0], late + more[1], more[2], executed | more[3]
    late = len(late)
    lost = len(jobs) - len(done) - late

    stats, skips, keys, samples, evals = {}, {}, set(), [], 0
    viol, events = [], {}
    for d in sorted(done, key=lambda d: json.dumps(d['job'], sort_keys=True)):
        evals += d['evals']
        keys |= d['keys']
        for k, (c, r) in d['stats'].items():
            s = stats.setdefault(k, [0, 0.0])
            s[0] += c
            s[1] = max(s[1], r)
        for k, c in d['skips'].items():
            skips[k] = skips.get(k, 0) + c
        if len(samples) < 4 and d['samples']:
            samples.append(dict(job=d['job'], case=d['samples'][0]))
        for k, c in d['events'].items():
            events.setdefault(k, set()).update(c)
        viol += [(d['job'], v) for v in d['violations']]

    findings = [f for f in load_findings() if f[0] == a.prop]
    fresh, known = [], {}
    for job, v in viol:
        key = job_key(job)
        hit = [f for f in findings if f[1] == v['check'].replace(' ', '_') and f[2] == key]
        if hit:
            known[hit[0][3]] = True
        else:
            fresh.append((job, v))
    for k in known:
        print(f'KNOWN-FINDING: {k}')

    by_check = {}
    for job, v in fresh:
        by_check.setdefault(v['check'], []).append((job, v))
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    shown = 0
    for name, items in by_check.items():
        job, v = items[0]
        path = os.path.join(HERE, 'replay', f'{a.prop}-{job_key(job)}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=a.prop, job=job, violation=v, tier=a.tier, seed=a.seed), f, indent=1)
        if shown < MAX_REPORTED:
            print(f"  [{name}] x{len(items)}: {v['detail'][:600]}")
            print(f'VIOLATION property={a.prop} replay={path}')
        shown += 1

    need = getattr(mod, 'EXPECT', [])
    if not a.only and a.backend is None:
        missing = [c for c in need if not any(k == c or k.startswith(c) for k in stats)]
    else:
        missing = []
    ev = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed,
              level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=samples or ['none'], jobs_planned=len(jobs), jobs_run=len(done), jobs_past_deadline=late,
                            observations={k: dict(count=c, worst_error_over_tolerance=float(f'{min(r, 1e99):.3g}'))
                                          for k, (c, r) in sorted(stats.items())},
                            inconclusive=skips, distinct_events={k: len(v) for k, v in events.items()}, package_lines_executed=lines_report(executed)),
              assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{a.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if os.environ.get('VERIF_LINES'):
        with open(os.environ['VERIF_LINES'], 'w') as f:
            json.dump(sorted(executed), f)
    print(f'{a.prop} {a.tier}: {evals} evaluations, {len(keys)} distinct, {sum(c for c, _ in stats.values())} observations, '
          f'{len(fresh)} violations, {len(done)}/{len(jobs)} jobs, {ev["wall_s"]} s')
    if fresh:
        return 1
    if broken or lost > 0 or missing or not keys:
        for b in broken:
            print(b)
        print(f'INCONCLUSIVE property={a.prop}: lost={lost} missing={missing}')
        return 2
    return 0


def job_key(job):
    return hashlib.sha1(json.dumps(job, sort_keys=True).encode()).hexdigest()[:12]


def lines_report(executed):
    """file -> 'executed/total' lines inside functions, of the files this check reached."""
    root = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + '/meent/'
    out = {}
    for name in sorted({f for f, _ in executed}):
        have = {l for f, l in executed if f == name}
        total = code_lines(root + name)
        if total & have:
            out[name] = f'{len(total & have)}/{len(total)}'
    return out
