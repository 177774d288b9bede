"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = {
    'C01': 'online conservation monitor over hostile random solves',
    'C02': 'online passivity and power-flow monitor over field maps',
    'C03': 'online reference-model monitor (closed-form thin films)',
    'C04': 'online reference-model monitor (independent S-matrix Maxwell solver)',
    'C05': 'differential monitor across the three backends',
    'C06': 'differential monitor across formulations',
    'C07': 'differential monitor across descriptions plus reference model',
    'C08': 'superposition monitor over recorded companion results',
    'C09': 'metamorphic symmetry monitor over paired runs',
    'C10': 'metamorphic slicing monitor plus reference model',
    'C11': 'paired-run reciprocity monitor',
    'C12': 'pointwise field monitor against an independent Maxwell solution',
    'C13': 'gradient monitor against finite differences of the same run',
    'C14': 'online reference-model monitor (anisotropic Maxwell solver, closed-form films)',
    'C15': 'history monitor: random operation sequences against a fresh-object model, caller data and earlier results checksummed',
    'C16': 'precision monitor: paired single/double runs and recorded types',
    'C17': 'differential monitor over input spellings, refusal monitor over invalid inputs',
    'C18': 'reference-model monitor (independent table reader), recorded warnings',
    'C19': 'reference-model monitor (independent formula evaluation)',
    'C20': 'history monitor against a label-replacement model',
    'C21': 'geometric monitor of recorded pieces plus differential solves',
    'C22': 'trajectory monitor against an explicit gradient-descent model',
    'C23': 'finiteness, conservation and limit monitor at injected extremes',
    'C24': 'differential monitor of transformed against plain solves',
    'C25': 'schedule monitor: per-thread scripts under injected thread switches against the same scripts alone, deadlock watchdog',
    'C26': 'history monitor: copies and pickles, interleaved changes on both sides',
    'C27': 'reference-model monitor (exact lamellar modal solution) over increasing truncation',
    'C28': 'fault injection: failing library calls, results and gradients compared with the fault-free run',
    'C29': 'recorded figures against the field map',
}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', f'{i}.py')):
        checks.append(dict(property=i, quick_cmd=f'{PY} run.py {i} --tier quick', thorough_cmd=f'{PY} run.py {i} --tier thorough',
                           technique='runtime monitoring: ' + TECH[i], level='exploration',
                           level_note='Held on every execution driven (counts, observations and worst error/tolerance in the evidence file); '
                                      'random, seeded workload over the quantified domain, not a proof. Trusts NumPy/SciPy and, where named, '
                                      'the independent model in /verif/lib.'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd=f'{PY} tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks were needed in /repo: every monitor observes public results. All checks import meent from /repo directly '
                     '(pure Python), so they always see the current tree.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
