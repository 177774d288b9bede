"""Checks that the framework can run here: interpreter, dependencies, package under test."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = 'import numpy, scipy, torch, jax, meent; print(meent.__file__)'
env = dict(os.environ, PYTHONPATH='/repo', PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu')
r = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True)
print(r.stdout, r.stderr)
for d in ('evidence', 'replay'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
sys.exit(0 if r.stdout.strip().endswith('/repo/meent/__init__.py') else 1)
