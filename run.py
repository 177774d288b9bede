#!/opt/venv/bin/python
"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--only KIND] [--jobs N]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ.update(PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', MPLBACKEND='agg',
                  OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', TQDM_DISABLE='1',
                  TF_CPP_MIN_LOG_LEVEL='3')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, os.path.join(HERE, 'lib'), HERE]

from harness import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
