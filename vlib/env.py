"""Process set-up shared by every engine: real folx from /repo, CPU, x64, quiet logs."""
import os
import sys

REPO = os.environ.get('FOLX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ['JAX_ENABLE_X64'] = '1'
os.environ.setdefault(
    'XLA_FLAGS',
    '--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true '
    '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
)
os.environ.setdefault('OMP_NUM_THREADS', '1')
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.path.append(os.path.join(VERIF, 'vlib', 'stub'))
sys.path.append(VT)


def quiet():
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
