"""Process environment: import numga from the working tree, z3 from the tool venv."""
import os
import sys

for k, v in dict(JAX_PLATFORMS='cpu', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                 OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
                 XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1').items():
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)     # last, so that only z3 / cvc5 come from there
