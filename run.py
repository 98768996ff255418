import os
import sys

ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
       'OPENBLAS_NUM_THREADS': '1', 'PYTHONHASHSEED': '0'}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core
sys.exit(core.main(sys.argv))
