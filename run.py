#!/opt/venv/bin/python
"""run.py <property> [quick|thorough]   decide a property of /repo's current source
   run.py --replay <file>               run a stored counterexample on the real code"""
import os, sys
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter('ignore')
from symx import runner
sys.exit(runner.main(sys.argv[1:]))
