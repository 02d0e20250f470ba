#!/opt/venv/bin/python
"""usage: check.py PROPERTY   (tier and seed from VERIF_TIER / VERIF_SEED)"""
import os
import sys

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONHASHSEED'] = '0'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ['PYTHONPATH'] = HERE + os.pathsep + '/repo' + os.pathsep + os.environ.get('PYTHONPATH', '')
sys.path.insert(1, '/repo')

if __name__ == '__main__':
    from sym.harness import run_check
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    try:
        rc = run_check(prop, 'checks.' + prop.lower())
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('ERROR', e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
