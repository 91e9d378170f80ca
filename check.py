#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's current tree."""
import os, sys
VENV = '/opt/venv/bin/python'
if os.path.realpath(sys.executable) != os.path.realpath(VENV) and not os.environ.get('VC_REEXEC') or sys.prefix != '/opt/venv':
    if not os.environ.get('VC_REEXEC'):
        env = dict(os.environ, VC_REEXEC='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONUTF8='1')
        env.setdefault('MPLCONFIGDIR', '/tmp/vc-mpl')
        os.execve(VENV, [VENV] + sys.argv, env)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import argparse
ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
a = ap.parse_args()
from vc import runner
sys.stdout.flush()
rc = runner.main(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1))
sys.stdout.flush()
os._exit(rc)
