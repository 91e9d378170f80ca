#!/usr/bin/env python3
"""nothing to build: shows that the interpreter, z3, sympy and mpmath the checks use are present"""
import subprocess, sys
sys.exit(subprocess.call(['/opt/venv/bin/python', '-c', "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import numpy, scipy, pandas, z3, sympy, mpmath; print('ok', z3.get_version_string())"]))
