#!/usr/bin/env python3
"""Nothing is built ahead of time; this only verifies that the tools the checks need are present."""
import os
import subprocess
import sys

VT = '/opt/veriftools/pyvenv/bin/python'
r = subprocess.run([VT, '-c', 'import z3; print("z3", z3.get_version_string())'])
if r.returncode:
    sys.exit('z3-solver is missing from ' + VT)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ok')
