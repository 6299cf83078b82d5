#!/usr/bin/env python3
"""setup_cmd: nothing to build; checks that the tools the checks need are there"""
import subprocess, sys
import z3, numpy
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
print(subprocess.run(['cvc5', '--version'], capture_output=True, text=True).stdout.splitlines()[:1])
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, scipy, numba, traits; print("venv", numpy.__version__)'], capture_output=True, text=True)
print(r.stdout, r.stderr[-300:])
sys.exit(r.returncode)
