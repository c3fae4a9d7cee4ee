#!/usr/bin/env python3
"""nothing to build: checks that the interpreters and solvers used by the checks are present"""
import subprocess, os, sys
for cmd in (['/opt/venv/bin/python', '-c', 'import numpy'], ['/opt/veriftools/pyvenv/bin/python', '-c', 'import z3, cvc5']):
    r = subprocess.run(cmd)
    print(' '.join(cmd), '->', r.returncode)
