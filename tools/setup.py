#!/usr/bin/env python3
"""nothing to build: verify that the interpreters and solvers the checks use are present"""
import subprocess, sys
for cmd in (['python3-vt', '-c', 'import z3'], ['/opt/venv/bin/python', '-c', 'import pandas']):
    if subprocess.run(cmd).returncode:
        sys.exit('missing: ' + ' '.join(cmd))
