"""Checks that the tools the checks need are there (nothing has to be built)."""
import shutil, subprocess, sys
vt = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
subprocess.check_call([vt, '-c', 'import z3, numpy'])
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import numpy, scipy'])
print('z3:', vt, 'cvc5:', shutil.which('cvc5'))
