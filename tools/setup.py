"""Setup: nothing to build; checks that the interpreters the checks use are there."""
import os, subprocess, sys
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
for cmd in (['python3-vt', '-c', 'import z3'], ['/opt/venv/bin/python', '-c', 'import PIL, fontTools'], ['cvc5', '--version']):
    if subprocess.run(cmd, stdout=subprocess.DEVNULL).returncode: sys.exit('missing: %s' % cmd)
