"""Nothing is built ahead of time: every check reads /repo's current source.
This only checks that the tools the checks need are there."""
import shutil
import subprocess
import sys
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('cvc5', 'z3-new'):
    if shutil.which(t) is None:
        sys.exit(f'{t} not found')
r = subprocess.run([os.path.join(here, 'pydv', 'py.sh'), os.path.join(here, 'tools', 'probe.py')])
sys.exit(r.returncode)
