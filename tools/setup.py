#!/usr/bin/env python3
"""Nothing to build ahead of time (the checks compile against /repo's current
headers); makes sure the tools are there and the specifications parse."""
import glob
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
subprocess.run(['g++-13', '--version'], check=True, stdout=subprocess.DEVNULL)
for m in sorted(glob.glob(os.path.join(V, 'spec', '*.tla'))):
    r = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY', m], capture_output=True, text=True, cwd=os.path.join(V, 'spec'))
    if r.returncode or 'error' in r.stdout.lower():
        sys.exit(r.stdout + r.stderr)
print('ok')
