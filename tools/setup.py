#!/usr/bin/python3
'''Nothing is compiled: checks that the tools are there and the specification parses.'''
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in ('/opt/venv/bin/python', '/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'):
    if not os.path.exists(f):
        sys.exit('missing: ' + f)
T = '/opt/veriftools/tla'
p = subprocess.run(['java', '-cp', '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (T, T), 'tla2sany.SANY', 'Trace.tla'],
                   cwd=os.path.join(ROOT, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode:
    sys.exit(p.stdout)
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
print('ready')
