#!/usr/bin/env python3
"""setup_cmd: the tools are there, the specifications parse, clox builds"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import core, loxrun
for f in sorted(os.listdir(loxrun.SPEC)):
    if f.endswith('.tla'):
        r = subprocess.run(['java', '-cp', loxrun.JARS, 'tla2sany.SANY', f], cwd=loxrun.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode('latin1')
        if r.returncode or '*** Errors' in o or 'Fatal' in o:
            sys.exit('%s does not parse:\n%s' % (f, o[-2000:]))
core.build()
print('ok')
