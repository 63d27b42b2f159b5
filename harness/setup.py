#!/usr/bin/env python3
"""Compile the operator overrides and show that every specification parses."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check                # noqa: E402

cp = ':'.join([check.classes(), check.TLA + '/tla2tools.jar', check.TLA + '/CommunityModules-deps.jar'])
for f in sorted(os.listdir(check.SPEC)):
    if f.endswith('.tla'):
        r = subprocess.run(['java', '-cp', cp, 'tla2sany.SANY', f], cwd=check.SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.exit(f + ': ' + r.stdout[-2000:])
print('specifications parse, overrides compiled')
