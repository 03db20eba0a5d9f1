#!/usr/bin/env python3
"""Checks that the tools are there and warms the build cache; every check builds again for itself."""
import os, shutil, subprocess, sys, tempfile
from check import HARNESS, go_env
from checks import CHECKS

scratch = tempfile.mkdtemp(prefix='verif-setup-')
try:
    for name in ('go.mod', 'go.sum'):
        shutil.copy(os.path.join(HARNESS, name), scratch)
    seen = set()
    for check in CHECKS.values():
        flags = (['-race'] if check.get('race') else []) + check.get('build_flags', [])
        key = (check['pkg'], tuple(flags))
        if key in seen:
            continue
        seen.add(key)
        cmd = ['go', 'test', '-c', '-vet=off', '-modfile', os.path.join(scratch, 'go.mod'),
               '-o', os.path.join(scratch, 'x.test')] + flags + ['./' + check['pkg']]
        p = subprocess.run(cmd, cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            print(p.stdout.decode('utf-8', 'replace'))
            sys.exit(1)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print('setup done')
