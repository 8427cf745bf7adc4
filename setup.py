#!/usr/bin/env python3
"""builds the harness once, so that the Go build cache is warm, and checks that the specifications parse"""
import os, shutil, subprocess, sys, tempfile
import vlib
os.makedirs(vlib.BUILD, exist_ok=True)
wd = tempfile.mkdtemp(prefix='setup-', dir=vlib.BUILD)
try:
    vlib.build(wd)
    for f in sorted(os.listdir(vlib.SPEC)):
        if f.endswith('.tla'):
            p = subprocess.run(['java', '-cp', vlib.JARS, 'tla2sany.SANY', f], cwd=vlib.SPEC, capture_output=True, text=True)
            if p.returncode != 0:
                sys.exit('%s does not parse:\n%s' % (f, p.stdout[-2000:] + p.stderr[-2000:]))
finally:
    shutil.rmtree(wd, ignore_errors=True)
print('ok')
