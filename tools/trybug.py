#!/usr/bin/env python3
"""trybug.py ID [PROPERTY...]: runs the checks against a scratch copy of /repo with a planted bug applied."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid = sys.argv[1]
d = os.path.join(V, 'seeded', bid)
props = sys.argv[2:] or [json.load(open(os.path.join(d, 'meta.json')))['property']]
tmp = tempfile.mkdtemp(prefix='try-')
try:
    repo = os.path.join(tmp, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
    subprocess.check_call(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')])
    for p in props:
        env = dict(os.environ, VERIF_REPO_DIR=repo)
        r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), p], env=env, capture_output=True, text=True, cwd=V)
        print(bid, p, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 else 'MISSED')
        print('   ' + '\n   '.join(l[:300] for l in (r.stdout + r.stderr).strip().split('\n')[-4:]))
finally:
    shutil.rmtree(tmp)
