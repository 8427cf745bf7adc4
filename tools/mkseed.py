#!/usr/bin/env python3
"""mkseed.py FILE...: turns descriptions of planted bugs (python files defining BUG) into /verif/seeded/<id>/ after
confirming in scratch copies that the change compiles, passes the tests and is told apart by its demonstration."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository: exits 0 when the property holds, nonzero when it is broken
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go" "$tmp/main.go"
cat > "$tmp/go.mod" <<EOM
module demo

go 1.18

require github.com/jakecoffman/cp/v2 v2.0.0

replace github.com/jakecoffman/cp/v2 => $repo
EOM
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
cd "$tmp" || exit 3
go build -o demo . || exit 3
timeout 120 ./demo
'''
HEAD = '''package main

import (
	"fmt"
	"os"

	cp "github.com/jakecoffman/cp/v2"
)

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}
'''
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', CGO_ENABLED='0')


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env=ENV, **kw)


def main():
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        for b in g['BUGS']:
            one(b)


def one(b):
    bid = b['id']
    d = os.path.join(V, 'seeded', bid)
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        for file, old, new in b['edits']:
            p = os.path.join(repo, file)
            s = open(p).read()
            assert s.count(old) == 1, (bid, file, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        os.makedirs(d, exist_ok=True)
        diff = sh('git diff', repo).stdout
        assert diff
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        src = b['main']
        if 'package main' not in src:
            src = HEAD + src
        open(os.path.join(d, 'main.go'), 'w').write(src)
        sh(['gofmt', '-w', os.path.join(d, 'main.go')], d)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = sh('go build ./... && go vet . ; go test ./... 2>&1 | tail -30', repo)
        t = sh("go test . -run 'Test' -count=1", repo)
        base = sh("go test . -run 'Test' -count=1", '/repo')
        ok = [l for l in t.stdout.split('\n') if l.startswith('--- FAIL')] == [l for l in base.stdout.split('\n') if l.startswith('--- FAIL')] and 'panic' not in t.stdout
        d0 = sh(['bash', os.path.join(d, 'demo.sh')], '/repo')
        d1 = sh(['bash', os.path.join(d, 'demo.sh')], repo)
        print(bid, 'tests', 'same' if ok else 'DIFFER ' + t.stdout[-600:], '| demo clean', d0.returncode, d0.stdout[-200:].strip(), d0.stderr[-300:], '| demo bug', d1.returncode,
              (d1.stdout + d1.stderr)[-200:].strip().replace('\n', ' / '))
        if not (ok and d0.returncode == 0 and d1.returncode == 1 or d1.returncode == 2):
            print('   NOT KEPT?')
    finally:
        shutil.rmtree(tmp)


main()
