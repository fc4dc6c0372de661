#!/usr/bin/env python3
"""Developer tool: newseed.py <spec.py>: builds /verif/seeded/<id>/ from edits on a scratch copy of /repo's HEAD.
spec.py calls seed(id, prop, pkgdir, needs, breaks, [(file, old, new)...], demo_go)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$D/demo_test.go" > "$T/o.json"
go test -overlay "$T/o.json" -vet=off -run '^TestDemo' -count=1 -timeout 120s ./%s
'''
made = []
def seed(id, prop, pkg, needs, breaks, edits, demo):
    w = tempfile.mkdtemp(prefix='ns', dir='/tmp')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], capture_output=True)
        subprocess.run(['cp', '-a', '/repo', w + '/r'], check=True)
        for f, old, new in edits:
            p = os.path.join(w, 'r', f)
            t = open(p).read()
            assert t.count(old) >= 1, (id, 'no anchor', old)
            assert t.count(old) == 1, (id, 'ambiguous', old)
            open(p, 'w').write(t.replace(old, new))
        subprocess.run(['/opt/veriftools/go1.27.3/bin/gofmt', '-l'] + [os.path.join(w, 'r', e[0]) for e in edits])
        d = os.path.join(V, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo_test.go', 'w').write(demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write(SH % (pkg, pkg))
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        made.append(id)
    finally:
        shutil.rmtree(w)
exec(open(sys.argv[1]).read())
subprocess.run(['bash', V + '/dev/seed.sh'] + made)
