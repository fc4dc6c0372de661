#!/usr/bin/env python3
"""Developer tool: applies each seed to a scratch copy, runs every check, and writes dev/seeds.md."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
def run(s):
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        for x in ('pkg', 'cmd', 'go.mod', 'go.sum'):
            q = os.path.join('/repo', x)
            (shutil.copytree if os.path.isdir(q) else shutil.copy)(q, os.path.join(d, x))
        subprocess.run(['git', 'init', '-q'], cwd=d)
        a = subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, s)], cwd=d, capture_output=True, text=True)
        if a.returncode: return s, ['DOES NOT APPLY']
        r = subprocess.run([V + '/bin/vx', '-repo', d, '-property', 'all', '-out', d + '/o', '-known', V], env=env, capture_output=True, text=True)
        return s, [l.split('=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    finally:
        shutil.rmtree(d)
ids = sorted(os.listdir(V + '/seeded'))
with cf.ThreadPoolExecutor(4) as ex: got = dict(ex.map(run, ids))
with open(V + '/dev/seeds.md', 'w') as f:
    f.write('| seed | property | caught by | also reported by | what it breaks |\n|---|---|---|---|---|\n')
    for s in ids:
        m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
        p = m['property']; h = got[s]
        f.write('| %s | %s | %s | %s | %s |\n' % (s, p, p if p in h else '**missed**', ' '.join(x for x in h if x != p), m['what_it_breaks'].replace('|', '/')))
print([s for s in ids if json.load(open('%s/seeded/%s/meta.json' % (V, s)))['property'] not in got[s]])
