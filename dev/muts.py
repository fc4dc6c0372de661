#!/usr/bin/env python3
"""Developer tool: every single-place mutant of the repository's sources; prints those no check reports.
usage: muts.py FILE-SUBSTR [STEP]   (uses /tmp/refac, built from dev/refac)"""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
cont = 'C11 C39 C44 C45 C46'.split(); cmd = 'C04 C05 C06 C07'.split()
def props(f):
    if '/container/' in f: return cont + 'C42 C03 C13 C10'.split()
    if '/command/' in f: return cmd + 'C01 C02 C12 C41 C42 C20 C21 C38'.split()
    return [i for i in ids if i not in cont and i not in cmd] + (['C04', 'C07'] if '/db/' in f else [])
def copy():
    d = tempfile.mkdtemp(prefix='muts', dir='/tmp')
    for x in ('pkg', 'cmd', 'go.mod', 'go.sum'):
        s = os.path.join('/repo', x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
    return d
def run(site):
    n, loc = site.split(' ', 1)
    f = loc.split(':')[0]
    d = copy()
    try:
        r = subprocess.run(['/tmp/refac', '-out', d, '-op', 'mut', '-lo', n, '-hi', str(int(n) + 1)], env=env, capture_output=True, text=True)
        if r.returncode: return 'refac', site, r.stderr[:100]
        b = subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode: return 'nobuild', site, ''
        r = subprocess.run([os.environ.get('VX', V + '/bin/vx'), '-repo', d, '-property', ','.join(props(f)), '-out', d + '/o', '-known', V], env=env, capture_output=True, text=True)
        hit = [l.split('=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        if hit: return 'caught', site, ' '.join(hit)
        for i in range(0 if os.environ.get('NOTEST') else 2):
            try: t = subprocess.run(['go', 'test', '-vet=off', '-p', '1', '-timeout', '2m', './...'], cwd=d, env=env, capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired: return 'tests', site, 'timeout'
            if not t.returncode: return 'MISSED', site, ''
        return ('MISSED' if os.environ.get('NOTEST') else 'tests'), site, ''
    finally:
        shutil.rmtree(d)
d = copy()
sites = [l for l in subprocess.run(['/tmp/refac', '-out', d, '-op', 'mut', '-dry'], env=env, capture_output=True, text=True).stdout.splitlines()]
shutil.rmtree(d)
step = int(sys.argv[2]) if len(sys.argv) > 2 else 1
sites = [s for s in sites if any(a in s for a in sys.argv[1].split(','))][::step]
cnt = {}
with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for k, s, t in ex.map(run, sites):
        cnt[k] = cnt.get(k, 0) + 1
        if k in ('MISSED', 'refac'): print(k, s, t, flush=True)
print(cnt)
