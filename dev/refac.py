#!/usr/bin/env python3
"""Developer tool: behaviour-preserving edits of one kind all over a scratch copy; every check must stay quiet.
usage: refac.py OP[:lo-hi] ...   (uses /tmp/refac, built from dev/refac); finds the single edits behind an alarm."""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
def run(op, lo=0, hi=1 << 30, props='all', test=False, fil=''):
    d = tempfile.mkdtemp(prefix='refac', dir='/tmp')
    try:
        for x in ('pkg', 'cmd', 'go.mod', 'go.sum'):
            s = os.path.join('/repo', x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
        r = subprocess.run(['/tmp/refac', '-out', d, '-op', op, '-lo', str(lo), '-hi', str(hi), '-file', fil], env=env, capture_output=True, text=True)
        if r.returncode:
            return [], None, 'REFAC ' + r.stderr[:500]
        sites = r.stdout.splitlines()
        if not sites: return [], {}, ''
        b = subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode:
            return sites, None, 'NOBUILD ' + b.stderr[:1500]
        note = ''
        if test:
            t = subprocess.run(['go', 'test', '-vet=off', './...'], cwd=d, env=env, capture_output=True, text=True)
            if t.returncode: note = 'TESTS FAIL ' + '\n'.join(l for l in t.stdout.splitlines() if 'FAIL' in l)[:500]
        r = subprocess.run([os.environ.get('VX', V + '/bin/vx'), '-repo', d, '-property', props, '-out', d + '/o', '-known', V], env=env, capture_output=True, text=True)
        hit, cur = {}, []
        for l in r.stdout.splitlines() + r.stderr.splitlines():
            if l.startswith('  instance'): cur.append(l.strip())
            elif l.startswith('VIOLATION'):
                hit[l.split('=')[1].split()[0]] = cur; cur = []
            elif 'panic' in l and 'goroutine' not in l: hit.setdefault('PANIC', []).append(l)
        return sites, hit, note
    finally:
        shutil.rmtree(d)
def bisect(op, lo, hi, prop, fil, out):
    sites, hit, note = run(op, lo, hi, prop, fil=fil)
    if hit is None: out.append(f'   ? {lo}-{hi} {note[:200]}'); return
    if not hit: return
    if hi - lo == 1:
        out.append('   %s %s: %s' % (prop, sites[0], ' | '.join(hit.get(prop, list(hit.values())[0]))[:400])); return
    if len(out) > 12: return
    mid = (lo + hi) // 2
    n = len(out)
    bisect(op, lo, mid, prop, fil, out); bisect(op, mid, hi, prop, fil, out)
    if len(out) == n: out.append('   %s only together %d-%d: %s' % (prop, lo, hi, ' | '.join(hit.get(prop, list(hit.values())[0]))[:400]))
def one(a):
    op, _, rng = a.rpartition(':')
    if not (op and rng[0].isdigit()): op, rng = a, ''
    op, _, fil = op.partition('@')
    lo, hi = (map(int, rng.split('-'))) if rng else (0, 1 << 30)
    sites, hit, note = run(op, lo, hi, test=True, fil=fil)
    out = ['== %s %d sites %s' % (a, len(sites), note)]
    if hit:
        out[0] += ' ALARMS ' + ' '.join(hit)
        lo = int(sites[0].split()[0]); hi = int(sites[-1].split()[0]) + 1
        if os.environ.get('QUICK'):
            for p in hit: out.append('   %s: %s' % (p, ' | '.join(hit[p])[:1200]))
            return '\n'.join(out)
        for p in hit:
            sub = []
            bisect(op, lo, hi, p, fil, sub); out += sub or ['   %s not found by bisection: %s' % (p, ' | '.join(hit[p])[:300])]
    return '\n'.join(out)
with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for t in cf.as_completed([ex.submit(one, a) for a in sys.argv[1:]]):
        print(t.result(), flush=True)
