#!/usr/bin/env python3
"""Developer tool: small source edits on scratch copies, each with the verdict a check must give.
usage: mut.py [substring ...]   entries come from dev/mutants.txt-like python in dev/mutants.py"""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []
def m(name, props, edits, bad=True):
    """edits: [(file, old, new), ...]; bad: the check must alarm."""
    M.append((name, props, edits, bad))
exec(open(os.path.join(V, 'dev', 'mutants.py')).read())
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
def run(e):
    name, props, edits, bad = e
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        for x in ('pkg', 'cmd', 'go.mod', 'go.sum'):
            s = os.path.join('/repo', x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
        for f, old, new in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if old not in t:
                return name, 'NOANCHOR ' + old[:50]
            open(p, 'w').write(t.replace(old, new, 1))
        b = subprocess.run(['go', 'build', './pkg/...'], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode:
            return name, 'NOBUILD ' + b.stderr[:300]
        out = []
        r = subprocess.run([V + '/bin/vx', '-repo', d, '-property', props, '-out', d, '-known', V], env=env, capture_output=True, text=True)
        hit = [l.split('=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        inst = [l.strip() for l in r.stdout.splitlines() if l.startswith('  instance')]
        ok = bool(hit) == bad and (bad or not any('undecided' in i or 'lost-anchor' in i or 'internal' in i for i in inst))
        return name, ('ok   ' if ok else 'WRONG ') + ' '.join(hit) + ' ' + '; '.join(inst)[:240]
    finally:
        shutil.rmtree(d)
full = '--all' in sys.argv  # the harmless edits, under every check
if full:
    sys.argv.remove('--all')
    seen, N = set(), []
    for n, p, e, bad in M:
        if not bad and repr(e) not in seen:
            seen.add(repr(e))
            N.append((n.split(' [')[0], 'all', e, bad))
    M = N
sel = [e for e in M if not sys.argv[1:] or any(a in e[0] or a in e[1].split(',') for a in sys.argv[1:])]
with cf.ThreadPoolExecutor(4 if full else 6) as ex:
    for n, t in ex.map(run, sel):
        print(n, t)
