#!/usr/bin/env python3
"""Self-test of the checks: applies each recorded edit of the corpus to a scratch copy of the sources and runs the check on
it.  'bug' edits must be reported, 'same' edits (behaviour-preserving) must stay quiet.
usage: corpus.py [-j N] [P10 ...]      corpus files: tool/corpus/*.py, each a list of (name, check, kind, file, old, new[, old, new..])"""
import os, sys, json, glob, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = 3
av = sys.argv[1:]
if av[:1] == ['-j']:
    J = int(av[1])
    av = av[2:]
E = []
for p in sorted(glob.glob(os.path.join(V, 'tool', 'corpus', '*.py'))):
    t = open(p).read()
    if 'CASES = [' in t:
        g = {}
        exec(t, g)
        E += g['CASES']
    else:
        E += eval(t)


def one(x):
    name, pid, kind, file, ed = x[0], x[1], x[2], x[3], x[4:]
    d = tempfile.mkdtemp(prefix='corpus')
    try:
        r = os.path.join(d, 'repo')
        os.mkdir(r)
        for s in ('include', 'src', 'util', 'examples', 'test', 'CMakeLists.txt'):
            subprocess.run(['cp', '-a', '/repo/' + s, r + '/'], check=False)
        p = os.path.join(r, file)
        t = open(p).read()
        i = 0
        while i < len(ed):
            if t.count(ed[i]) < 1:
                return name, pid, kind, 'STALE', ed[i][:60]
            t = t.replace(ed[i], ed[i + 1], 1)
            i += 2
        open(p, 'w').write(t)
        if pid == 'ALL':
            if file.endswith('.cc'):
                o = subprocess.run('g++ -std=gnu++14 -w -fsyntax-only -include cassert -include cmath -include cstddef -include cstring -include limits -I%s/include -I%s/src -I%s/util -I/usr/lib/x86_64-linux-gnu/openmpi/include %s' % (r, r, r, p), shell=True, capture_output=True, text=True)
                if o.returncode:
                    return name, pid, kind, 'NOCOMPILE', o.stderr.splitlines()[-3:]
            o = subprocess.run(['python3', V + '/tool/all.py'], env=dict(os.environ, EXS_REPO=r, EXS_EVID=d), capture_output=True, text=True, timeout=3000)
            bad = [l[:220] for l in o.stdout.splitlines() if l.split()[1:2] != ['0']] or ([] if o.returncode == 0 else o.stderr.splitlines()[-2:])
            return name, pid, kind, 'ok' if not bad else 'WRONG', '\n      '.join(bad)
        o = subprocess.run(['python3', V + '/check.py', pid], env=dict(os.environ, EXS_REPO=r, EXS_EVID=d), capture_output=True, text=True, timeout=1500)
        want = 1 if kind == 'bug' else 0
        msg = [l for l in o.stdout.splitlines() if l.startswith('  ') or 'BROKEN' in l]
        return name, pid, kind, 'ok' if o.returncode == want else 'WRONG rc=%d' % o.returncode, (msg or o.stderr.splitlines()[-1:] or [''])[0][:230]
    finally:
        shutil.rmtree(d)


sel = [x for x in E if not av or x[1] in av or x[0] in av or any(a[-1] == '*' and x[0].startswith(a[:-1]) for a in av)]
bad = 0
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, sel):
        bad += r[3] != 'ok'
        print('%-28s %s %-4s %-10s %s' % r, flush=True)
print(len(sel), 'edits,', bad, 'wrong')
