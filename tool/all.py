#!/usr/bin/env python3
"""Run every claimed check (or those named) in one process tree that parses the sources once.  Prints `P.. rc first-message`."""
import os, sys, json, io, contextlib, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from an import chk, db
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
D, memo = db.DB, {}
def cached(groups=('lib',), ndebug=True):
    k = (tuple(groups), ndebug)
    if k not in memo:
        memo[k] = D(groups, ndebug)
    return memo[k]
chk._db.DB = cached
ids = [a for a in sys.argv[1:] if a[0] == 'P'] or [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
ids = [i for i in ids if os.path.exists(V + '/checks/%s.py' % i.lower())]
try:
    for g in (('lib',), ('lib', 'util')):
        cached(g, True)
    cached(('lib',), False)
    cached(('lib', 'util'), False)
except Exception as x:
    print('PARSE', x)
J = int(os.environ.get('ALL_J', '3'))
run, out = {}, {}
def reap():
    pid, st = os.wait()
    i, rd = run.pop(pid)
    s = os.fdopen(rd).read()
    l = [x for x in s.splitlines() if x.startswith('  ') or 'BROKEN' in x or 'Error' in x]
    rc = os.waitstatus_to_exitcode(st)
    out[i] = (rc, l[0][:200] if rc and l else '')
for i in ids:
    while len(run) >= J:
        reap()
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.dup2(wr, 1)
        os.dup2(wr, 2)
        rc = []
        t = threading.Thread(target=lambda: rc.append(chk.run(i, 'quick')))
        t.start()
        t.join()
        sys.stdout.flush()
        os._exit(rc[0] if rc else 2)
    os.close(wr)
    run[pid] = (i, rd)
while run:
    reap()
for i in ids:
    print(i, out[i][0], out[i][1])
sys.exit(1 if any(o[0] for o in out.values()) else 0)
