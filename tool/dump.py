#!/usr/bin/env python3
"""Print the event summary of functions (development aid): tool/dump.py [-p 'prim expr over q,f'] [-g groups] qname..."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from an.chk import *
from an.spec import *
from checks.common import LOG
import an.chk as chk
NL = [0]


def out(*x):
    NL[0] += 1
    if NL[0] <= int(os.environ.get('L', 25)):
        print(' '.join(str(y) for y in x)[:int(os.environ.get('W', 100)) + 140])


a = sys.argv[1:]
prim = LOG
groups = ('lib',)
mpi = False
while a and a[0].startswith('-'):
    if a[0] == '-p':
        prim = eval('lambda q, f: ' + a[1])
    if a[0] == '-g':
        groups = tuple(a[1].split(','))
    if a[0] == '-m':
        mpi = True
        a = a[1:]
        continue
    a = a[2:]
ctx = chk.Ctx('X', 'quick')
for q in a:
    for f in [f for f in ctx.db(groups).fns if f.get('body') and (f['fn'] == q or f['fn'].endswith('::' + q))]:
        e = ctx.summary(f, prim=prim, groups=groups, mpi_ok=mpi)
        out('==', f['fn'], f.get('pt'), f.get('ta'))
        for x in e.events:
            if x.kind == 'std' or x.kind == 'call' and ('MPI_error_to' in x.name or x.name.endswith('Logger::record')):
                continue
            out('  ', showev(x)[:int(os.environ.get('W', 100))], '| pc', show(pcv(x))[:100], '| loops', [(l.id, show(l.trip) if l.trip else "") for l in x.loops])
        out('   ret', show(e.ret)[:300] if e.ret else None)
