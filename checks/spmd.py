"""Several processes in lockstep: a function is executed abstractly once for each process, again and again, with the collective operations
answered as soon as what every process hands to them is known."""
from checks.common import *

CI = ['exseis::PIOL::' + c + '::' for c in ('CommunicatorInterface', 'CommunicatorMPI')]
COLL = ('gather', 'offset', 'sum', 'max', 'min', 'barrier')


def items(v):
    """the elements handed to a gather"""
    if isc(v):
        return [v]
    if v[0] == 'vec' and isc(v[2]) and v[3] is not None and v[3][0] == 'list' and len(v[3][1]) == v[2][1]:
        return list(v[3][1]) if all(isc(x) or x[0] == 'f' for x in v[3][1]) else None
    if v[0] == 'vec' and v[2] == C(0):
        return []
    return None


def lockstep(ctx, run, R, f, inst, rounds=12):
    """engines of the processes, or None when they do not call the same operations"""
    replies = {}
    for _ in range(rounds):
        es, seqs = [], []
        for r in range(R):
            seq = []

            def model(nm):
                def m(e, obj, args):
                    k = len(seq)
                    seq.append((nm, args))
                    if k in replies and replies[k][0] == nm:
                        v = replies[k][1][r]
                        if isinstance(v, list):
                            return ('vec', ('arr', ('reply', k)), C(len(v)), ('list', tuple(v)))
                        return v
                    return S('reply %d to process %d' % (k, r))
                return m
            es.append(run(r, {c + nm: model(nm) for c in CI for nm in COLL}))
            seqs.append(seq)
        new = False
        k = 0
        while k < max(len(s) for s in seqs):
            here = [s[k] if k < len(s) else (None, ()) for s in seqs]
            if k not in replies:
                if len({h[0] for h in here}) != 1:
                    if all(j in replies for j in range(k)):
                        ctx.req(False, 'R3', inst, f, 'processes call different collective operations: %s' % ', '.join(str(h[0]) for h in here))
                        return None
                    break
                nm = here[0][0]
                a = [h[1][0] if h[1] else None for h in here]
                v = None
                if nm == 'barrier':
                    v = [NULL] * R
                elif nm == 'gather':
                    l = [items(x) for x in a]
                    if all(x is not None for x in l):
                        v = [sum(l, [])] * R
                elif all(x is not None and isc(x) for x in a):
                    n = [x[1] for x in a]
                    v = [C(sum(n[:i])) for i in range(R)] if nm == 'offset' else [C(sum(n) if nm == 'sum' else max(n) if nm == 'max' else min(n))] * R
                if v is not None:
                    replies[k] = (nm, v)
                    new = True
            k += 1
        if not new:
            left = [k for k in range(max(len(s) for s in seqs)) if k not in replies]
            ctx.need(not left, 'what is handed to collective operation %s (%s)' % (left[:3], inst))
            return es
    ctx.need(False, 'the collective operations of ' + inst)
