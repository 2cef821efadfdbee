"""Gathers of a file, found by processes that each read a block of it.  The function is executed abstractly for every process of a group in
lockstep: the headers are given, each collective operation is answered once what all processes hand to it is known, and what the processes
enter into the distributed list is compared with the gathers of the whole file."""
import itertools
from checks.common import *
from checks.spmd import lockstep

FLOOR = 200
P, U = 'exseis::PIOL::', 'exseis::utils::'
RI = P + 'ReadInterface::'


def check(ctx):
    ctx.rule('R1', 'each process looks at its block of the traces, and the blocks make up the file')
    ctx.rule('R2', 'every run of traces with the same inline and crossline is one gather, with all its traces, wherever process boundaries fall')
    ctx.rule('R3', 'the list of gathers is complete before any process uses it')
    ctx.db()
    ids = {c['n'].split('::')[-1]: int(c['v']) for e in ctx.db().enums.values() for c in e['c']}
    ctx.need('PIOL_META_il' in ids and 'PIOL_META_xl' in ids, 'the names of the line numbers')
    ctx.meta = (ids['PIOL_META_il'], ids['PIOL_META_xl'])
    jobs = []
    for n in range(7):
        for k, cut in enumerate(itertools.product((0, 1), repeat=max(0, n - 1))):
            lab, cur = [], 0
            for c in (0,) + cut:
                cur += c
                lab.append(cur)
            jobs.append((lab[:n], k))
    jobs += [([0, 1, 0, 1, 1, 0], 1), ([2, 0, 0, 1, 0, 2], 0), ([0, 0, 0, 1, 0, 0], 1), ([0, 0, 0, 1, 2, 0], 2), ([1, 0, 0, 2, 0, 0, 0, 0], 0), ([0, 0, 1, 1, 0, 0], 2), ([0] * 7, 0), ([0, 0, 0, 0, 0, 0, 1], 2), ([0, 1, 1, 1, 1, 1, 1], 1)]
    ctx.pmap(gathers, jobs)


def name(lab, k):
    """inline and crossline of each gather: what changes from one to the next alternates"""
    pal = [(5, 7), (5, 8), (6, 8), (6, -7), (-5, -7), (-5, 0), (0, 0), (0, 5)]
    if k % 3 == 1:
        pal = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (2, 2), (3, 3)]
    if k % 3 == 2:
        pal = [(3, 0), (2, 0), (2, -1), (1, 0), (0, 0), (0, 1), (7, 7)]
    return [pal[x] for x in lab]


def gathers(ctx, job):
    lab, k = job
    f = ctx.fn(P + 'getIlXlGathers', 2)
    n = len(lab)
    hdr = name(lab, k)
    ids = {C(v): k for k, v in enumerate(ctx.meta)}
    want = [(len(list(g)), key) for key, g in itertools.groupby(hdr)]
    for R in (1, 2, 3, 4):
        inst = 'traces of %s on %d processes' % (' '.join('%d/%d' % h for h in hdr) or 'an empty file', R)
        blocks = {}

        def run(r, coll):
            blocks.pop(r, None)
            def rp(e, obj, args):
                if isc(args[0]) and isc(args[1]):
                    blocks[r] = (args[0][1], args[1][1])

            def get(e, obj, args):
                i, m = args[0], args[1]
                if not (isc(i) and isc(m) and r in blocks and 0 <= i[1] < blocks[r][1]):
                    return None
                t = blocks[r][0] + i[1]
                return C(hdr[t][ids[m]]) if m in ids and t < n else None

            def size(e, obj, args):
                return C(blocks[r][1]) if r in blocks else None
            model = {RI + 'readNt': C(n), RI + 'readParam': rp, P + 'param_utils::getPrm': get, P + 'Param::size': size}
            for c in ('CommunicatorInterface::', 'CommunicatorMPI::'):
                model.update({P + c + 'getRank': C(r), P + c + 'getNumRank': C(R)})
            model.update(coll)
            prim = lambda q, g: q in model or q.startswith((P + 'Communicator', P + 'Param::', P + 'Rule::')) or 'istributed_vector' in q
            return ctx.summary(f, prim=prim, mpi_ok=True, unroll=n + 4, model=model, ctors=True)
        es = lockstep(ctx, run, R, f, inst)
        if es is None:
            continue
        pos = 0
        for r in range(R):
            ok = r in blocks and blocks[r][0] == pos or r in blocks and blocks[r][1] == 0
            ctx.req(ok, 'R1', '%s: block of process %d' % (inst, r), f, 'is %s' % (blocks.get(r),))
            pos += blocks.get(r, (0, 0))[1]
        ctx.req(pos == n, 'R1', inst, f, 'the blocks have %d traces of %d' % (pos, n))
        got = {}
        for r, e in enumerate(es):
            for x in e.events:
                if x.kind == 'call' and x.name.split('::')[-1] == 'set' and 'istributed_vector' in x.name:
                    c = pcv(x)
                    if c == FALSE:
                        continue
                    ctx.need(c == TRUE and isc(x.args[0]), 'whether and where %s:%d enters a gather' % (f['file'].split('/')[-1], x.line))
                    g = fields(x.args[1])
                    got.setdefault(x.args[0][1], []).append((g, x))
            new = [x for x in e.events if x.kind == 'call' and x.name.split('::')[-1] == 'ctor' and 'istributed_vector' in x.name or x.kind == 'call' and x.name.startswith('new ') and 'istributed_vector' in x.name]
            sz = [x.args[0] for x in new if x.args]
            ctx.req(sz and sz[0] == C(len(want)), 'R2', '%s: number on process %d' % (inst, r), new[0] if new else f, 'is %s instead of %d' % (show(sz[0])[:60] if sz else None, len(want)))
            sets = [x.seq for x in e.events if x.kind == 'call' and x.name.split('::')[-1] == 'set' and 'istributed_vector' in x.name]
            bar = [x.seq for x in e.events if x.kind == 'call' and x.name.split('::')[-1] in ('barrier', 'MPI_Barrier')]
            ctx.req(bar and (not sets or max(bar) > max(sets)), 'R3', '%s: process %d' % (inst, r), f, 'the list is handed out without waiting for the other processes')
        for i, (m, (il, xl)) in enumerate(want):
            l = got.get(i, [])
            if ctx.req(len(l) == 1, 'R2', '%s: gather %d' % (inst, i), l[-1][1] if l else f, 'is entered %d times' % len(l)):
                ctx.req(l[0][0] == (C(m), C(il), C(xl)), 'R2', '%s: gather %d' % (inst, i), l[0][1], 'is %s instead of %d traces of %d/%d' % (tuple(show(v)[:40] if v else v for v in l[0][0]), m, il, xl))
        ctx.req(not [i for i in got if not 0 <= i < len(want)], 'R2', '%s: others' % inst, f, 'gathers are entered at %s of %d' % (sorted(got), len(want)))


def fields(v):
    d = {}
    while v[0] == 'upd':
        d = dict(v[2], **d)
        v = v[1]
    if v[0] == 'agg':
        d = dict(v[2], **d)
    return tuple(d.get(x) for x in ('num_traces', 'inline_', 'crossline'))
