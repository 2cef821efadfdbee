"""Writer protocol.  The closing code is summarised with the writer state symbolic, which gives the condition under which
the header and the final size are written and the size itself, as functions of the state.  Every operation that changes
the state is summarised too and composed with those functions: after a change the condition must hold on every path,
and the recorded trace count must be the largest trace written plus one, combined over all ranks."""
from an.spec import *
from checks.common import *

FLOOR = 18
T = ('d', S('this'))
PR = lambda q, f: LOG(q, f) or 'Communicator' in q
W = 'exseis::PIOL::WriteSEGY::'
F = lambda n: ('fld', S('this'), n)


def this_fields(v):
    return [a for a in atoms(v, lambda a: a[0] == 'fld' and contains(a, lambda b: b == S('this')))]


def loc_of(a):
    return ('f', loc_of(a[1]), a[2]) if a[0] == 'fld' else ('d', a)


def after(v, e):
    """v, a function of the writer state, evaluated in the final state of e"""
    m = {}
    for a in this_fields(v):
        if contains(a[1], lambda b: b[0] == 'fld' and b[2] in ('piol', 'obj', 'comm', 'log')):
            continue
        m[a] = e.rd(loc_of(a), e.final)
    return subst(v, m)


def check(ctx):
    ctx.rule('R1', 'closing: unless an error was recorded, every rank takes part in writing the header and exactly rank 0 supplies it')
    ctx.rule('R2', 'closing: the size is set from the largest trace count over all ranks')
    ctx.rule('R3', 'every change of text, samples or interval marks the header to be written; a new writer always writes it')
    ctx.rule('R4', 'every change of the trace or sample count marks the size to be set, and trace counts never lose a written trace')
    f = ctx.fn(W + '~WriteSEGY')
    e = ctx.summary(f, prim=PR)
    H, Z = [x for y in calls(e, 'writeHO') for x in alts(y, 0)], calls(e, 'setFileSz')
    ctx.must(H and Z, 'R1', f, 'does not %s' % ('set the file size' if H else 'write the file header'))
    err = [a for x in H for a in atoms(pcv(x), lambda a: a[0] in ('call', 'res') and str(a[1]).endswith('isErr'))]
    err = err[0] if err else S('no error test')
    rank = [a for x in H for a in atoms(pcv(x), lambda a: a[0] in ('call', 'res') and str(a[1]).endswith('getRank'))]
    noerr = lambda v: assume(v, err, 0)
    D, R = noerr(OR(*[pcv(x) for x in H])), noerr(OR(*[pcv(x) for x in Z]))
    for i, x in enumerate(H):
        for y in H[:i]:
            ctx.req(same(AND(pcv(x), pcv(y)), FALSE), 'R1', 'once', x, 'the header is written twice')
    norank = lambda v: not rank or same(assume(v, zero, 1), assume(v, zero, 0))
    if rank:
        zero = EQ(rank[0], C(0))
    ctx.req(norank(D), 'R1', 'all ranks', f, 'ranks take part in writing the header only when %s' % show(D))
    sup = OR(*[pcv(x) for x in H if x.args[0] != NULL])
    zero = EQ(rank[0], C(0)) if rank else FALSE
    ctx.req(bool(rank) and same(noerr(sup), AND(D, zero)), 'R1', 'rank 0 supplies', f, 'the header bytes are supplied when %s, must be rank 0 only' % show(noerr(sup)))
    D = assume(D, zero, 1) if rank else D
    ctx.req(not contains(D, lambda a: a[0] in ('call', 'res', 'ld')), 'R1', 'condition', f, 'the header is written when %s' % show(D))
    ctx.req(norank(R), 'R2', 'all ranks', f, 'ranks take part in setting the size only when %s' % show(R))
    # the size
    for x in Z:
        v = x.args[0]
        v = ITE(TRUE, v, v)
        for k in x.pc:
            v = assume(v, k[1] if k[0] == 'not' else k, 0 if k[0] == 'not' else 1)
        mx = [a for a in atoms(v, lambda a: a[0] in ('call', 'res') and str(a[1]).endswith('::max'))]
        st = [c for c in conds(v)]
        dirty = [c for c in st if c[0] == 'fld']
        allranks = lambda n: add(C(3600), mul(n, add(C(240), mul(C(4), F('ns')))))
        okk = len(mx) == 1 and len(st) <= 1
        if okk:
            args = mx[0][3] if mx[0][0] == 'res' else mx[0][2]
            val = args[-1] if args else None
            okk = val == F('nt')
            if not st:
                okk = okk and same(v, allranks(mx[0]))
            else:
                okk = okk and dirty and same(assume(v, dirty[0], 1), allranks(mx[0])) and same(assume(v, dirty[0], 0), allranks(F('nt')))
        ctx.req(okk, 'R2', 'size', x, 'the file size must be 3600+N(240+4ns) with N the largest trace count of any rank (or the count set explicitly); it is %s' % show(v))
    stale = [c for x in Z for c in conds(x.args[0]) if c[0] == 'fld']
    stale = stale[0] if stale else None
    if stale is not None:
        ctx.req(same(assume(R, stale, 1), TRUE), 'R2', 'stale count', f, 'when the count has to be combined the size must be set; it is set when %s' % show(R))
    # construction
    cs = ctx.db().find(W + 'WriteSEGY')
    for g in cs:
        if len(g['ps']) < 3:
            continue
        ec = ctx.summary(g, prim=PR)
        ctx.req(after(D, ec) == TRUE, 'R3', 'constructor %d' % len(g['ps']), g, 'a new file must get a header when it is closed; the condition is %s' % show(after(D, ec)))
    # setters
    for n, fl in (('writeText', 'text'), ('writeNs', 'ns'), ('writeInc', 'inc')):
        g = ctx.fn(W + n)
        es = ctx.summary(g, prim=PR)
        st = [x for x in es.events if x.kind == 'store' and x.obj == ('f', T, fl)]
        ctx.must(st, 'R3', g, 'stores nothing')
        ch = AND(OR(*[pcv(x) for x in st]), changed(es.rd(('f', T, fl), es.final), F(fl)))
        ctx.req(same(ITE(ch, after(D, es), TRUE), TRUE), 'R3', n, g, 'after %s changed the value the header must be due; it is due when %s' % (n, show(after(D, es))))
        if n == 'writeNs':
            ctx.req(same(ITE(ch, after(R, es), TRUE), TRUE), 'R4', n, g, 'after the sample count changed the size must be due; it is due when %s' % show(after(R, es)))
        ctx.req(same(ITE(D, after(D, es), TRUE), TRUE) and same(ITE(R, after(R, es), TRUE), TRUE), 'R3', n + ' keeps', g, 'a pending header or size must stay pending')
    g = ctx.fn(W + 'writeNt')
    p = S(g['ps'][0]['n'])
    es = ctx.summary(g, prim=PR)
    v = es.rd(('f', T, 'nt'), es.final)
    ctx.req(same(v, p), 'R4', 'writeNt value', g, 'the trace count must become the given one; it becomes %s' % show(v))
    ctx.req(same(ITE(NOT(EQ(F('nt'), p)), after(R, es), TRUE), TRUE), 'R4', 'writeNt', g, 'after the trace count changed the size must be due; it is due when %s' % show(after(R, es)))
    if stale is not None:
        ctx.req(same(assume(after(R, es), stale, 1), TRUE), 'R4', 'writeNt on all ranks', g, 'while the count differs between ranks all of them must agree that the size is due; due when %s' % show(assume(after(R, es), stale, 1)))
        ctx.req(after(stale, es) == FALSE, 'R4', 'writeNt explicit', g, 'an explicit trace count replaces the combined one')
    for n in ('writeTrace', 'writeTraceNonContiguous'):
        for g in ctx.db().find(W + n):
            names = [S(q['n']) for q in g['ps']]
            es = ctx.summary(g, prim=PR, args=[S('offset'), S('sz'), S('trc'), S('prm'), S('skip')] if n == 'writeTrace' else [S('sz'), S('offset'), S('trc'), S('prm'), S('skip')])
            v = es.rd(('f', T, 'nt'), es.final)
            last = add(S('offset'), S('sz')) if n == 'writeTrace' else add(('ld', S('offset'), sub(S('sz'), C(1))), C(1))
            want = ITE(EQ(S('sz'), C(0)), F('nt'), ('max', tuple(sorted((last, F('nt')), key=sk))))
            ctx.req(same(v, want), 'R4', n + ' count', g, 'the trace count must become the largest written trace plus one and stay unchanged when nothing is written; it becomes %s' % show(v))
            ctx.req(same(after(R, es), TRUE), 'R4', n, g, 'after writing traces the size must be due on every rank; it is due when %s' % show(after(R, es)))
            if stale is not None:
                ctx.req(same(after(stale, es), TRUE), 'R4', n + ' stale', g, 'after writing traces the count must be combined over the ranks; combined when %s' % show(after(stale, es)))
