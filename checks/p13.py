"""Which traces a read returns, and where.  The amounts and positions the three read operations request from the object layer are compared,
by case analysis, with the request clipped at the end of the file; the local trace number recorded for each header with the position it came
from.  The unordered read is matched against its three steps - order the list, drop repetitions, read, hand every place of the list the
trace of its position - by comparing the conditions, counters and slots of the loops that do them."""
from checks.common import *

FLOOR = 30
N = 'exseis::PIOL::'
R = N + 'ReadSEGY::'
OPS = ('readDO', 'readDODF', 'readDOMD')
PR = lambda q, f: LOG(q, f) or q.split('::')[-1] in OPS + ('extractParam', 'setPrm', 'cpyPrm', 'getSortIndex', 'from_IBM_to_float', 'readTraceNonContiguous') or q.startswith(N + 'Rule::') or q.startswith(N + 'Param::')
PN, TN = ('ptrc', 1), ('g', N + 'TRACE_NULL')


def check(ctx):
    ctx.rule('R1', 'a block read requests the traces from its offset on, clipped at the end of the file; a list read requests its list')
    ctx.rule('R2', 'headers are read without samples, samples without headers, or both, as the buffers given say')
    ctx.rule('R3', 'the header of each trace read gets the number of its own trace, after the header was unpacked')
    ctx.rule('R4', 'the index that orders a list is a permutation sorted by position')
    ctx.rule('R5', 'an unordered read requests every position of the list once, in increasing order')
    ctx.rule('R6', 'every place of an unordered list gets headers and samples of its own position')
    block(ctx)
    lists(ctx)
    sortindex(ctx)
    unordered(ctx)


def parm(f, what):
    return [S(p['n']) for p in f['ps'] if what in p['t']]


def reads(ctx, f, e, off, n, ns, trc, prm, nof):
    T = calls(e, *OPS)
    ctx.must(T, 'R1', f, 'requests nothing from the object layer')
    short = f['fn'].split('::')[-1]
    hp, ht = NOT(EQ(PN, prm)), NOT(EQ(TN, trc))
    want = {'readDODF': NOT(hp), 'readDOMD': AND(hp, NOT(ht)), 'readDO': AND(hp, ht)}
    for o, w in want.items():
        xs = [x for x in T if x.name.split('::')[-1] == o]
        c = FALSE
        for x in xs:
            g = pcv(x)
            ctx.req(same(AND(c, g), FALSE), 'R2', '%s once (%s)' % (short, o), x, 'requests the traces twice')
            c = OR(c, g)
            ctx.req(not x.loops, 'R1', '%s in one request (%s)' % (short, o), x, 'is requested repeatedly')
            ctx.req(same(ITE(g, x.args[0], off), off), 'R1', '%s position (%s)' % (short, o), x, 'requests traces from %s' % show(x.args[0]))
            ctx.req(same(ITE(g, x.args[1], ns), ns), 'R1', '%s samples (%s)' % (short, o), x, 'requests %s samples' % show(x.args[1]))
            ctx.req(n(x.args[2], g), 'R1', '%s amount (%s)' % (short, o), x, 'requests %s traces' % show(x.args[2]))
        ctx.req(same(c, w), 'R2', '%s: when to use %s' % (short, o), xs[0] if xs else f, 'is used when %s' % show(c))
    P = calls(e, 'setPrm')
    X = calls(e, 'extractParam')
    ok = [x for x in P if x.args[1] == ctx_ltn(ctx)]
    if ctx.req(len(ok) == 1 and len(ok[0].loops) == 1 and len(X) == 1, 'R3', short, ok[0] if ok else f, 'the trace number is set by %d statements' % len(ok)):
        x = ok[0]
        k = ('k', x.loops[0].id)
        i = sub(x.args[0], S(f['ps'][-1]['n']))
        ctx.req(n(x.loops[0].trip, hp) and i == k, 'R3', short + ' for every trace', x, 'is set for place %s, %s times' % (show(x.args[0]), show(x.loops[0].trip)))
        ctx.req(same(x.args[2], nof(i)), 'R3', short + ' value', x, 'is %s' % show(x.args[2]))
        ctx.req(x.args[3] == prm and same(pcv(x), hp), 'R3', short + ' condition', x, 'is set when %s' % show(pcv(x)))
        ctx.req(x.seq > X[0].seq and X[0].seq > max(y.seq for y in T), 'R3', short + ' order', x, 'is set before the header is unpacked')


def ctx_ltn(ctx):
    for e in ctx.db().enums.values():
        for c in e['c']:
            if c['n'] == 'PIOL_META_ltn':
                return C(int(c['v']))


def block(ctx):
    f = ctx.fn(R + 'readTrace')
    e = ctx.summary(f, prim=PR)
    off, sz = parm(f, 'unsigned long')[:2]
    nt, ns = getter(ctx, R + 'readNt'), getter(ctx, N + 'ReadInterface::readNs')
    reads(ctx, f, e, off, lambda v, g: clipped(under_c(v, g, 1) if g != TRUE else v, off, sz, nt), ns, parm(f, 'float')[0], parm(f, 'Param')[0], lambda i: add(off, i))


def canon(v):
    """minimum and maximum as choices, comparisons as the sign of a difference"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] in ('min', 'max') and len(v) == 2 and len(v[1]) == 2:
        a, b = v[1]
        a, b = canon(a), canon(b)
        return ('ite', canon(LT(a, b)), a, b) if v[0] == 'min' else ('ite', canon(LT(a, b)), b, a)
    w = tuple(canon(x) if isinstance(x, tuple) else x for x in v)
    if w[0] == 'ite':
        return w[2] if w[1] == TRUE else w[3] if w[1] == FALSE else w
    if w[0] == '<':
        return ('<', C(0), sub(w[2], w[1]))
    return w


def clipped(v, off, sz, nt):
    """v == (off < nt ? min(sz, nt - off) : 0), by cases on the order of off, off + sz and nt"""
    v = canon(v)
    room, past = sub(nt, off), sub(add(off, sz), nt)
    pos = lambda a: ('<', C(0), a)
    neg = lambda a: pos(sub(C(0), a))
    Z = [EQ(C(0), sz), EQ(off, add(off, sz))]

    def case(facts, want):
        w = subst(v, {a: C(b) for a, b in facts})
        w = canon(w)
        rest = [c for c in conds(w)]
        def go(x, cs):
            if not cs:
                return any(same(x, y) for y in want)
            return all(go(assume(x, cs[0], b), [c for c in conds(assume(x, cs[0], b))]) for b in (0, 1))
        return go(w, rest)
    yes, no = TRUE[1], FALSE[1]
    zero = [(a, 1) for a in Z] + [(pos(sz), 0)]
    some = [(a, 0) for a in Z] + [(pos(sz), 1)]
    inside = [(pos(room), 1), (neg(room), 0), (EQ(off, nt), 0)]
    out = [(pos(room), 0), (neg(room), 1), (EQ(off, nt), 0)]
    return (atend(v, off, sz, nt) and case(out + zero, [C(0), sz]) and case(out + some + [(pos(past), 1), (neg(past), 0)], [C(0)])
            and case(inside + zero + [(pos(past), 0), (neg(past), 1)], [C(0), sz])
            and case(inside + some + [(pos(past), 1), (neg(past), 0)], [room])
            and case(inside + some + [(pos(past), 0), (neg(past), 1)], [sz])
            and case(inside + some + [(pos(past), 0), (neg(past), 0)], [sz, room]))


def atend(v, off, sz, nt):
    """nothing is requested from exactly behind the last trace"""
    w = canon(subst(v, {off: nt}))
    for z in (EQ(C(0), sz), EQ(nt, add(nt, sz))):
        w = canon(assume(w, z, 0))
    for c, b in ((('<', C(0), sz), 1), (('<', sz, C(0)), 0), (('<', C(0), sub(C(0), sz)), 0)):
        w = canon(subst(w, {c: C(b)}))
    return same(w, C(0))


def lists(ctx):
    f = ctx.fn(R + 'readTraceNonContiguous')
    e = ctx.summary(f, prim=lambda q, g: PR(q, g) and g is not f)
    off = [S(p['n']) for p in f['ps'] if 'unsigned long *' in p['t']][0]
    sz = S(f['ps'][0]['n'])
    reads(ctx, f, e, off, lambda v, g: same(ITE(g, v, sz), sz), getter(ctx, N + 'ReadInterface::readNs'), parm(f, 'float')[0], parm(f, 'Param')[0], lambda i: ('ld', off, i))


def getter(ctx, q):
    return ('fld', S('this'), getter_field(ctx, q))


def sortindex(ctx):
    f = ctx.fn(N + 'getSortIndex')
    e = ctx.summary(f)
    sz, lst = (S(p['n']) for p in f['ps'])
    so = [x for x in e.events if x.kind == 'std' and x.name in ('std::sort', 'std::stable_sort')]
    r = e.ret
    if not ctx.req(len(so) == 1 and r is not None and r[0] == 'vec' and same(r[2], sz) and not so[0].loops, 'R4', 'ordered', so[0] if so else f, 'the list is ordered %d times' % len(so)):
        return
    x = so[0]
    a, b = x.args[0], x.args[1]
    ctx.req(a == ('p', r[1], C(0)) and b[0] == 'p' and b[1] == r[1] and same(b[2], sz) and same(pcv(x), TRUE) or same(pcv(x), NOT(EQ(sz, C(0)))), 'R4', 'all of it', x, 'orders from %s to %s' % (show(a), show(b)))
    # a permutation before
    ini = [y for y in e.events if y.seq < x.seq and (y.kind == 'fill' and y.args[0] == ('p', r[1], C(0)) or y.kind == 'store' and y.obj is not None and y.obj[0] == 'i' and y.obj[1] == r[1])]
    ok = len(ini) >= 1
    if ok:
        y = ini[-1]
        ok = y.args[1:] == (sz, HOLE) if y.kind == 'fill' else len(y.loops) == 1 and same(y.loops[0].trip, sz) and y.obj[2] == y.args[0] == ('k', y.loops[0].id)
    else:
        ps = [y for y in e.events if y.seq < x.seq and y.kind == 'std' and y.name.split('::')[-1] in ('push_back', 'emplace_back')]
        ok = len(ps) == 1 and len(ps[0].loops) == 1 and same(ps[0].loops[0].trip, sz) and ps[0].args[-1] == ('k', ps[0].loops[0].id) and pcv(ps[0]) == TRUE
    ctx.req(ok, 'R4', 'of all places', x, 'the index does not start as 0, 1, 2 ...')
    c = x.args[2] if len(x.args) > 2 else None
    lam = ctx.db().lam.get(c[1]) if c is not None and c[0] == 'lam' else None
    if ctx.req(lam is not None, 'R4', 'by position', x, 'ordered by %s' % (show(c) if c is not None else 'their own value')):
        A, B = (S(p['n']) for p in lam['ps'])
        v = ctx.summary(lam).ret
        L = [z for z in atoms(v, lambda z: z[0] == 'ld')] if v is not None else []
        base = {z[1] for z in L}
        ctx.req(len(base) == 1 and v == LT(('ld', list(base)[0], A), ('ld', list(base)[0], B)), 'R4', 'by position', lam, 'compares %s' % show(v) if v is not None else 'compares nothing')


def unordered(ctx):
    f = ctx.fn(R + 'readTraceNonMonotonic')
    e = ctx.summary(f, prim=lambda q, g: PR(q, g))
    sz = S(f['ps'][0]['n'])
    off, trc, prm, skip = [S(p['n']) for p in f['ps']][1:5]
    ns = getter(ctx, N + 'ReadInterface::readNs')
    srt = calls(e, 'getSortIndex')
    if not ctx.req(len(srt) == 1 and srt[0].args == (sz, off), 'R5', 'ordering', srt[0] if srt else f, 'the list is ordered %d times' % len(srt)):
        return
    idx = lambda j: ('ld', ('arr', srt[0].res), j)
    pos = lambda j: ('ld', off, idx(j))
    rd = calls(e, 'readTraceNonContiguous')
    if not ctx.req(len(rd) == 1 and not rd[0].loops and same(pcv(rd[0]), TRUE), 'R5', 'one read', rd[0] if rd else f, 'reads %d times' % len(rd)):
        return
    x = rd[0]
    n, po = x.args[0], x.args[1]
    # the positions requested
    base = po[1] if po[0] == 'p' else po
    push = [y for y in e.events if y.seq < x.seq and (y.kind == 'store' and y.obj is not None and y.obj[0] == 'i' and y.obj[1] == base
            or y.kind == 'std' and y.name.split('::')[-1] in ('push_back', 'emplace_back') and flat(y.obj) == flat(base))]
    seen, uq = [], None
    for y in push:
        u = y.args[0]
        j = [m for m in atoms(u, lambda z: z[0] == 'ld' and z[1] == ('arr', srt[0].res))]
        if not ctx.req(len(set(j)) == 1 and u == ('ld', off, list(j)[0]), 'R5', 'positions', y, 'requests position %s' % show(u)):
            return
        j = list(j)[0][2]
        if not y.loops:
            ctx.req(j == C(0) and same(ITE(EQ(sz, C(0)), FALSE, pcv(y)), NOT(EQ(sz, C(0)))), 'R5', 'first position', y, 'position %s is requested when %s' % (show(j), show(pcv(y))))
            seen.append('first')
            continue
        k = ('k', y.loops[0].id)
        d = sub(j, k)
        if not ctx.req(len(y.loops) == 1 and d in (C(0), C(1)) and same(y.loops[0].trip, sub(sz, d) if d == C(0) else y.loops[0].trip), 'R5', 'every position', y, 'looks at place %s, %s times' % (show(j), show(y.loops[0].trip))):
            return
        ch = NOT(EQ(pos(sub(j, C(1))), pos(j)))
        if d == C(0):
            ch = OR(EQ(k, C(0)), ch)
            seen.append('first')
        g = pcv(y)
        ctx.req(same(g, ch), 'R5', 'no repetition', y, 'a position is requested when %s' % show(g))
        seen.append('rest')
    if not push:
        # sort and unique on a copy of the list
        ctx.req(False, 'R5', 'positions', x, 'the positions requested are not collected from the ordered list')
        return
    ctx.req(sorted(seen) == ['first', 'rest'], 'R5', 'all positions', push[0], 'collects %s' % ', '.join(seen))
    hp, ht = NOT(EQ(PN, prm)), NOT(EQ(TN, trc))
    # room
    for i, c, nul, what in ((2, ht, trc, 'samples'), (3, hp, prm, 'headers')):
        v = x.args[i]
        p = under_c(v, c, 1)
        ctx.req(same(ITE(c, C(0), under_c(v, c, 0)), ITE(c, C(0), nul)) or under_c(v, c, 0) in (nul, PN, TN), 'R6', 'no ' + what, x, 'reads %s to %s' % (what, show(v)))
        if what == 'headers':
            hdr = p
        else:
            smp = p
    ctx.req(x.args[4] == C(0), 'R6', 'headers from the start', x, 'reads headers to place %s' % show(x.args[4]))
    pc = [y for y in e.events if y.kind == 'call' and y.name.startswith(N + 'Param::') and y.name.split('::')[-1] in ('ctor', 'Param') and y.seq < x.seq]
    ok = False
    for y in pc:
        ok |= len(y.args) == 2 and any(same(ITE(hp, y.args[1], C(0)), ITE(hp, t, C(0))) for t in (n, sz)) and same(ITE(hp, y.args[0], C(0)), ITE(hp, ('fld', prm, 'r'), C(0)))
    ctx.req(ok, 'R6', 'room for the headers', pc[0] if pc else f, 'the headers read have no block of their number and rule')
    b = flat(smp)
    room = e.sizeof(b, e.final) if b is not None and b[0] == 'v' else None
    big = lambda w: w is not None and any(same(ITE(ht, w, C(0)), ITE(ht, t, C(0))) for t in (mul(ns, n), mul(ns, sz)))
    ctx.req(big(room), 'R6', 'room for the samples', x, 'there is room for %s samples' % (show(room) if room is not None else '?'))
    # copies back
    def counter(y, u, l):
        """is u, in loop l, the number of the position of place k among the positions requested?"""
        k = ('k', l.id)
        ch = AND(NOT(EQ(k, C(0))), NOT(EQ(pos(sub(k, C(1))), pos(k))))
        ps = {z for z in atoms(u, lambda z: z[0] == 'phi' and z[1] == l.id)}
        if len(ps) != 1 or not same(l.trip, sz):
            return False
        P = list(ps)[0]
        for c, s in l.upd.items():
            if s[0] == 'acc' and s[2] == P:
                if s[1] == C(0) and same(u, ITE(ch, add(P, C(1)), P)) and same(s[3], u):
                    return True
                k1 = add(k, C(1))
                nx = NOT(EQ(pos(k), pos(k1)))
                return s[1] == C(0) and u == P and (same(s[3], ITE(nx, add(P, C(1)), P)) or same(s[3], ITE(AND(LT(k1, sz), nx), add(P, C(1)), P)))
        return False
    cp = [y for y in calls(e, 'cpyPrm')]
    if ctx.req(len(cp) == 1 and len(cp[0].loops) == 1 and cp[0].seq > x.seq, 'R6', 'headers of every place', cp[0] if cp else f, 'headers are copied by %d statements' % len(cp)):
        y = cp[0]
        k = ('k', y.loops[0].id)
        ctx.req(counter(y, y.args[0], y.loops[0]), 'R6', 'headers of its position', y, 'a place gets the headers of trace %s read' % show(y.args[0])[:160])
        ctx.req(same(y.args[2], add(skip, idx(k))) and y.args[3] == prm, 'R6', 'headers to its place', y, 'headers go to place %s' % show(y.args[2])[:160])
        ctx.req(same(pcv(y), hp) and flat(y.args[1]) == flat(hdr), 'R6', 'headers read are copied', y, 'copied from %s when %s' % (show(y.args[1]), show(pcv(y))))
    st = [y for y in e.events if y.seq > x.seq and (y.kind == 'store' and y.obj is not None and y.obj[0] == 'i' and y.obj[1] in (trc, ('arr', trc)) or y.kind == 'copy' and y.args[2][0] == 'p' and y.args[2][1] in (trc, ('arr', trc)))]
    if ctx.req(len(st) == 1, 'R6', 'samples of every place', st[0] if st else f, 'samples are copied by %d statements' % len(st)):
        y = st[0]
        if y.kind == 'store':
            ok = len(y.loops) == 2 and same(y.loops[1].trip, ns) or len(y.loops) == 2 and same(y.loops[0].trip, ns)
            q = [l for l in y.loops if same(l.trip, ns) and not any(s[0] == 'acc' for s in l.upd.values())]
            l = [l for l in y.loops if l not in q[:1]]
            kk = ('k', q[0].id) if q else None
            to, v = y.obj[2], y.args[0]
            fr = v[4] if v[0] == 'outel' and v[1] == x.name and v[2] == 2 else None
        else:
            ok = len(y.loops) == 1 and same(y.args[1], ns)
            l, kk = list(y.loops), C(0)
            to, s = y.args[2][2], y.args[0]
            fr = s[2] if s[0] == 'p' and flat(s) == flat(smp) else None
        if ctx.req(ok and kk is not None and len(l) == 1, 'R6', 'all samples', y, 'loops %s' % [show(z.trip) for z in y.loops]):
            k = ('k', l[0].id)
            ctx.req(same(to, add(kk, mul(ns, idx(k)))), 'R6', 'samples to their place', y, 'samples go to %s' % show(to)[:160])
            u = div(sub(fr, kk), ns) if fr is not None else None
            ctx.req(u is not None and (counter(y, u, l[0]) or counter2(fr, kk, ns, lambda w: counter(y, w, l[0]))), 'R6', 'samples of their position', y, 'samples come from %s' % (show(fr)[:160] if fr is not None else show(y.args[0])[:160]))
            ctx.req(same(AND(pcv(y), NOT(EQ(trc, NULL))), AND(ht, NOT(EQ(trc, NULL)))), 'R6', 'samples read are copied', y, 'copied when %s' % show(pcv(y)))


def counter2(fr, kk, ns, test):
    """fr == kk + ns * u for a counter u"""
    d = sub(fr, kk)
    for a in sorted(atoms(d, lambda z: z[0] in ('ite', 'phi')), key=lambda z: -len(str(z))):
        if same(d, mul(ns, a)):
            return test(a)
    return False


def flat(p):
    """the object a pointer or reference value stands for"""
    while p is not None and p[0] in ('p', 'addr', 'arr', 'LOC'):
        p = p[1]
    return p


def under_c(v, c, val):
    if c[0] == 'not':
        c, val = c[1], 1 - val
    return assume(v, c, val)
