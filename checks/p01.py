"""Every object-layer accessor is summarised by gated value numbering; the file address, block length, block
count and buffer it hands to the data layer are compared, as polynomials in the trace number and sample count,
with the layout formulas (data object i at 3600+i(240+4ns), header first, samples 240 bytes later).  File-size
and trace-count helpers and their use in the reader and writer are compared with the same formulas."""
from an.spec import *

FLOOR = 24
HO = C(3600)
ns, sz, off = S('ns'), S('sz'), S('offset')
DO = add(C(240), mul(C(4), ns))


def base(i):
    return add(HO, mul(i, DO))


def norm(ev):
    """('cont',A,len,d) | ('str',A,bsz,osz,nb,d) | ('list',bsz,n,A(HOLE),d)"""
    n = len(ev.args)
    t = ev.node.get('pt', [])
    a = ev.args
    if n == 3:
        return ('cont', a[0], a[1], a[2])
    if n == 5:
        if a[1] == a[2]:
            return ('cont', a[0], mul(a[1], a[3]), a[4])
        return ('str',) + a
    if n == 4:
        return ('list', a[0], a[1], elem(ev, 2, HOLE), a[3])
    return ('?',)


def check(ctx):
    ctx.rule('R1', 'each object accessor issues exactly one data-layer transfer and its file map equals the SEG-Y layout formula')
    ctx.rule('R2', 'an accessor transfers whenever there is something to transfer')
    ctx.rule('R3', 'file size, trace count and location helpers obey the layout formula')
    ctx.rule('R4', 'reader and writer use the layout formula for trace count and final file size')
    O = 'exseis::PIOL::ObjectSEGY::'
    for rw in ('read', 'write'):
        f = ctx.fn(O + rw + 'HO')
        e = ctx.summary(f, args=[S('buf')])
        evs = calls(e, rw)
        ctx.must(evs, 'R1', f, 'performs no data-layer transfer')
        for x in evs:
            a, l = x.args[0], x.args[1]
            nz = same(ITE(EQ(S('buf'), NULL), C(1), l), ITE(EQ(S('buf'), NULL), C(1), C(3600))) or (x.pc and same(AND(pcv(x), NOT(EQ(S('buf'), NULL))), FALSE))
            ctx.req(len(x.args) == 3 and same(a, C(0)) and nz, 'R1', rw + 'HO', x, 'the file header must be the first 3600 bytes; got offset %s length %s' % (show(a), show(l)))
        got = [x for x in evs if same(AND(pcv(x), NOT(EQ(S('buf'), NULL))), NOT(EQ(S('buf'), NULL)))]
        ctx.req(len(got) == 1 and same(got[0].args[2], S('buf')), 'R2', rw + 'HO', f, 'a non-null header buffer must be transferred exactly once')
        for what in ('DO', 'DOMD', 'DODF'):
            for lst in (False, True):
                c = [g for g in ctx.db().find(O + rw + what) if isptr(g['pt'][0]) == lst]
                ctx.need(len(c) == 1, 'accessor %s%s (%s) not found' % (O, rw + what, 'list' if lst else 'block'))
                f = c[0]
                inst = rw + what + ('[list]' if lst else '[block]')
                e = ctx.summary(f, args=[off, ns, sz, S('d')])
                evs = calls(e, rw)
                others = [x for x in e.events if x.kind == 'call' and 'DataInterface' in x.name and x not in evs]
                if not ctx.req(len(evs) >= 1 and not others, 'R1', inst, f, 'expected a %s on the data layer' % rw):
                    continue
                B = {'DO': DO, 'DOMD': C(240), 'DODF': mul(C(4), ns)}[what]
                sh = C(240) if what == 'DODF' else C(0)
                if lst:
                    A = add(base(('ld', off, HOLE)), sh)
                    want = ('list', B, sz, A, S('d'))
                elif what == 'DO':
                    want = ('cont', base(off), mul(sz, DO), S('d'))
                else:
                    want = ('str', add(base(off), sh), B, DO, sz, S('d'))
                have = OR(*[pcv(x) for x in evs])
                for x in evs:
                    g = norm(x)
                    m = {('k', l.id): HOLE for l in x.loops}
                    okk = len(g) == len(want) and g[0] == want[0] and all(same(AND2(x, p), AND2(x, q)) for p, q in zip(g[1:], want[1:])) and not x.loops
                    ctx.req(okk, 'R1', inst, x, 'transfer %s, the layout requires %s' % (tuple(show(y) if isinstance(y, tuple) else y for y in g), tuple(show(y) if isinstance(y, tuple) else y for y in want)))
                nonempty = AND(NOT(EQ(ns, C(0))), NOT(EQ(sz, C(0)))) if what == 'DODF' else NOT(EQ(sz, C(0)))
                ctx.req(implies(nonempty, have) and disjoint([pcv(x) for x in evs]), 'R2', inst, f, 'a non-empty request must be transferred exactly once (transferred when %s)' % show(have))
    # helpers
    U = 'exseis::PIOL::SEGY_utils::'
    i = S('i')
    T = [('getDOLoc', [i, ns], base(i)), ('getDODFLoc', [i, ns], add(base(i), C(240))), ('getFileSz', [i, ns], base(i)), ('getDOSz', [ns], DO),
         ('getNt', [S('fsz'), ns], div(sub(S('fsz'), HO), DO))]
    for n, a, want in T:
        for f in ctx.db().byq.get(U + n, []):
            e = ctx.summary(f, args=a)
            ctx.req(same(e.ret, want), 'R3', n, f, '%s(%s) is %s, the layout requires %s' % (n, ','.join(map(show, a)), show(e.ret), show(want)))
    # reader: nt from the real file size
    from checks.common import reader_ctor, writer_dtor
    e, f = reader_ctor(ctx)
    nt, nsr = e.field('nt'), e.field('ns')
    fsz = [x.res for x in calls(e, 'getFileSz')]
    ctx.must(fsz, 'R4', f, 'does not ask for the file size')
    want = div(sub(fsz[0], HO), add(C(240), mul(C(4), nsr)))
    big = NOT(LT(fsz[0], HO))
    ctx.req(same(ITE(big, nt, C(0)), ITE(big, want, C(0))), 'R4', 'reader trace count', f, 'trace count must be (file size - 3600)/(240+4ns) with the stored ns; got %s' % show(nt))
    e, f = writer_dtor(ctx)
    st = calls(e, 'setFileSz')
    ctx.must(st, 'R4', f, 'never sets the final file size')
    for x in st:
        nt, n2 = S_this('nt'), S_this('ns')
        alts = [v for c, v in leaves(x.args[0])]
        okk = all(is_filesz(v) for v in alts)
        ctx.req(okk, 'R4', 'writer final size', x, 'final file size must be 3600+nt(240+4ns); got %s' % show(x.args[0]))


def is_filesz(v):
    n2 = S_this('ns')
    for nt in nts(v):
        if same(v, add(HO, mul(nt, add(C(240), mul(C(4), n2))))):
            return True
    return False


def nts(v):
    out = [S_this('nt')]
    if v[0] == '+':
        for m, c in v[1]:
            if c == 240 and len(m) == 1:
                out.append(m[0])
    return out


def S_this(n):
    return ('fld', S('this'), n)


def AND2(x, v):
    return ITE(pcv(x), v, C(0)) if x.pc else v


def leaves(v, c=TRUE):
    if v[0] == 'ite':
        return leaves(v[2], AND(c, v[1])) + leaves(v[3], AND(c, NOT(v[1])))
    return [(c, v)]


def disjoint(cs):
    return all(same(AND(a, b), FALSE) for i, a in enumerate(cs) for b in cs[i + 1:])

