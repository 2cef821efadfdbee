"""Block decomposition.  The decomposition is summarised as a function of (range, ranks, rank); tiling is decided by polynomial
identities in the three cases rank+1 < remainder, rank+1 = remainder, rank >= remainder; the location of an index is compared
with the inverse of the decomposition."""
from an.spec import *

FLOOR = 12
N = 'exseis::utils::'


def simp(v, bound, Q1, M):
    """bound is Q1*M exactly"""
    return subst(v, {div(bound, Q1): M, mod(bound, Q1): C(0)})


def check(ctx):
    ctx.rule('R1', 'the blocks of consecutive ranks are adjacent, start at 0 and end at the size of the range')
    ctx.rule('R2', 'block sizes differ by at most one')
    ctx.rule('R3', 'the location of an index is the rank and position the decomposition gives that index')
    ctx.rule('R4', 'the C function returns the decomposition of its arguments')
    db = ctx.db()
    cand = lambda n: [f for f in db.fns if f.get('body') and f['fn'].split('::')[-1] == n]
    f = cand('block_decomposition')
    g = cand('block_decomposition_location')
    h = cand('exseis_block_decomposition')
    ctx.need(len(f) == len(g) == len(h) == 1, 'decomposition functions')
    f, g, h = f[0], g[0], h[0]
    e = ctx.summary(f)
    n, R, r = (S(p['n']) for p in f['ps'])
    Q, M = S('quotient'), S('remainder')

    def canon(v, n, R):
        v = subst(v, {div(n, R): Q, mod(n, R): M})
        return subst(v, {n: add(mul(Q, R), M)})
    off = canon(e.getfld(e.ret, 'global_offset'), n, R)
    size = canon(e.getfld(e.ret, 'local_size'), n, R)
    lt = lambda a, b: ('<', a, b)

    def case(v, *cs):
        for c, val in cs:
            v = assume(v, c, val)
        return v
    r1 = add(r, C(1))
    off1 = subst(off, {r: r1})
    d = sub(off1, add(off, size))
    p = ('pair', d, sub(size, Q))
    low = case(p, (LT(r, M), 1), (LT(r1, M), 1))
    last = case(subst(p, {M: r1}), (LT(r, r1), 1))
    high = case(p, (LT(r, M), 0), (LT(r1, M), 0))
    for nm, v in (('below the remainder', low), ('at the remainder', last), ('above the remainder', high)):
        ctx.req(same(v[1], C(0)), 'R1', 'adjacent ' + nm, f, 'block of rank+1 starts at %s after the end of the block of rank' % show(v[1]))
        ctx.req(v[2] in (C(0), C(1)), 'R2', 'size ' + nm, f, 'the block has %s elements more than range/ranks' % show(v[2]))
    o0 = subst(off, {r: C(0)})
    for val in (1, 0):
        z = assume(o0, LT(C(0), M), val) if val else subst(o0, {M: C(0)})
        ctx.req(same(z, C(0)), 'R1', 'first block' + (' with remainder' if val else ''), f, 'rank 0 starts at %s' % show(z))
    oR = case(subst(off, {r: R}), (LT(R, M), 0))
    ctx.req(same(oR, add(mul(Q, R), M)), 'R1', 'last block', f, 'the last block ends at %s' % show(oR))
    # R3
    eg = ctx.summary(g)
    n2, R2, i = (S(p['n']) for p in g['ps'])
    rk = canon(eg.getfld(eg.ret, 'rank'), n2, R2)
    li = canon(eg.getfld(eg.ret, 'local_index'), n2, R2)
    Q1 = add(Q, C(1))
    bound = mul(Q1, M)
    c = LT(i, bound)
    kk = S('k')
    offlow = case(subst(off, {r: kk}), (LT(kk, M), 1))
    offhigh = case(subst(off, {r: kk}), (LT(kk, M), 0))
    more = LT(bound, i)
    for lo, hi, w, o, nm in ((1, 0, div(i, Q1), offlow, 'long block'), (0, 1, add(M, div(sub(i, bound), Q)), offhigh, 'short block'),
                             (None, None, M, offhigh, 'first short index')):
        if lo is None:
            # the first index after the long blocks
            m1 = {i: bound, div(i, Q1): M, mod(i, Q1): C(0), div(sub(i, bound), Q): C(0), mod(sub(i, bound), Q): C(0)}
            a, b = (simp(subst(subst(assume(assume(v, c, 0), more, 0), m1), {i: bound}), bound, Q1, M) for v in (rk, li))
            wp = C(0)
        else:
            a, b = (assume(assume(assume(v, c, lo), more, hi), LT(div(i, Q1), M), lo) for v in (rk, li))
            if lo:
                a, b = (assume(v, LT(M, div(i, Q1)), 0) for v in (a, b))
            wp = sub(i, subst(o, {kk: w}))
        ctx.req(same(a, w), 'R3', nm + ' rank', g, 'index is on rank %s, must be %s' % (show(a), show(w)))
        ctx.req(same(b, wp), 'R3', nm + ' position', g, 'position %s, must be %s' % (show(b), show(wp)))
    # R4
    eh = ctx.summary(h)
    m = {S(p['n']): S(q['n']) for p, q in zip(h['ps'], f['ps'])}
    for x in ('global_offset', 'local_size'):
        v = subst(eh.getfld(eh.ret, x), m)
        ctx.req(same(canon(v, n, R), {'global_offset': off, 'local_size': size}[x]), 'R4', 'C ' + x, h, 'returns %s' % show(v))
