"""Every read/write form of the MPI-IO data layer is summarised down to its MPI calls (MPI assumed to succeed).
Loops become trip counts and per-iteration affine expressions; the obligations are that the data transfers of one
request tile the requested file bytes and the caller's buffer exactly once (start M*k, length min(n-M*k, M), trip
ceil(n/M)), that strided and listed requests go through a derived type built from the same chunk, that the plain view
is back before the next use of the file, and that no count handed to MPI can exceed the configured int-sized limit."""
import copy
from an.spec import *

FLOOR = 40
D = 'exseis::PIOL::DataMPIIO::'
BYTE = ('ompi_mpi_char', 'ompi_mpi_unsigned_char', 'ompi_mpi_byte', 'ompi_mpi_signed_char')
CREATE = ('MPI_Type_create_hvector', 'MPI_Type_create_hindexed', 'MPI_Type_create_hindexed_block', 'MPI_Type_vector', 'MPI_Type_create_struct', 'MPI_Type_contiguous', 'MPI_Type_indexed')


def isbyte(v):
    return v[0] == 'p' and v[1][0] == 'addr' and v[1][1][0] == 'g' and v[1][1][1] in BYTE


def strip(v):
    while v[0] in ('cast', 'trunc'):
        v = v[2]
    return v


def ptr(v):
    while v[0] == 'p' and v[1][0] in ('pc', 'bytes') and v[2] == C(0):
        v = ('p', v[1][1], C(0))
    return v if v[0] == 'p' else ('p', v, C(0))


def forms(ctx):
    for rw in ('read', 'write'):
        for f in ctx.db().find(D + rw):
            pt = f['pt']
            n = len(pt)
            kind = 'contiguous' if n == 3 else 'strided' if n == 5 else 'listed' if n == 4 and isptr(pt[2]) else None
            ctx.need(kind, 'unknown transfer form %s%s' % (D + rw, pt))
            yield rw, kind, f


ARGS = {'contiguous': ['offset', 'sz', 'd'], 'strided': ['offset', 'bsz', 'osz', 'nb', 'd'], 'listed': ['bsz', 'sz', 'offset', 'd']}


def mpi_events(ctx, f, kind):
    prim = lambda q, g: 'Logger' in q or 'MPI_error' in q
    e = ctx.summary(f, args=[S(a) for a in ARGS[kind]], prim=prim, mpi_ok=True)
    return e, own_rounds(e, [x for x in e.events if x.kind == 'call' and x.name.startswith('MPI_') and not x.name.startswith('MPI_T_')])


def largest(R, n, evs):
    """R is the largest over all ranks of the own value n"""
    if R[0] == 'red' and R[1] == 'max':
        a = R[3]
        return a[0] == 'ld' and contains(a[1], lambda z: z[0] == 'call' and str(z[1]).endswith('::gather') and len(z[2]) == 2 and z[2][1][0] == 'vec' and z[2][1][3] == ('list', (n,)))
    if R[0] == 'out' and R[1] == 'MPI_Allreduce':
        x = next((y for y in evs if y.name == 'MPI_Allreduce' and y.seq == R[-1]), None)
        return x is not None and contains(x.args[4], lambda z: z == ('g', 'ompi_mpi_op_max')) and (n in (strip(x.mem.get(0, NULL)),) or contains(x.args[0], lambda z: z == n) or x.mem.get(0) == ('list', (n,)))
    return False


def own_rounds(e, evs):
    """a loop of ceil(largest n / M) rounds whose round k moves data only when M*k < n has ceil(n / M) rounds with data"""
    new = {}
    for x in evs:
        for l in x.loops:
            t = l.trip
            if l in new or not isinstance(t, tuple) or t[0] != 'ceildiv':
                continue
            M, k = t[2], ('k', l.id)
            for c in x.pc:
                if c[0] == '<' and same(c[1], mul(M, k)) and not contains(c[2], lambda z: z == k) and largest(t[1], c[2], evs):
                    l2 = copy.copy(l)
                    l2.trip = ('ceildiv', c[2], M)
                    new[l] = (l2, c)
    if not new:
        return evs
    out = []
    for x in evs:
        cs = {c for l, (_, c) in new.items() if l in x.loops and c in x.pc}
        out.append(x._replace(pc=tuple(c for c in x.pc if c not in cs), loops=tuple(new[l][0] if l in new and new[l][1] in x.pc else l for l in x.loops)))
    return out


def tiles(ctx, n, loop, start, count, scale=C(1)):
    """start == M*k and count == min(n-M*k, M), trip == ceil(n/M); returns M or None"""
    k = ('k', loop.id)
    t = loop.trip
    if t[0] == 'max' and C(1) in t[1]:
        return None
    if t[0] != 'ceildiv' or not same(t[1], n):
        return None
    M = t[2]
    if not same(start, mul(M, k)):
        return None
    if not same(count, MIN(sub(n, mul(M, k)), M)):
        return None
    return M


def bounded(count, lim, facts):
    """count <= lim, from min(), a/b*b <= a and the given a<=b facts"""
    count = strip(count)
    if same(count, lim) or (isc(count) and count[1] == 0):
        return True
    if count[0] == 'min':
        return any(bounded(x, lim, facts) for x in count[1])
    for c, v in leaves(count):
        if v != count:
            return all(bounded(assume_c(v2, c2), assume_c(lim, c2), facts) for c2, v2 in leaves(count))
    if count[0] == '/' and count[1] == lim:
        return True
    if count[0] == '+' and len(count[1]) == 1:
        (m, c), = count[1]
        m = [strip(x) for x in m]
        # chunk * f with chunk <= lim / g and c*f <= g
        for i, a in enumerate(m):
            rest = m[:i] + m[i + 1:]
            f = C(c)
            for r in rest:
                f = mul(f, r)
            for q in ([a] if a[0] != 'min' else list(a[1])):
                if q[0] == '/' and q[1] == lim:
                    g = q[2]
                    if any(le(f, gv, facts) is False for gv in [v for _, v in leaves(g)]):
                        pass
                    ok = True
                    for c2, gv in leaves(g):
                        ff = assume_c(f, c2)
                        if not le(ff, gv, facts):
                            ok = False
                    if ok:
                        return True
    return False


def le(f, g, facts):
    if same(f, g) or (f, g) in facts or f == C(0) or (isc(f) and isc(g) and f[1] <= g[1]):
        return True
    if f[0] != 'c' and g[0] == '+' and len(g[1]) == 1 and g[1][0][1] >= 1 and g[1][0][0] == (f,):
        return True
    return False


def assume_c(v, c):
    if isc(c):
        return v
    if c[0] == 'and':
        for x in c[1]:
            v = assume_c(v, x)
        return v
    if c[0] == 'not' and c[1][0] != 'and':
        return assume(v, c[1], 0)
    if c[0] != 'not':
        return assume(v, c, 1)
    return v


def leaves(v, c=TRUE):
    if v[0] == 'ite':
        return leaves(v[2], AND(c, v[1])) + leaves(v[3], AND(c, NOT(v[1])))
    return [(c, v)]


def check(ctx):
    ctx.rule('R1', 'the data transfers of a request tile the requested file range and the buffer exactly once')
    ctx.rule('R2', 'strided and listed transfers go through a view built from the same chunk, and the plain view is restored')
    ctx.rule('R3', 'every count passed to MPI is bounded by the configured limit, which fits an int')
    ctx.rule('R4', 'the transfer goes to the requested direction and the object own file')
    n = 0
    limits = {('bsz', 'osz')}
    for rw, kind, f in forms(ctx):
        e, evs = mpi_events(ctx, f, kind)
        inst = '%s/%s' % (rw, kind)
        ops = [x for x in evs if x.name.startswith('MPI_File_read') or x.name.startswith('MPI_File_write') or x.name.startswith('MPI_File_iread') or x.name.startswith('MPI_File_iwrite')]
        ctx.must(ops, 'R1', f, 'performs no MPI file transfer')
        N = {'contiguous': S('sz'), 'strided': S('nb'), 'listed': S('sz')}[kind]
        data = []
        view = None
        typ = None
        have = []
        last_loop_view = {}
        for x in evs:
            if x.name in CREATE:
                typ = x
            elif x.name == 'MPI_File_set_view':
                view = (x, typ) if not isbyte(x.args[3]) else (x, None)
            elif x in ops:
                cnt = strip(x.args[3])
                zero = cnt == C(0) or any(l.trip == C(0) for l in x.loops)
                ctx.req(x.name.startswith('MPI_File_' + rw + '_at'), 'R4', inst, x, 'a %s request is served by %s' % (rw, x.name))
                ctx.req(same(x.args[0], ('fld', S('this'), fileField(ctx))), 'R4', inst + ' file', x, 'the transfer must use the object own file handle, got %s' % show(x.args[0]))
                ctx.req(isbyte(x.args[4]), 'R1', inst + ' type', x, 'transfers are counted in bytes, got datatype %s' % show(x.args[4]))
                if zero:
                    continue
                data.append(x)
                self_contained(ctx, inst, kind, x, view, N, rw)
        cov = []
        for x in data:
            c = AND(*[p for p in x.pc])
            cov.append(c)
        at = atoms(AND(*x.pc), lambda v: False)
        ctx.req(len(data) >= 1 and same(OR(*cov), TRUE) and all(same(AND(a, b), FALSE) for i, a in enumerate(cov) for b in cov[i + 1:]), 'R1', inst + ' coverage', f,
                'the data transfer must happen exactly once per chunk under every setting; conditions %s' % [show(c) for c in cov])
        # view restored: the last set_view in every iteration that installs one is a plain byte view at 0
        if kind != 'contiguous':
            vs = [x for x in evs if x.name == 'MPI_File_set_view']
            pend = None
            for x in [y for y in evs if y.name in ('MPI_File_set_view',) or y in ops]:
                if x.name == 'MPI_File_set_view':
                    if isbyte(x.args[3]):
                        ctx.req(same(x.args[1], C(0)), 'R2', inst + ' restore', x, 'the plain view must start at byte 0')
                        if pend is not None:
                            ctx.req(x.loops[:len(pend.loops)] == pend.loops and implies(pcv(pend), pcv(x)), 'R2', inst + ' restore', x, 'the view is not restored on every path that replaced it')
                        pend = None
                    else:
                        ctx.req(pend is None, 'R2', inst + ' restore', x, 'a view is installed over an earlier one that was not reset')
                        pend = x
            ctx.req(pend is None, 'R2', inst + ' restore', pend or f, 'the derived view is still in place when the request ends')
        else:
            ctx.req(not [x for x in evs if x.name == 'MPI_File_set_view'], 'R2', inst, f, 'a contiguous transfer must not change the view')
    # the limit
    opt = ctx.fn(D + 'Opt::Opt')
    e = ctx.summary(opt)
    v = e.rd(('f', ('d', S('this')), 'maxSize'), e.final)
    ctx.req(isc(v) and 0 < v[1] <= 2 ** 31 - 1, 'R3', 'default limit', opt, 'default transfer limit %s does not fit an int' % show(v))
    ini = [g for g in ctx.db().find(D + 'Init')][0]
    e = ctx.summary(ini, args=[S('opt'), S('mode')], prim=lambda q, g: 'Logger' in q or 'MPI_error' in q, mpi_ok=True)
    v = e.rd(('f', ('d', S('this')), 'maxSize'), e.final)
    ctx.req(same(v, ('fld', S('opt'), 'maxSize')), 'R3', 'limit taken from the options', ini, 'limit is %s' % show(v))


def fileField(ctx):
    e = ctx.summary(ctx.fn(D + 'isFileNull'))
    r = e.ret
    fl = [a for a in atoms(r, lambda v: v[0] == 'fld' and v[1] == S('this'))]
    ctx.need(len(fl) == 1, 'file handle member')
    return fl.pop()[2]


def self_contained(ctx, inst, kind, x, view, N, rw):
    lim = ('fld', S('this'), 'maxSize')
    off, buf, cnt = x.args[1], ptr(x.args[2]), strip(x.args[3])
    facts = {(S('bsz'), S('osz'))}
    ctx.req(bounded(cnt, lim, facts), 'R3', inst + ' count', x, 'cannot bound the transfer count %s by the limit' % show(x.args[3]))
    if kind == 'contiguous':
        okk = False
        if len(x.loops) == 1:
            l = x.loops[0]
            M = tiles(ctx, N, l, sub(off, S('offset')), cnt)
            okk = M is not None and buf[1] == S('d') and same(buf[2], mul(M, ('k', l.id)))
        ctx.req(okk, 'R1', inst, x, 'chunk: file %s, buffer %s, count %s, trip %s does not tile (offset, sz, d)' % (show(off), show(buf), show(cnt), [show(l.trip) for l in x.loops]))
        return
    if not ctx.req(view is not None and view[1] is not None, 'R2', inst + ' view', x, 'the transfer is not preceded by a derived view'):
        return
    v, t = view
    ctx.req(v.loops == x.loops[:len(v.loops)] and v.pc == x.pc[:len(v.pc)] and isbyte(v.args[2]), 'R2', inst + ' view', v, 'the view must be installed on the same path as the transfer, in bytes')
    if not x.loops:
        ctx.bad('R1', inst, *wher(x), 'the transfer is not in the chunk loop')
        return
    l = x.loops[0]
    k = ('k', l.id)
    b, o = S('bsz'), S('osz')
    if kind == 'strided':
        okt = t.name == 'MPI_Type_create_hvector' and isbyte(t.args[3])
        chunk, tb, to = strip(t.args[0]), strip(t.args[1]), t.args[2]
        ctx.req(okt and same(tb, b) and same(to, o), 'R2', inst + ' type', t, 'the view must be a vector of bsz-byte blocks every osz bytes; got block %s stride %s' % (show(tb), show(to)))
        disp = v.args[1]
        M = None
        if l.trip[0] == 'ceildiv':
            M = l.trip[2]
        okk = M is not None and same(l.trip[1], N) and same(chunk, MIN(sub(N, mul(M, k)), M)) and same(disp, add(S('offset'), mul(M, k, ) if False else mul(mul(M, k), o)))
        ctx.req(okk, 'R1', inst, v, 'chunk of %s blocks at %s, trip %s does not tile the requested blocks' % (show(chunk), show(disp), show(l.trip)))
        ctx.req(bounded(mul(chunk, o), ('fld', S('this'), 'maxSize'), facts), 'R3', inst + ' extent', t, 'extent %s of one view may exceed the limit' % show(mul(chunk, o)))
        tot = mul(chunk, b)
        base = mul(mul(M, k), b) if M is not None else None
        if len(x.loops) == 2 and M is not None:
            l2 = x.loops[1]
            tot2 = l2.trip[1] if l2.trip[0] == 'ceildiv' else C(0)
            M2 = l2.trip[2] if l2.trip[0] == 'ceildiv' else C(0)
            k2 = ('k', l2.id)
            okk = same(nocast(tot2), nocast(tot)) and same(off, mul(M2, k2)) and same(nocast(cnt), nocast(MIN(sub(tot, mul(M2, k2)), M2))) and buf[1] == S('d') and same(buf[2], add(base, mul(M2, k2)))
        elif len(x.loops) == 1 and M is not None:
            okk = same(off, C(0)) and same(nocast(cnt), nocast(tot)) and buf[1] == S('d') and same(buf[2], base)
        else:
            okk = False
        ctx.req(okk, 'R1', inst + ' buffer', x, 'transfer of %s at view offset %s into %s does not cover the chunk' % (show(cnt), show(off), show(buf)))
    else:
        blk = t.name == 'MPI_Type_create_hindexed_block'
        okt = t.name in ('MPI_Type_create_hindexed', 'MPI_Type_create_hindexed_block') and isbyte(t.args[3])
        chunk = strip(t.args[0])
        bl = strip(t.args[1]) if blk else strip(elem(t, 1, HOLE))
        ctx.req(okt and same(bl, b), 'R2', inst + ' type', t, 'every listed block must be bsz bytes; got %s of %s' % (show(bl), t.name))
        if not blk:
            fl = t.mem.get(1)
            ctx.req(fl is not None and fl[0] == 'fillv' and same(fl[1], C(0)) and same(nocast(fl[2]), nocast(chunk)), 'R2', inst + ' lengths', t, 'block lengths are not set for every block')
        dp = ptr(t.args[2])
        M = l.trip[2] if l.trip[0] == 'ceildiv' else None
        okk = M is not None and same(l.trip[1], N) and same(chunk, MIN(sub(N, mul(M, k)), M)) and dp[1] == S('offset') and same(dp[2], mul(M, k)) and same(v.args[1], C(0))
        ctx.req(okk, 'R1', inst, t, 'chunk of %s blocks from list entry %s, trip %s does not tile the list' % (show(chunk), show(dp), show(l.trip)))
        ctx.req(bounded(mul(chunk, b), ('fld', S('this'), 'maxSize'), facts), 'R3', inst + ' extent', t, 'bytes of one view may exceed the limit')
        okk = M is not None and len(x.loops) == 1 and same(off, C(0)) and same(nocast(cnt), nocast(mul(chunk, b))) and buf[1] == S('d') and same(buf[2], mul(mul(M, k), b))
        ctx.req(okk, 'R1', inst + ' buffer', x, 'transfer of %s at view offset %s into %s does not cover the chunk' % (show(cnt), show(off), show(buf)))


def nocast(v):
    if not isinstance(v, tuple) or not v:
        return v
    m = {a: nocast(a[2]) for a in atoms(v, lambda x: x[0] == 'cast')}
    return subst(v, m) if m else v
