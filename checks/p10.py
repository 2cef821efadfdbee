"""Sample and header number formats.  Big-endian packing and unpacking are compared bit by bit with the byte order they must
have.  The IBM conversion is interpreted over partially known bits: one case per exponent, leading hexadecimal digit, rounding
situation and byte order, with all remaining fraction bits and the sign symbolic, so the cases cover every normalised input.
The reader and the writer must apply these conversions exactly once to every transferred sample and to nothing else."""
from an.spec import *
from an.bv import *
from checks.common import *

FLOOR = 60
U = 'exseis::utils::'
TN = ('g', 'exseis::PIOL::TRACE_NULL')
PN = ('ptrc', 1)
BYTES = {'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4}


def byte_typer(v):
    if v[0] in ('ld', 'sym', 'fld'):
        return (8, 0)
    return None


def be_bits(bs):
    """bits (LSB first) of the big-endian number made of the byte atoms bs"""
    return [('b', b, k) for b in reversed(bs) for k in range(8)]


def unpack_ok(bv, v, bs):
    while v[0] == 'bits':
        v = v[1]
    n = 8 * len(bs)
    return bv.bits(v, n) == be_bits(bs)


def codecs(ctx):
    bv = BV(byte_typer)
    n = 0
    for f in ctx.db(('lib', 'util')).find(U + 'from_big_endian'):
        if not f.get('body') or 'array' not in f['pt'][0]:
            continue
        e = ctx.summary(f)
        k = 2 if ', 2>' in f['pt'][0] else 4
        bs = [('ld', ('arr', S(f['ps'][0]['n'])), C(i)) for i in range(k)]
        n += ctx.req(unpack_ok(bv, e.ret, bs), 'R1', 'from_big_endian %s line %d' % (f['pt'][0], f['line']), f, 'does not assemble the bytes most significant first: %s' % show(e.ret)[:200])
    ctx.need(n or ctx.viol, 'from_big_endian')
    n = 0
    for f in ctx.db(('lib', 'util')).find(U + 'to_big_endian'):
        if not f.get('body'):
            continue
        e = ctx.summary(f)
        t = f['pt'][0]
        ctx.need(t in BYTES, 'to_big_endian<%s>' % t)
        w = BYTES[t]
        x = S(f['ps'][0]['n'])
        x = ('bits', x) if t == 'float' else x
        bx = BV(lambda a: (8 * w, 0 if 'unsigned' in t or t == 'float' else 1) if a == x else None)
        r = e.ret
        for i in range(w):
            got = Engine.fillval(None, r[3], C(i)) if r and r[0] == 'vec' and r[3] else content(e, r[1], i) if r and r[0] == 'vec' else None
            n += 1
            ctx.req(got is not None and bx.bits(got, 8) == be_byte(bx, x, i, w), 'R2', 'to_big_endian<%s> byte %d' % (t, i), f, 'byte %d of the result is %s' % (i, show(got) if got else 'not written'))
    ctx.need(n, 'to_big_endian')


# ---------------------------------------------------------------- IBM
def ibm_case(db, f, e7, known, free, be):
    """result bits of from_IBM_to_float: sign symbolic, exponent byte e7, fraction = known bits | free symbolic bits"""
    syms = [S('f2'), S('f1'), S('f0')]
    bv = BV(lambda a: (1, 0) if a == S('sg') else (8, 0) if a in syms else None, True)

    def byte(k):
        s = 16 - 8 * k
        kn, fr = (known >> s) & 255, (free >> s) & 255
        if not fr:
            return C(kn)
        return ('|', (C(kn), ('&', (C(fr), syms[k]))))
    by = [add(mul(S('sg'), C(128)), C(e7))] + [byte(k) for k in range(3)]
    if not be:
        by = by[::-1]
    e = BEngine(db, bv)
    e.run(f, [('vec', ('arr', S('in')), C(4), ('list', tuple(by))), C(be)])
    v = bv.fold(e.ret)
    if v[0] == 'bits':
        v = v[1]
    got = bv.bits(v, 32)
    F = [1 if known >> j & 1 else ('b', syms[2 - j // 8], j % 8) if free >> j & 1 else 0 for j in range(24)]
    return got, F


def fracs(nib):
    """leading-digit classes: (index of the leading one, known, free)"""
    p = nib.bit_length() - 1 + 20
    return p, 1 << p, (1 << p) - 1


def expect(e7, p, F):
    """IEEE bits of (-1)^s * F * 2^-24 * 16^(e7-64), F with leading one at p; None if rounding of symbolic bits is needed"""
    sg = ('b', S('sg'), 0)
    E = 4 * (e7 - 64) - 24 + p + 127
    if E >= 255:
        return [0] * 23 + [1] * 8 + [sg]
    if E > 0:
        m = [0] * (23 - p) + F[:p]
        return m + [E >> k & 1 for k in range(8)] + [sg]
    # subnormal: value / 2^-149
    s = 4 * (e7 - 64) - 24 + 149
    if s >= 0:
        m = ([0] * s + F)[:31]
        return m + [0] * (31 - len(m)) + [sg]
    s = -s
    low, q = F[:s], F[s:]
    if s > 24:
        return [0] * 31 + [sg]
    half, rest = low[-1], low[:-1]
    up = None
    if half == 0:
        up = 0
    elif half == 1:
        if any(b == 1 for b in rest):
            up = 1
        elif all(b == 0 for b in rest):
            up = q[0] if q else 0
    if up not in (0, 1):
        return None
    q = q + [0] * (31 - len(q))
    if up:
        k = 0
        while q[k] == 1:
            q[k] = 0
            k += 1
        if q[k] != 0:
            return None
        q[k] = 1
    return q + [sg]


def split(e7, p, known, free):
    """refine a class until the rounding is decided"""
    F = [1 if known >> j & 1 else ('b', None, j) if free >> j & 1 else 0 for j in range(24)]
    s = -(4 * (e7 - 64) - 24 + 149)
    if 4 * (e7 - 64) - 24 + p + 127 > 0 or s <= 0 or s > 24:
        yield known, free
        return

    def fix(known, free, j, b):
        return (known | (b << j)), free & ~(1 << j)
    h = s - 1
    if not free >> h & 1:
        hs = [(known, free, known >> h & 1)]
    else:
        hs = [fix(known, free, h, b) + (b,) for b in (0, 1)]
    for k, f, b in hs:
        if not b:
            yield k, f
            continue
        # highest one below the half bit
        tails = []
        for t in range(h - 1, -1, -1):
            if k >> t & 1:
                tails.append((k, f, True))
                break
            if f >> t & 1:
                m = sum(1 << u for u in range(t, h))
                tails.append((k | (1 << t), f & ~m | (f & ((1 << t) - 1)), True))
        else:
            m = (1 << h) - 1
            tails.append((k, f & ~m, False))
        for k2, f2, sticky in tails:
            # trailing ones of the quotient
            if not sticky:
                if f2 >> s & 1:
                    yield fix(k2, f2, s, 0)
                    k2, f2 = fix(k2, f2, s, 1)
                elif not k2 >> s & 1:
                    yield k2, f2
                    continue
            for t in range(s, 25):
                if not f2 >> t & 1:
                    if not k2 >> t & 1:
                        yield k2, f2
                        break
                    continue
                yield fix(k2, f2, t, 0)
                k2, f2 = fix(k2, f2, t, 1)


def ibm_one(ctx, item):
    e7, be = item
    f = ctx.fn(U + 'from_IBM_to_float')
    db = ctx.db()
    n = 0
    for nib in (8, 4, 2, 1):
        p, known, free = fracs(nib)
        for k, fr in split(e7, p, known, free):
            got, F = ibm_case(db, f, e7, k, fr, be)
            want = expect(e7, p, F)
            ctx.need(want is not None, 'case analysis of the rounding')
            n += 1
            bad = [j for j in range(32) if got[j] != want[j]]
            if bad:
                ctx.req(False, 'R3', 'exponent %d' % e7, f, 'IBM exponent byte %d, fraction %06x (free bits %06x), %s-endian: bit %d of the result is %s, must be %s' %
                        (e7, k, fr, 'big' if be else 'little', bad[-1], shb(got[bad[-1]]), shb(want[bad[-1]])))
                return n
    got, F = ibm_case(db, f, e7, 0, 0, be)
    n += 1
    ctx.req(all(b == 0 for b in got[:31]), 'R3', 'zero fraction, exponent %d' % e7, f, 'a zero fraction with exponent byte %d does not convert to zero' % e7)
    if not ctx.viol:
        ctx.ok('R3', 'exponent %d %s-endian: %d cases' % (e7, 'big' if be else 'little', n))
    return n


def shb(b):
    return str(b) if b in (0, 1) else 'bit %d of %s' % (b[2], show(b[1])[:60]) if b and b[0] == 'b' else 'an unresolved combination'


# ---------------------------------------------------------------- use
PR = lambda q, f: LOG(q, f) or 'Communicator' in q or q.split('::')[-1] in ('extractParam', 'insertParam', 'setPrm', 'from_IBM_to_float')


def is_tb(p, trc):
    """pointer into the bytes of trc -> byte offset"""
    if p[0] == 'p' and p[1][0] == 'bytes' and p[1][1] == trc:
        return p[2]
    if p[0] == 'p' and p[1] == trc:
        return mul(p[2], C(4))
    if p == trc:
        return C(0)
    return None


def cover(ix, loops, tot):
    """the index runs over 0..tot-1 once each"""
    ks = [('k', l.id) for l in loops]
    tr = [l.trip for l in loops]
    if len(ks) == 1:
        return same(ix, ks[0]) and same(tr[0], tot)
    if len(ks) == 2:
        return same(tot, mul(tr[0], tr[1])) and same(ix, add(mul(ks[0], tr[1]), ks[1]))
    return False


def valid(v, trc, pn=None):
    v = assume(assume(v, EQ(TN, trc), 0), EQ(NULL, trc), 0)
    return v


def conv_events(e, trc):
    """(seq, event, byte index, nbytes, loops) of every modification of the trace buffer"""
    out = []
    for x in e.events:
        if x.kind == 'store' and x.obj and x.obj[0] == 'i':
            if x.obj[1] == trc:
                out.append((x, mul(x.obj[2], C(4)), C(4), x.args[0]))
            elif x.obj[1][0] == 'bytes' and x.obj[1][1] == trc:
                out.append((x, x.obj[2], C(1), x.args[0]))
        if x.kind == 'copy' and is_tb(x.args[2], trc) is not None:
            out.append((x, is_tb(x.args[2], trc), x.args[1], x.args[3]))
        if x.kind == 'fill' and is_tb(x.args[0], trc) is not None:
            out.append((x, is_tb(x.args[0], trc), x.args[1], x.args[2]))
    return out


def reader(ctx, q, nc):
    fs = [f for f in ctx.db().find(q) if f.get('body')]
    f = fs[0]
    e = ctx.summary(f, prim=PR)
    nm = [p['n'] for p in f['ps']]
    trc, prm = S([p['n'] for p in f['ps'] if 'float' in p['t'] or 'Trace_value' in p['t']][0]), S([p['n'] for p in f['ps'] if 'Param' in p['t']][0])
    T = [x for x in e.events if x.kind == 'call' and x.name.split('::')[-1] in ('readDO', 'readDODF', 'readDOMD')]
    ctx.must(T, 'R4', f, 'transfers nothing')
    short = q.split('::')[-1]
    fmt = [a for x in e.events for c in x.pc for a in conds(c) if contains(a, lambda y: y[0] == 'fld' and y[2] == 'number_format')]
    fmt = fmt[0] if fmt else None
    ns, cnt = T[0].args[1], T[0].args[2]
    tot = mul(ns, cnt)
    last = max(x.seq for x in T)
    ev = conv_events(e, trc)
    place = [z for z in ev if z[0].kind == 'copy' and contains(z[3], lambda a: a == HOLE) and not contains(z[3], lambda a: a[0] in ('bits', '>>', 'res'))]
    conv = [z for z in ev if z not in place]
    ctx.need(fmt is not None, 'number format test in ' + short)
    isib = [a for a in (C(1),) if fmt[0] == '==']
    ctx.need(bool(isib), 'number format test in ' + short)
    const = fmt[1] if isc(fmt[1]) else fmt[2]
    ctx.req(const == C(1), 'R4', short + ' format', f, 'the IBM conversion is chosen for format %s, SEG-Y assigns 1 to IBM' % show(const))
    bv = BV(byte_typer)
    for ibm in (1, 0):
        hit = []
        for z in conv:
            x = z[0]
            c = valid(assume(pcv(x), fmt, ibm), trc)
            if same(c, FALSE):
                continue
            ctx.req(same(c, TRUE) or same(c, NOT(EQ(C(0), cnt))) or implies(NOT(EQ(C(0), cnt)), c), 'R4', '%s %s condition' % (short, 'IBM' if ibm else 'IEEE'), x, 'samples are converted only when %s' % show(c))
            hit.append(z)
        if not ctx.req(len(hit) == 1, 'R4', '%s %s once' % (short, 'IBM' if ibm else 'IEEE'), hit[0][0] if hit else f, 'the samples of one request are converted %d times' % len(hit)):
            continue
        x, b, n, v = hit[0]
        v = assume(v, fmt, ibm)
        ok = n == C(4) and b is not None
        ix = div(b, C(4))
        ctx.req(ok and cover(ix, x.loops, tot), 'R4', '%s %s every sample' % (short, 'IBM' if ibm else 'IEEE'), x,
                'the conversion covers %s for %s, must be samples 0 .. %s' % (show(ix), [show(l.trip) for l in x.loops], show(tot)))
        ctx.req(x.seq > last, 'R4', '%s %s after the transfer' % (short, 'IBM' if ibm else 'IEEE'), x, 'samples are converted before they are read')
        bs = [('ld', ('bytes', trc, 'float'), add(mul(ix, C(4)), C(j))) for j in range(4)]
        if ibm:
            cs = [a for a in atoms(v, lambda a: a[0] == 'res' and a[1].endswith('from_IBM_to_float'))]
            good = v[0] == 'res' and len(cs) == 1
            if good:
                a = v[3] if isinstance(v[3], tuple) else v[2]
                el = [Engine.fillval(None, a[0][3], C(j)) if a[0][0] == 'vec' and a[0][3] else a[0][1][1][j] if a[0][0] == 'p' and a[0][1][0] == 'ilist' and len(a[0][1][1]) == 4 else None for j in range(4)]
                good = isc(a[1]) and el == (bs if a[1][1] else bs[::-1])
            ctx.req(good, 'R4', short + ' IBM bytes', x, 'the sample is not converted from its own four bytes in file order: %s' % show(v)[:200])
        else:
            ctx.req(unpack_ok(bv, v, bs), 'R4', short + ' IEEE bytes', x, 'the sample is not assembled from its own four bytes, most significant first: %s' % show(v)[:200])
    for z in conv:
        x = z[0]
        ctx.req(same(assume(pcv(x), EQ(NULL, trc), 1), FALSE) and same(assume(pcv(x), EQ(TN, trc), 1), FALSE), 'R4', '%s no buffer, line %d' % (short, x.line), x, 'samples are converted although no sample buffer was given')
    place_ok(ctx, e, f, short, trc, prm, ns, cnt, 'readDO', place, 'R6')
    params(ctx, e, f, short, trc, prm, ns, cnt, 'extractParam', 'R6')


def place_ok(ctx, e, f, short, trc, prm, ns, cnt, op, place, rule):
    """samples move between the trace block buffer and the sample buffer at stride 240 + 4 ns"""
    DO = calls(e, op)
    ctx.must(len(DO) >= 1, rule, f, 'has no %s' % op)
    rd = op.startswith('read')
    buf = DO[0].args[3]
    live = lambda v: assume(assume(v, EQ(C(0), cnt), 0), EQ(C(0), S('sz')), 0)
    if not ctx.req(len(place) == 1, rule, short + ' sample placement', DO[0], 'the samples are moved %d times between the trace blocks and the sample buffer' % len(place)):
        return
    x, b, n, v = place[0]
    both = lambda p: flat(assume(assume(assume(live(p), EQ(TN, trc), 0), EQ(NULL, trc), 0), EQ(PN, prm), 0))
    src, dst, n, buf = both(x.args[0]), both(x.args[2]), both(n), both(buf)
    blk, smp = (src, dst) if rd else (dst, src)
    ks = [('k', l.id) for l in x.loops]
    k = ks[0] if len(ks) == 1 else None
    so = is_tb(smp, trc)
    w = mul(C(4), ns)
    ok = k is not None and so is not None and same(x.loops[0].trip, cnt) and same(so, mul(w, k)) and same(n, w)
    ok = ok and blk[0] == 'p' and same(blk[2], add(C(240), mul(add(C(240), w), k)))
    bb = blk[1] if blk[0] == 'p' else None
    ok = ok and (bb == buf or live_same(bb, buf, cnt))
    ctx.req(ok, rule, short + ' sample placement', x, 'the samples of trace i must be the 4*ns bytes after the 240-byte header of block i: moves %s bytes from %s to %s' % (show(n), show(src)[:120], show(dst)[:120]))
    ctx.req(x.seq > DO[0].seq if rd else x.seq < DO[0].seq, rule, short + ' placement order', x, 'samples are moved on the wrong side of the transfer')
    c = assume(valid(pcv(x), trc), EQ(PN, prm), 0)
    ctx.req(implies(NOT(EQ(C(0), cnt)), c), rule, short + ' placement condition', x, 'samples are moved only when %s' % show(c))


def flat(p):
    while p[0] == 'p' and p[1][0] == 'p':
        p = ('p', p[1][1], add(p[1][2], p[2]))
    return p


def live_same(a, b, cnt):
    return b is not None and a is not None and (contains(b, lambda x: x == a) or contains(a, lambda x: x == b))


def params(ctx, e, f, short, trc, prm, ns, cnt, op, rule):
    P = calls(e, op)
    if not ctx.req(len(P) == 1, rule, short + ' header conversion', P[0] if P else f, '%s is called %d times for one request' % (op, len(P))):
        return
    x = P[0]
    a = x.args
    bufi, prmi = (1, 2) if op == 'extractParam' else (2, 1)
    w = mul(C(4), ns)
    ctx.req(same(a[0], cnt) and a[prmi] == prm and a[4] == S('skip'), rule, short + ' header count', x, 'headers are converted for %s traces into %s from entry %s' % (show(a[0]), show(a[prmi]), show(a[4])))
    ctx.req(same(assume(a[3], EQ(TN, trc), 1), C(0)) and same(assume(a[3], EQ(TN, trc), 0), w), rule, short + ' header stride', x, 'the gap between headers is %s' % show(a[3]))
    ctx.req(same(assume(pcv(x), EQ(PN, prm), 0), TRUE) and same(assume(pcv(x), EQ(PN, prm), 1), FALSE), rule, short + ' header condition', x, 'headers are converted when %s' % show(pcv(x)))
    T = [y for y in e.events if y.kind == 'call' and y.name.split('::')[-1] in ('readDO', 'readDOMD', 'writeDO', 'writeDOMD')]
    for y in T:
        ctx.req(y.args[3] == a[bufi], rule, '%s %s buffer' % (short, y.name.split('::')[-1]), y, 'the transferred buffer is not the one whose headers are converted')
        ctx.req((y.seq < x.seq) == op.startswith('extract'), rule, '%s %s order' % (short, y.name.split('::')[-1]), x, 'headers are converted on the wrong side of the transfer')
    D = [y for y in e.events if y.kind == 'call' and y.name.split('::')[-1] in ('readDODF', 'writeDODF')]
    for y in D:
        o = is_tb(y.args[3], trc)
        ctx.req(o == C(0), rule, short + ' sample-only buffer', y, 'the sample-only transfer uses %s' % show(y.args[3]))


def writer(ctx, q):
    f = [g for g in ctx.db().find(q) if g.get('body')][0]
    e = ctx.summary(f, prim=PR)
    short = q.split('::')[-1]
    trc, prm = S([p['n'] for p in f['ps'] if 'float' in p['t'] or 'Trace_value' in p['t']][0]), S([p['n'] for p in f['ps'] if 'Param' in p['t']][0])
    T = [x for x in e.events if x.kind == 'call' and x.name.split('::')[-1] in ('writeDO', 'writeDODF', 'writeDOMD')]
    ctx.must(T, 'R5', f, 'transfers nothing')
    ns, cnt = T[0].args[1], T[0].args[2]
    tot = mul(ns, cnt)
    first, last = min(x.seq for x in T), max(x.seq for x in T)
    ev = conv_events(e, trc)
    pre, post = [z for z in ev if z[0].seq < first], [z for z in ev if z[0].seq > last]
    ctx.req(len(pre) + len(post) == len(ev), 'R5', short + ' stable during the transfer', f, 'the sample buffer is modified between the transfers')
    B = lambda ix: [('ld', ('bytes', trc, 'float'), add(mul(ix, C(4)), C(j))) for j in range(4)]
    for nm, zs in (('before', pre), ('after', post)):
        if not ctx.req(len(zs) == 1, 'R5', '%s converted %s writing' % (short, nm), zs[0][0] if zs else f, 'samples are converted %d times %s the transfer' % (len(zs), nm)):
            continue
        x, b, n, v = zs[0]
        ix = div(b, C(4))
        ctx.req(n == C(4) and cover(ix, x.loops, tot), 'R5', '%s every sample %s writing' % (short, nm), x, 'the conversion covers %s for %s, must be samples 0 .. %s' % (show(ix), [show(l.trip) for l in x.loops], show(tot)))
        c = valid(pcv(x), trc)
        ctx.req(implies(NOT(EQ(C(0), cnt)), c), 'R5', '%s condition %s writing' % (short, nm), x, 'samples are converted only when %s' % show(c))
        ctx.req(same(assume(pcv(x), EQ(NULL, trc), 1), FALSE) and same(assume(pcv(x), EQ(TN, trc), 1), FALSE), 'R5', '%s no buffer, %s writing' % (short, nm), x, 'samples are converted although no sample buffer was given')
        el = ('ld', trc, ix)
        if x.kind == 'copy':
            xb = ('bits', el)
            bx = BV(lambda a: (32, 0) if a == xb else byte_typer(a))
            for j in range(4):
                got = subst(v, {HOLE: C(j)})
                if nm == 'before':
                    ctx.req(bx.bits(got, 8) == be_byte(bx, xb, j, 4), 'R5', '%s byte %d %s' % (short, j, nm), x, 'byte %d of a written sample is %s' % (j, show(got)))
                else:
                    ctx.req(bx.bits(got, 8) == [('b', B(ix)[3 - j], k) for k in range(8)], 'R5', '%s byte %d %s' % (short, j, nm), x, 'byte %d of a restored sample is %s' % (j, show(got)))
        else:
            bx = BV(lambda a: (32, 0) if a == ('bits', el) else byte_typer(a))
            w = v
            while w[0] == 'bits' and w != ('bits', el):
                w = w[1]
            got = bx.bits(w, 32)
            sw = [y for j in range(3, -1, -1) for y in bx.bits(('bits', el), 32)[8 * (3 - j):8 * (4 - j)]]
            ctx.req(got == be_bits(B(ix)) or got == [y for j in range(4) for y in bx.bits(('bits', el), 32)[8 * (3 - j):8 * (4 - j)]], 'R5', '%s bytes %s' % (short, nm), x, 'the four bytes of the sample are not reversed: %s' % show(v)[:200])
    move = [x for x in e.events if x.kind == 'copy' and is_tb(x.args[0], trc) is not None]
    place_ok(ctx, e, f, short, trc, prm, ns, cnt, 'writeDO', [(x, None, x.args[1], x.args[3]) for x in move], 'R6')
    for x in move:
        ctx.req(pre and x.seq > pre[-1][0].seq, 'R6', short + ' moved after conversion', x, 'samples are moved into the trace blocks before they are converted')
    params(ctx, e, f, short, trc, prm, ns, cnt, 'insertParam', 'R6')


def check(ctx):
    ctx.rule('R1', 'from_big_endian assembles its bytes most significant first')
    ctx.rule('R2', 'to_big_endian puts the most significant byte first')
    ctx.rule('R3', 'every IBM single-precision pattern converts to the nearest IEEE single (infinity beyond the range, ties to even below it, zero for a zero fraction)')
    ctx.rule('R4', 'the reader converts every sample it read exactly once, IBM or IEEE as the format says, and only if samples were asked for')
    ctx.rule('R5', 'the writer converts every sample once before the transfer and restores it afterwards')
    ctx.rule('R6', 'samples and headers go to and from their own place in the trace blocks')
    codecs(ctx)
    cases = sum(ctx.pmap(ibm_one, [(e, b) for e in range(128) for b in (1, 0)]))
    ctx.notes.append('%d IBM cases' % cases)
    for n in ('readTrace', 'readTraceNonContiguous'):
        reader(ctx, 'exseis::PIOL::ReadSEGY::' + n, n != 'readTrace')
    for n in ('writeTrace', 'writeTraceNonContiguous'):
        writer(ctx, 'exseis::PIOL::WriteSEGY::' + n)
