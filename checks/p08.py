"""The file header.  Writer: the byte map of the buffer handed to the header transfer is reconstructed from the summary
of the closing code (every byte 0..3599, bit by bit, for text unset and set) and compared with the SEG-Y table.
Reader: the fields are compared bit by bit with the same table, and the text decoding with the ASCII/EBCDIC choice.
Setters: the value given is the value stored, the text is padded or cut to exactly 3200 bytes."""
from an.spec import *
from an.bv import *
from checks.common import *

FLOOR = 30
T = ('d', S('this'))


def vtype(ctx, vid):
    for f in ctx.db().fns:
        st = [f.get('body')]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('id') == vid and 't' in x and x.get('k') in ('vardecl', 'var', None):
                    return x['t']
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
    return ''


def round_of(v):
    """v is some rounding of an argument -> the argument"""
    while v[0] == 'cast':
        v = v[2]
    if v[0] == 'call' and v[1].split('::')[-1] in ('lround', 'llround', 'round', 'rint', 'lrint', 'nearbyint', 'llrint', 'roundl', 'lroundf'):
        return v[2][0]
    return None


def fval(v):
    return float(v[1]) if v[0] in ('f', 'c') else None


def check(ctx):
    ctx.rule('R1', 'every byte of the written file header holds what the SEG-Y table assigns to it')
    ctx.rule('R2', 'header fields are read from the same bytes, with the same byte order and scale')
    ctx.rule('R3', 'setters store the given value; the text is exactly 3200 bytes')
    ctx.rule('R4', 'reader and writer use the same sample-interval unit (microsecond)')
    ctx.rule('R5', 'text is returned unchanged when ASCII and converted when EBCDIC')
    e, f = writer_dtor(ctx)
    F = lambda n: ('fld', S('this'), n)
    hdr = [x for y in calls(e, 'writeHO') for x in alts(y, 0) if x.args[0] != NULL]
    ctx.must(len(hdr) >= 1, 'R1', f, 'never writes a header')
    txt = F('text')
    for x in hdr:
        ctx.need(x.args[0][0] == 'p' and isc(x.args[0][2]), 'header buffer not understood')
        base, o = x.args[0][1], x.args[0][2][1]
        g = pcv(x)
        zero = 'vector' in vtype(ctx, base[1][2]) if base[1][0] == 'v' else False
        bv = BV()
        for size in (0, 3200):
            def byte(b):
                v = content(e, base, b + o, x, C(0) if zero else S('uninitialised'), g)
                if v is None:
                    return None
                v = subst(v, {('size', txt): C(size)})
                for k in x.pc:
                    v = assume(v, k[1] if k[0] == 'not' else k, 0 if k[0] == 'not' else 1) if k[0] in ('not',) or not isc(k) else v
                return v
            want = {}
            for b in range(3600):
                want[b] = C(0)
            if size:
                for b in range(3200):
                    want[b] = ('ld', ('arr', txt), C(b))
            for loc, val in ((3221, F('ns')), (3225, C(5)), (3255, C(1)), (3501, C(0x0100)), (3503, C(1)), (3505, C(0))):
                for i in range(2):
                    want[loc - 1 + i] = ('be', val, i)
            bad = {}
            for b in range(3600):
                if b in (3216, 3217):
                    continue
                v = byte(b)
                w = want[b]
                wb = be_byte(bv, w[1], w[2], 2) if w[0] == 'be' else bv.bits(w, 8)
                if v is None or bv.bits(v, 8) != wb:
                    bad[b] = v
            fields = {'text': range(0, 3200), 'samples per trace': (3220, 3221), 'format code': (3224, 3225), 'units': (3254, 3255), 'revision': (3500, 3501), 'fixed length flag': (3502, 3503), 'extension count': (3504, 3505)}
            rest = set(range(3200, 3600)) - set().union(*map(set, fields.values())) - {3216, 3217}
            fields['unassigned bytes'] = rest
            for n, bs in fields.items():
                bb = [b for b in bs if b in bad]
                ctx.req(not bb, 'R1', '%s (%s)' % (n, 'no text' if not size else 'text'), x,
                        'byte %d of the header holds %s' % (bb[0] + 1 if bb else 0, show(bad[bb[0]]) if bb and bad[bb[0]] is not None else '?'))
            hi, lo = byte(3216), byte(3217)
            okk = False
            if hi is not None and lo is not None:
                ats = {t[1] for t in bv.bits(hi, 8) + bv.bits(lo, 8) if isinstance(t, tuple) and t[0] == 'b'}
                if len(ats) == 1:
                    a = ats.pop()
                    r = round_of(a)
                    okk = r in (('f/', F('inc'), F('incFactor')),) and bv.bits(hi, 8) == be_byte(bv, a, 0, 2) and bv.bits(lo, 8) == be_byte(bv, a, 1, 2)
            ctx.req(okk, 'R1', 'sample interval (%s)' % ('no text' if not size else 'text'), x, 'bytes 3217-3218 must hold the interval divided by the unit, rounded to nearest, as a big-endian 16-bit integer; they hold %s %s' % (show(hi) if hi else hi, show(lo) if lo else lo))
    # reader
    e, f = reader_ctor(ctx)
    H = [x for x in calls(e, 'readHO')]
    ctx.must(len(H) >= 1, 'R2', f, 'does not read the header')
    ctx.need(len(H) == 1, 'the reader reads the header %d times' % len(H))
    h = H[0]
    ob = lambda b: ('outel', h.name, 0, h.seq, C(b))
    isb = lambda a: 'unsigned char' if a[0] == 'outel' else None
    bv = BV(isb)
    given = pcv(h)

    def field(n):
        v = e.field(n)
        for k in h.pc:
            v = assume(v, k[1] if k[0] == 'not' else k, 0 if k[0] == 'not' else 1)
        return v
    i16 = lambda b: bv.bits(('cast', 'short', ('|', (('+', (((ob(b - 1),), 256),)), ob(b)))), 64)
    nsb = bv.bits(field('ns'), 64)
    ctx.req(nsb == i16(3221), 'R2', 'samples per trace', f, 'must be the big-endian 16-bit integer at bytes 3221-3222; is %s' % show(field('ns')))
    fm = [v for v in e.final.env.items() if v[0][0] == 'f' and v[0][1] == T]
    nf = e.field('number_format')
    for k in h.pc:
        nf = assume(nf, k[1] if k[0] == 'not' else k, 0 if k[0] == 'not' else 1)
    ctx.req(bv.bits(nf, 16) == i16(3225)[:16], 'R2', 'format code', f, 'must be the big-endian 16-bit integer at bytes 3225-3226; is %s' % show(nf))
    inc = field('inc')
    fac = ('fld', S('opt'), 'incFactor')
    want = [mul(fac, a) for a in atoms(inc, lambda a: a[0] == 'cast') if bv.bits(a, 64) == i16(3217)]
    ctx.req(any(same(inc, w) for w in want), 'R2', 'sample interval', f, 'must be the unit times the big-endian 16-bit integer at bytes 3217-3218; is %s' % show(inc))
    # options
    for cls in ('ReadSEGY', 'WriteSEGY'):
        g = ctx.fn('exseis::PIOL::%s::Opt::Opt' % cls)
        eo = ctx.summary(g)
        v = eo.rd(('f', ('d', S('this')), 'incFactor'), eo.final)
        ctx.req(fval(v) == 1e-6, 'R4', cls + ' unit', g, 'the default unit of the interval is one microsecond, not %s' % show(v))
    cs = [g for g in ctx.db().find('exseis::PIOL::WriteSEGY::WriteSEGY') if len(g['ps']) > 3]
    for g in cs:
        ew = ctx.summary(g, prim=LOG)
        v = ew.rd(('f', T, 'incFactor'), ew.final)
        ctx.req(v == ('fld', S(g['ps'][2]['n']), 'incFactor'), 'R4', 'writer stores the unit', g, 'the unit used for writing is %s' % show(v))
    # text
    tw = []
    for x in e.events:
        if x.kind in ('copy', 'fill'):
            d = x.args[2] if x.kind == 'copy' else x.args[0]
            if d[0] == 'p' and d[1] in (('arr', ('fld', S('this'), 'text')), ('arr', ('f', T, 'text'))):
                tw.append((x, d[2], x.args[1], x.args[3] if x.kind == 'copy' else x.args[2]))
    ctx.must(tw, 'R5', f, 'never stores the text')
    asc = [t for t in tw if same(t[3], ('outel', h.name, 0, h.seq, HOLE))]
    ebc = [t for t in tw if t not in asc]
    for t in tw:
        ctx.req(same(t[1], C(0)) and same(t[2], C(3200)), 'R2', 'text' if t in asc else 'text (EBCDIC)', t[0], 'the text is the first 3200 bytes; copied %s bytes to position %s' % (show(t[2]), show(t[1])))
    cnt = lambda which: [a for x in e.events for a in atoms(AND(*x.pc), lambda a: a[0] == 'call' and a[1] == 'std::count_if' and str(a[2][2]).find(which) >= 0)]
    na, ne = cnt('is_printable_ASCII'), cnt('is_printable_EBCDIC')
    ctx.need(na and ne, 'the printable-character counts that choose the encoding')
    for c in (na[0], ne[0]):
        b = c[2]
        ctx.req(b[0][0] == 'p' and b[0][1] == h.args[0][1] and b[0][2] == C(0) and same(sub(b[1][2], b[0][2]), C(3200)), 'R5', 'counted range ' + show(c[2][2])[-12:], f, 'characters are counted over the 3200 text bytes; counted %s' % show(c))
    more = LT(ne[0], na[0])
    gg = OR(*[AND(*[p for p in t[0].pc if p not in h.pc]) for t in asc])
    ctx.req(len(asc) >= 1 and same(gg, more), 'R5', 'ASCII', f, 'the text must be copied unchanged exactly when more characters are printable ASCII than EBCDIC; copied when %s' % show(gg))
    gg = OR(*[AND(*[p for p in t[0].pc if p not in h.pc]) for t in ebc])
    conv = ctx.summary('exseis::utils::to_ASCII_from_EBCDIC')
    src = ('outel', h.name, 0, h.seq, HOLE)
    ok = len(ebc) >= 1 and same(gg, NOT(more))
    ctx.req(ok, 'R5', 'EBCDIC', f, 'the text must be converted exactly when it is not ASCII; converted when %s' % show(gg))
    pn = ctx.fn('exseis::utils::to_ASCII_from_EBCDIC')['ps'][0]['n']
    wantc = subst(conv.ret, {S(pn): src})
    for t in ebc:
        strip = lambda v: subst(v, {a: ('lam', 0, (), 0) for a in atoms(v, lambda a: a[0] == 'lam')})
        ctx.req(same(strip(unch(t[3])), strip(unch(wantc))), 'R5', 'EBCDIC conversion', t[0], 'each EBCDIC byte must be converted by the table; stored %s' % show(t[3]))
    # setters
    for n, fld_ in (('writeText', 'text'), ('writeNs', 'ns'), ('writeInc', 'inc')):
        g = ctx.fn('exseis::PIOL::WriteSEGY::' + n)
        p = S(g['ps'][0]['n'])
        es = ctx.summary(g, prim=LOG)
        rec = [AND(*x.pc) for x in calls(es, 'record')]
        okc = NOT(OR(*rec)) if rec else TRUE
        if n == 'writeText':
            st = [x for x in es.events if x.kind == 'store' and x.obj == ('f', T, 'text') and x.args[0] == p]
            sz = es.rd(('f', T, 'text'), es.final)
            szv = sz[2] if sz[0] == 'vec' else ('size', sz)
            ch = OR(*[AND(*x.pc) for x in st])
            ctx.req(bool(st) and same(ITE(ch, szv, C(0)), ITE(ch, C(3200), C(0))), 'R3', n, g, 'the stored text must be the given one, exactly 3200 bytes long; its length is %s' % show(szv))
            diff = ch[1] if ch[0] == 'not' else ch
            ctx.req(ch == TRUE or (diff[0] in ('call', '==') and set(diff[2] if diff[0] == 'call' else diff[1:]) == {F('text'), p}), 'R3', n + ' when', g, 'the text is only stored when %s' % show(ch))
            continue
        v = es.rd(('f', T, fld_), es.final)
        ctx.req(same(ITE(okc, v, C(0)), ITE(okc, p, C(0))), 'R3', n, g, 'an accepted value must be stored; the field becomes %s' % show(v))
        ctx.req(same(ITE(okc, C(0), v), ITE(okc, C(0), F(fld_))), 'R3', n + ' refused', g, 'a refused value must leave the field unchanged; the field becomes %s' % show(v))
        if n == 'writeInc':
            r = ('call', 'lround', (('f/', p, F('incFactor')),))
            big = [a for a in atoms(okc, lambda a: a[0] == 'call' and round_of(a) == ('f/', p, F('incFactor')))]
            ctx.req(implies(LT(C(32767), big[0] if big else r), NOT(okc)), 'R3', 'interval limit', g, 'an interval that does not fit the 16-bit field must be refused; refused when %s' % show(NOT(okc)))
        if n == 'writeNs':
            ctx.req(implies(LT(C(32767), p), NOT(okc)) , 'R3', 'ns limit', g, 'a sample count above 32767 does not fit the 16-bit field and must be refused; refused when %s' % show(NOT(okc)))
            ctx.req(implies(NOT(LT(C(32767), p)), okc), 'R3', 'ns accepted', g, 'every sample count up to 32767 must be accepted; refused when %s' % show(NOT(okc)))


def unch(v):
    m = {a: a[2] for a in atoms(v, lambda a: a[0] == 'cast' and a[1] in ('char', 'unsigned char', 'signed char'))}
    return subst(v, m)
