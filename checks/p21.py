"""Character codes of header texts.  The conversions are evaluated on each of the 256 codes, with the tables worked out from their
initialisers (sorting included), and compared with the standard tables."""
from checks.common import *

FLOOR = 1000
U = 'exseis::utils::'
SUB_A, SUB_E = 0x1A, 0x3F
OPEN = {'[': 0, ']': 0, '^': 0}     # at different places in different EBCDIC code pages


def table():
    """EBCDIC code of each ASCII code, without the ones that differ between code pages"""
    return {a: bytes([a]).decode('latin-1').encode('cp037')[0] for a in range(128) if chr(a) not in OPEN}


PLACES = {'[': {0xBA, 0x4A, 0xAD}, ']': {0xBB, 0x5A, 0xBD}, '^': {0xB0, 0x5F}}


def check(ctx):
    ctx.rule('R1', 'every EBCDIC code converts to the ASCII code of the same character, and to the substitute if there is none')
    ctx.rule('R2', 'every ASCII code converts to the EBCDIC code of the same character, and to the substitute if there is none')
    ctx.rule('R3', 'converting a character and converting it back gives the same character')
    ctx.rule('R4', 'exactly the printable characters are printable, in both codes')
    ctx.db()
    g = {}
    fs = {q: ctx.fn(U + q, 1) for q in ('to_ASCII_from_EBCDIC', 'to_EBCDIC_from_ASCII', 'is_printable_ASCII', 'is_printable_EBCDIC')}

    def val(q, k):
        e = ctx.summary(fs[q], args=[C(k)], ctors=True, constglob=g, unroll=300)
        ctx.need(e.ret is not None and isc(e.ret), '%s of code %d: %s' % (q, k, show(e.ret)[:100] if e.ret else ''))
        return e.ret[1] if q.startswith('is_') else e.ret[1] % 256
    toa = {k: val('to_ASCII_from_EBCDIC', k) for k in range(256)}
    toe = {k: val('to_EBCDIC_from_ASCII', k) for k in range(256)}
    t = table()
    back = {e: a for a, e in t.items()}
    for k in range(256):
        f = fs['to_ASCII_from_EBCDIC']
        if k in back:
            ctx.req(toa[k] == back[k], 'R1', 'code 0x%02X' % k, f, 'becomes 0x%02X instead of 0x%02X' % (toa[k], back[k]))
        else:
            ok = {SUB_A} | ({0xFF} if k == 0xFF else set()) | {ord(c) for c in PLACES if k in PLACES[c]}
            ctx.req(toa[k] in ok, 'R1', 'code 0x%02X' % k, f, 'becomes 0x%02X, and is no such character' % toa[k])
        f = fs['to_EBCDIC_from_ASCII']
        if k in t:
            ctx.req(toe[k] == t[k], 'R2', 'code 0x%02X' % k, f, 'becomes 0x%02X instead of 0x%02X' % (toe[k], t[k]))
        else:
            ok = {SUB_E} | ({0xFF} if k == 0xFF else set()) | PLACES.get(chr(k), set())
            ctx.req(toe[k] in ok, 'R2', 'code 0x%02X' % k, f, 'becomes 0x%02X, and is no such character' % toe[k])
        f = fs['to_EBCDIC_from_ASCII']
        ctx.req(toe[k] == SUB_E or toa[toe[k]] == k, 'R3', 'ASCII 0x%02X' % k, f, 'comes back as 0x%02X' % toa[toe[k]])
        f = fs['to_ASCII_from_EBCDIC']
        ctx.req(toa[k] == SUB_A or toe[toa[k]] == k, 'R3', 'EBCDIC 0x%02X' % k, f, 'comes back as 0x%02X' % toe[toa[k]])
        v = val('is_printable_ASCII', k)
        ctx.req(bool(v) == (0x20 <= k <= 0x7E), 'R4', 'ASCII 0x%02X' % k, fs['is_printable_ASCII'], 'is taken as %sprintable' % ('' if v else 'not '))
        v = val('is_printable_EBCDIC', k)
        ctx.req(bool(v) == (0x20 <= toa[k] <= 0x7E), 'R4', 'EBCDIC 0x%02X' % k, fs['is_printable_EBCDIC'], 'is taken as %sprintable' % ('' if v else 'not '))
