"""C++ forwarding layers.  Every operation of the direct classes, the header-only operations of the file interfaces and the object
interface is summarised with the layer below opaque: one call of the operation of its own name on the layer below, with its own
arguments in order, nothing else, and that operation's result returned."""
from an.spec import *
from an.db import walk
from checks.fwd import forward

FLOOR = 70
N = 'exseis::PIOL::'
NOSKIP = ('ptrc', 0)


def check(ctx):
    ctx.rule('R1', 'operations of ReadDirect and WriteDirect perform the operation of their name on the file they hold')
    ctx.rule('R2', 'header-only access is trace access without samples, with the same traces, headers and skip')
    ctx.rule('R3', 'trivial queries return the member the reader filled')
    ctx.rule('R4', 'the object layer asks the data layer for the file size')
    ctx.rule('R5', 'the object behind a direct class is the file it was given')
    db = ctx.db()
    this = ('d', S('this'))
    n = 0
    for cls in ('ReadDirect', 'WriteDirect'):
        file = None
        for f in db.fns:
            if not f.get('body') or f.get('cls') != N + cls or f['nm'].startswith('~') or f['nm'] == cls or f.get('impl'):
                continue
            if f['nm'].startswith('operator'):
                continue
            e = ctx.summary(f, prim=lambda q, g: g is not f and not q.startswith('std::'))
            n += 1
            c = forward(ctx, 'R1', f, e, f['nm'], None, [S(p['n']) for p in f['ps']], f.get('ret') not in ('void', None), cls + '::' + f['nm'], extra=(C(0),))
            if c:
                o = c[0].obj
                file = file or o
                ctx.req(o == file and o is not None and o[0] == 'fld' and o[1] == S('this'), 'R1', cls + '::' + f['nm'] + ' file', c[0], 'acts on %s' % (show(o) if o else '?'))
        ctx.need(file is not None, cls + ' operations')
        for f in db.fns:
            if f.get('body') and f.get('cls') == N + cls and f['nm'] == cls and len(f['ps']) == 1 and 'shared_ptr' in f['pt'][0]:
                e = ctx.summary(f)
                v = e.rd(('f', this, file[2]), e.final)
                ctx.req(v == S(f['ps'][0]['n']), 'R5', cls, f, 'holds %s' % show(v))
        gets = [f for f in db.fns if f.get('body') and f.get('cls') == N + cls and f['nm'].startswith('operator') and f['nm'] != 'operator=']
        for f in gets:
            e = ctx.summary(f)
            ctx.req(e.ret is not None and contains(e.ret, lambda z: z == file), 'R5', cls + '::' + f['nm'], f, 'returns %s' % (show(e.ret) if e.ret else 'nothing'))
    ctx.need(n >= 17, 'operations of the direct classes')
    TN = ('g', N + 'TRACE_NULL')
    for cls, a, b, nc in (('ReadInterface', 'readParam', 'readTrace', 0), ('ReadInterface', 'readParamNonContiguous', 'readTraceNonContiguous', 1),
                          ('WriteInterface', 'writeParam', 'writeTrace', 0), ('WriteInterface', 'writeParamNonContiguous', 'writeTraceNonContiguous', 1)):
        f = ctx.fn(N + cls + '::' + a)
        e = ctx.summary(f, prim=lambda q, g: g is not f and not q.startswith('std::'))
        P = [S(p['n']) for p in f['ps']]
        c = [x for x in e.events if x.kind == 'call']
        forward(ctx, 'R2', f, e, b, S('this'), P[:2] + [TN] + P[2:], False, cls + '::' + a)
    tn = [g for g in db.globals if g == N + 'TRACE_NULL'] if hasattr(db, 'globals') else []
    names = {}
    for q in ('readText', 'readNs', 'readInc'):
        f = ctx.fn(N + 'ReadInterface::' + q)
        r = ctx.summary(f).ret
        if r is not None and r[0] == 'LOC':
            r = r[1]
        ok = r is not None and r[0] in ('fld', 'f')
        ctx.req(ok and r[2] not in names, 'R3', q, f, 'returns %s' % (show(r) if r else 'nothing'))
        if ok:
            names[r[2]] = q
    r = ctx.fn(N + 'ReadSEGY::readNt')
    v = ctx.summary(r).ret
    ctx.req(v is not None and v[0] == 'fld' and v[2] not in names, 'R3', 'readNt', r, 'returns %s' % (show(v) if v else 'nothing'))
    for q in ('getFileSz', 'setFileSz'):
        f = ctx.fn(N + 'ObjectInterface::' + q)
        e = ctx.summary(f, prim=lambda q, g: g is not f and not q.startswith('std::'))
        c = forward(ctx, 'R4', f, e, q, None, [S(p['n']) for p in f['ps']], q == 'getFileSz', 'ObjectInterface::' + q)
        if c:
            ctx.req(c[0].obj is not None and c[0].obj[0] == 'fld', 'R4', q + ' layer', c[0], 'asks %s' % show(c[0].obj))
