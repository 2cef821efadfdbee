"""Trace header entries.  The rule each header quantity gets is read off the summary of Rule::addRule and compared with the SEG-Y
trace header table (location, width, shared scale).  The packing and unpacking loops are summarised; every byte they write to
a header, and every value they take from one, is compared - position, width, byte order, slot - with the entry it belongs to, for
rule sets covering whole headers.  The conversion of scale factors is folded for every 16-bit scale."""
from checks.rules import *
from an.bv import BV, be_byte

FLOOR = 120
# SEG-Y rev 1 trace header: first byte, bytes
TABLE = {'SeqNum': 1, 'SeqFNum': 5, 'ORF': 9, 'TORF': 13, 'ENSrcNum': 17, 'SeqNumEns': 25, 'TIC': 29, 'VStackCnt': 31, 'HStackCnt': 33, 'CDist': 37, 'RcvElv': 41,
         'SurfElvSrc': 45, 'SrcDpthSurf': 49, 'DtmElvRcv': 53, 'DtmElvSrc': 57, 'WtrDepSrc': 61, 'WtrDepRcv': 65, 'ScaleElev': 69, 'ScaleCoord': 71, 'xSrc': 73, 'ySrc': 77,
         'xRcv': 81, 'yRcv': 85, 'UpSrc': 95, 'UpRcv': 97, 'Ns': 115, 'Inc': 117, 'xCmp': 181, 'yCmp': 185, 'il': 189, 'xl': 193, 'ShotNum': 197, 'ShotScal': 201,
         'ValMeas': 203, 'TransConst': 205, 'TransExp': 209, 'TransUnit': 211, 'TimeScal': 215, 'SrcMeas': 225, 'SrcMeasExp': 229}
F, L, H = 'Float', 'Long', 'Short'
META = {'WtrDepSrc': (F, 61, 69), 'WtrDepRcv': (F, 65, 69), 'RGElev': (F, 41, 69), 'SSElev': (F, 45, 69), 'SDElev': (F, 49, 69),
        'xSrc': (F, 73, 71), 'ySrc': (F, 77, 71), 'xRcv': (F, 81, 71), 'yRcv': (F, 85, 71), 'xCmp': (F, 181, 71), 'yCmp': (F, 185, 71), 'ShotNum': (F, 197, 201),
        'il': (L, 189), 'xl': (L, 193), 'Offset': (L, 37), 'tn': (L, 5), 'tnl': (L, 1), 'tnr': (L, 13), 'tne': (L, 25), 'SrcNum': (L, 17),
        'Tic': (H, 29), 'VStack': (H, 31), 'HStack': (H, 33), 'ns': (H, 115), 'inc': (H, 117), 'TraceUnit': (H, 203), 'TransUnit': (H, 211), 'COPY': ('Copy',)}
DEFAULTS = {'xSrc', 'ySrc', 'xRcv', 'yRcv', 'xCmp', 'yCmp', 'Offset', 'il', 'xl', 'tn'}
EXTRAS = {'tnl', 'tnr', 'tne', 'SrcNum', 'Tic', 'VStack', 'HStack', 'RGElev', 'SSElev', 'SDElev', 'ns', 'inc', 'ShotNum', 'TraceUnit', 'TransUnit'}
OPS = {'addLong': 'Long', 'addShort': 'Short', 'addSEGYFloat': 'Float', 'addIndex': 'Index', 'addCopy': 'Copy'}
SCALES = (-10000, -1000, -100, -10, 0, 1, 10, 100, 1000, 10000)


def enum(ctx, prefix):
    out = {}
    for e in ctx.db().enums.values():
        for c in e['c']:
            if c['n'].startswith(prefix):
                out[c['n'][len(prefix):]] = int(c['v'])
    return out


def check(ctx):
    ctx.rule('R1', 'the named trace header locations are those of the SEG-Y table')
    ctx.rule('R2', 'each header quantity has its width, its location and its shared scale; a rule is added at most once')
    ctx.rule('R3', 'the default and extra rule sets hold their quantities; every rule set holds the two trace indices')
    ctx.rule('R4', 'a whole-header rule set starts at byte 0 and spans 240 bytes')
    ctx.rule('R5', 'packing writes each value big-endian at its location in the header of its trace, and whole headers first')
    ctx.rule('R6', 'unpacking reads each value big-endian from its location in the header of its trace into its slot')
    ctx.rule('R7', 'scaled values are divided on writing by the scale multiplied on reading, which is written for every scaled value')
    ctx.rule('R8', 'scale 0 counts as 1, positive scales multiply, negative scales divide')
    tr, me = enum(ctx, 'PIOL_TR_'), enum(ctx, 'PIOL_META_')
    ctx.need(len(tr) > 20 and len(me) > 20, 'the location and quantity enumerations')
    anyf = ctx.fn(N + 'Rule::addRule', pt=['unsigned long'])
    for n, v in TABLE.items():
        ctx.req(tr.get(n) == v, 'R1', 'location ' + n, anyf, 'the location of %s is %s, not %d' % (n, tr.get(n), v))
    ctx.req(len(set(me.values())) == len(me), 'R1', 'quantities are distinct', anyf, 'two quantities share a number')
    table(ctx, me, anyf)
    sets(ctx, me)
    cs = codes(ctx)
    extent(ctx)
    pack(ctx, cs)
    unpack(ctx, cs)
    scale(ctx)


def table(ctx, me, f):
    e = ctx.summary(f, prim=lambda q, g: q.split('::')[-1] in OPS)
    m = S(f['ps'][0]['n'])
    adds = [pev(x) for x in e.events if x.kind == 'call' and x.name.split('::')[-1] in OPS]
    ctx.must(len(adds) >= 1, 'R2', f, 'adds nothing')
    has = sorted(set(a for x in adds for a in atoms(pcv(x), lambda z: z[0] == 'ld' and z[1][0] == 'has')))
    if not ctx.req(len(has) == 1 and has[0][2] == m, 'R2', 'presence', adds[0], 'the presence test is on %s' % ', '.join(show(h) for h in has)):
        return
    for x in adds:
        ctx.req(under(pcv(x), (has[0], 1)) == FALSE, 'R2', 'present rules stay', x, 'a rule that is present is added again')
    ctx.req(under(e.ret, (has[0], 1)) == FALSE, 'R2', 'present rules are refused', f, 'returns %s' % show(under(e.ret, (has[0], 1)))[:100])
    for n, v in me.items():
        sub1 = lambda z: subst(under(z, (has[0], 0)), {m: C(v)})
        got = [x for x in adds if sub1(pcv(x)) != FALSE]
        r = sub1(e.ret)
        w = META.get(n)
        if w is None:
            ctx.req(not got and r == FALSE, 'R2', 'quantity ' + n, got[0] if got else f, 'gets a rule or true although it has no header field')
            continue
        ok = len(got) == 1 and sub1(pcv(got[0])) == TRUE and r == TRUE
        what = '; '.join('%s(%s)' % (x.name.split('::')[-1], ', '.join(show(sub1(a)) for a in x.args)) for x in got) or 'nothing'
        if ok:
            x = got[0]
            a = [sub1(strip(z)) for z in x.args]
            ok = OPS[x.name.split('::')[-1]] == w[0] and x.obj == S('this') and a == ([C(v)] + [C(z) for z in w[1:]] if w[0] != 'Copy' else [])
        ctx.req(ok, 'R2', 'quantity ' + n, got[0] if got else f, 'the rule is %s, not %s at %s' % (what, w[0], ', '.join(str(z) for z in w[1:])))


def lists(ctx, e, v):
    """constants of a global list"""
    return None


def sets(ctx, me):
    db = ctx.db()
    fs = [f for f in db.fns if f.get('body') and f['fn'] == N + 'Rule::Rule' and len(f['ps']) == 4]
    ctx.need(len(fs) == 1, 'Rule(list, full, defaults, extras)')
    f = fs[0]
    e = ctx.summary(f, prim=lambda q, g: q.split('::')[-1] in ('addRule', 'addIndex', 'extent'))
    P = [S(p['n']) for p in f['ps']]
    ix = [x for x in e.events if x.kind == 'call' and x.name.endswith('::addIndex')]
    ctx.req(sorted(show(x.args[0]) for x in ix) == sorted(str(me[n]) for n in ('gtn', 'ltn')) and all(pcv(x) == TRUE and not x.loops for x in ix), 'R3', 'trace indices', ix[0] if ix else f,
            'index rules: %s' % ', '.join(show(x.args[0]) for x in ix))
    calls_ = [x for x in e.events if x.kind == 'call' and x.name.endswith('::addRule')]
    seen = []
    for x in calls_:
        a = x.args[0]
        lst = a[1] if a[0] == 'ld' and len(x.loops) == 1 and a[2] == ('k', x.loops[0].id) else None
        if not ctx.req(lst is not None, 'R3', 'lists are walked', x, 'adds %s' % show(a)):
            continue
        if lst == ('arr', P[0]):
            seen.append('given')
            ctx.req(pcv(x) == TRUE and x.loops[0].trip == ('size', P[0]), 'R3', 'given rules', x, 'added %s times when %s' % (show(x.loops[0].trip), show(pcv(x))))
            continue
        g = [z for z in atoms(lst, lambda z: z[0] == 'g')]
        vals = glist(db, list(g)[0][1], f) if g else None
        if not ctx.req(vals is not None, 'R3', 'known lists', x, 'adds from %s' % show(lst)):
            continue
        names = {n for n, v in me.items() if v in vals}
        for flag, want, nm in ((P[2], DEFAULTS, 'default'), (P[3], EXTRAS, 'extra')):
            if same(pcv(x), flag):
                seen.append(nm)
                ctx.req(names == want, 'R3', nm + ' rules', x, 'differ in %s' % ', '.join(sorted(names ^ want)))
                ctx.req(x.loops[0].trip in (C(len(vals)), ('size', list(g)[0])) or contains(x.loops[0].trip, lambda z: z == list(g)[0]) and x.loops[0].trip[0] == 'size', 'R3', nm + ' rules, all', x, 'added %s times' % show(x.loops[0].trip))
    ctx.req(sorted(seen) == ['default', 'extra', 'given'], 'R3', 'all lists', f, 'lists added: %s' % ', '.join(seen))
    d = [g for g in db.fns if g.get('body') and g['fn'] == N + 'Rule::Rule' and len(g['ps']) == 3]
    for g in d:
        eg = ctx.summary(g, prim=lambda q, h: h is not None and h is not g and h.get('fn') == N + 'Rule::Rule')
        Q = [S(p['n']) for p in g['ps']]
        cl = [x for x in eg.events if x.kind == 'call' and x.name.split('::')[-2] == 'Rule' and x.name.split('::')[-1] in ('Rule', 'ctor')]
        if any(x.kind == 'call' for x in cl) or not [x for x in eg.events if x.kind == 'call' and x.name.endswith('addRule')]:
            ctx.req(len(cl) == 1 and list(cl[0].args[1:]) == Q, 'R3', 'flags of Rule(full, defaults, extras)', cl[0] if cl else g, 'passes %s' % ', '.join(show(a) for x in cl for a in x.args[1:]))


def glist(db, name, f):
    """integer constants of the braced initialiser of a global"""
    g = db.globals.get(name)
    if g is None or not g.get('e'):
        return None
    out = []

    def go(x):
        if isinstance(x, dict):
            if x.get('k') in ('enumc', 'lit') and 'v' in x and str(x['v']).lstrip('-').isdigit():
                out.append(int(x['v']))
                return
            if x.get('k') == 'enumc':
                for en in db.enums.values():
                    for c in en['c']:
                        if x.get('q', '').split('::')[-1] == c['n']:
                            out.append(int(c['v']))
                return
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(g['e'])
    return out


def extent(ctx):
    f = ctx.fn(N + 'Rule::extent')
    e = ctx.summary(f)
    full = ('fld', ('fld', S('this'), 'flag'), 'fullextent')
    ctx.req(under(e.ret, (full, 1)) == C(240), 'R4', 'extent', f, 'is %s' % show(under(e.ret, (full, 1))))
    for x in e.events:
        if x.kind == 'store':
            ctx.req(under(pcv(x), (full, 1)) == FALSE, 'R4', 'extent leaves whole-header rules alone', x, 'changes %s' % show(x.obj))
    for f in ctx.db().fns:
        if f.get('body') and f['fn'] == N + 'Rule::Rule' and not f.get('copymove') and len(f['ps']) in (2, 4):
            e = ctx.summary(f, prim=lambda q, g: q.split('::')[-1] in ('addRule', 'addIndex', 'extent'))
            p = [S(q['n']) for q in f['ps'] if q['t'] == 'bool'][0]
            for fld, w in ((('start',), C(0)), (('flag', 'fullextent'), TRUE)):
                l = T
                for n in fld:
                    l = ('f', l, n)
                v = under(e.rd(l, e.final), (p, 1))
                ctx.req(v == w, 'R4', '%s after %s' % (fld[-1], '/'.join(f['pt'])), f, 'is %s' % show(v))


def canon(v, prm):
    r = ('fld', prm, 'r')
    m = {('fld', r, 'start'): C(0), ('fld', ('fld', r, 'flag'), 'fullextent'): TRUE}
    v = subst(pure(v), m)
    x = {a: C(240) for a in atoms(v, lambda z: z[0] == 'res' and z[1].endswith('Rule::extent'))}
    return subst(v, x) if x else v


def prm_moves(ctx, e, prm):
    out = []
    for x, b, i, v, trip, g in moves(e):
        x = x._replace(pc=tuple(canon(c, prm) for c in x.pc))
        b = canon(b, prm)
        if b[0] == 'p':
            b, i = b[1], add(b[2], i)
        out.append((x, b, canon(i, prm), canon(v, prm), canon(trip, prm) if trip is not None else None, canon(g, prm)))
    return out


def entry_of(x, i, prm):
    """(outer loop index, entry value, entry loop) of a write made for each trace and entry"""
    tr = ('fld', ('fld', prm, 'r'), 'translate')
    for l in x.loops:
        if l.trip is not None and contains(l.trip, lambda z: z == ('size', tr)) and l.trip[0] == 'size':
            return ('fld', ('ld', ('arr', tr), ('k', l.id)), 'second'), l
    return None, None


def live(v, sz, prm):
    for c in (EQ(C(0), sz), EQ(NULL, prm), EQ(ptrc, prm)):
        v = subst(v, {c: FALSE})
    return subst(v, {EQ(sz, C(0)): FALSE, EQ(prm, NULL): FALSE})


ptrc = ('ptrc', 1)


def headers(ctx, rule, mv, e, frm, to, fsl, tsl, sz, prm, stride, inst, f):
    """whole header copies: frm/to are bases, fsl/tsl index functions (contiguous part, per-trace index)"""
    NC = ('fld', ('fld', prm, 'r'), 'numCopy')
    cop = [w for w in mv if w[1] == to and contains(w[3], lambda z: z[0] == 'ld' and z[1] == frm) and w[0].kind == 'copy' and not entry_of(w[0], w[2], prm)[0]]
    for s0 in (1, 0):
        cs_ = []
        for w in cop:
            g = under(live(w[5], sz, prm), (EQ(C(0), stride), s0))
            ctx.req(under(subst(g, {NC: C(0)})) == FALSE, rule, inst + ' only with header copies', w[0], 'headers are copied without a header rule')
            g = under(g, (EQ(C(0), NC), 0))
            if g != FALSE:
                cs_.append((w, g))
        ok = len(cs_) == 1 and cs_[0][1] == TRUE
        if ok:
            x, b, i, v, trip, g = cs_[0][0]
            st = C(0) if s0 else stride
            z = (lambda y: subst(y, {stride: C(0)})) if s0 else (lambda y: y)
            if x.loops:
                k = ('k', x.loops[0].id)
                ok = len(x.loops) == 1 and same(x.loops[0].trip, sz) and same(z(trip), C(240))
            else:
                k = C(0)
                ok = s0 and same(z(trip), mul(C(240), sz))
            ok = ok and same(z(i), add(tsl(k, st), HOLE)) and same(z(v), ('ld', frm, add(fsl(k, st), HOLE)))
        ctx.req(ok, rule, inst + (' contiguous' if s0 else ' strided'), cs_[0][0][0] if cs_ else f, 'copied as %s' % ('; '.join('%s of %s at %s' % (show(w[4]), show(w[3]), show(w[2])) for w, g in cs_) or 'nothing'))
    return cop


def pack(ctx, cs):
    f = ctx.fn(N + 'SEGY_utils::insertParam')
    e = ctx.summary(f, prim=lambda q, g: q.split('::')[-1] in ('find_scalar', 'parse_scalar', 'extent'))
    sz, prm, buf, stride, skip = [S(p['n']) for p in f['ps']]
    mv = prm_moves(ctx, e, prm)
    r = ('fld', prm, 'r')
    step = add(C(240), stride)
    hd = headers(ctx, 'R5', mv, e, ('arr', ('fld', prm, 'c')), buf, lambda k, st: add(mul(C(240), k), mul(C(240), skip)), lambda k, st: mul(k, add(C(240), st)), sz, prm, stride, 'written headers', f)
    fields = [w for w in mv if w[1] == buf and w not in hd]
    ctx.req(not hd or all(w[0].seq > max(h[0].seq for h in hd) for w in fields), 'R5', 'headers first', fields[0][0] if fields else f, 'a field is overwritten by the header copy')
    res = {a[5] if len(a) > 5 else None: a for x in e.events for a in ()}
    done = {t: {} for t in ('Short', 'Long', 'Float', 'scale')}
    fl = [x for x in e.events if x.kind == 'std' and x.name.split('::')[-1] in ('push_back', 'emplace_back')]
    for w in fields:
        x, b, i, v, trip, g = w
        g = live(g, sz, prm)
        n = trip if trip is not None else C(1)
        outer = [l for l in x.loops if l.trip is not None and same(l.trip, sz)]
        if not ctx.req(len(outer) == 1 and isc(n), 'R5', 'fields of each trace', x, 'written for %s' % [show(l.trip) for l in x.loops if l.trip]):
            continue
        I = ('k', outer[0].id)
        rest = sub(i, mul(I, step))
        if contains(rest, lambda z: z == I):
            ctx.req(False, 'R5', 'fields of each trace', x, 'written at %s' % show(i))
            continue
        slot = lambda t, el: add(('fld', el, 'num'), mul(I, ('fld', r, 'num' + t)), mul(skip, ('fld', r, 'num' + t)))
        el, l = entry_of(x, i, prm)
        vec = None
        if el is None:
            # a list of collected entries, or the collected scales
            ls = [q for q in x.loops if q is not outer[0]]
            if len(ls) != 1:
                ctx.req(False, 'R5', 'field loops', x, 'not a loop over entries')
                continue
            bases = [a for a in atoms(rest, lambda z: z[0] == 'ld' and z[2] == ('k', ls[0].id))]
            if not ctx.req(len(bases) == 1, 'R5', 'field location', x, 'written at %s' % show(rest)):
                continue
            el, vec = list(bases)[0], ls[0]
        key = ('fld', el, 'first')
        # scale: location is the key of the collected scale
        if vec is not None and contains(rest, lambda z: z == key):
            off = sub(rest, add(key, C(-1)))
            val = ('fld', el, 'second')
            byts(ctx, done['scale'], x, off, n, v, val, 2, 'scale', g, TRUE)
            continue
        off = sub(rest, add(('fld', el, 'loc'), C(-1)))
        so = sub(rest, add(('fld', el, 'scalLoc'), C(-1)))
        if isc(subst(off, {HOLE: C(0)})):
            tys = {'Float': TRUE} if vec is not None else {t: subst(g, {('ty', el): cs[t]}) for t in TYPES if subst(g, {('ty', el): cs[t]}) != FALSE}
            if vec is not None:
                collected(ctx, e, el, vec, prm, cs, x, sz)
            if not ctx.req(len(tys) == 1 and list(tys)[0] in VEC, 'R5', 'entry type', x, 'written for entries of type %s' % ', '.join(tys)):
                continue
            t = list(tys)[0]
            a = ('ld', ('arr', ('fld', prm, VEC[t])), slot(t, el))
            if t == 'Float':
                byts(ctx, done[t], x, off, n, v, ('scaled', a, el), 4, t, g, tys[t])
            elif t in ('Long', 'Short'):
                byts(ctx, done[t], x, off, n, v, a, 4 if t == 'Long' else 2, t, g, tys[t])
            else:
                ctx.req(False, 'R5', 'entry type', x, 'index entries are not stored')
        else:
            ctx.req(False, 'R5', 'field location', x, 'written at %s' % show(rest))
    for t, w in (('Short', 2), ('Long', 4), ('Float', 4), ('scale', 2)):
        ctx.req(sorted(done[t]) == list(range(w)), 'R5', 'bytes of ' + t, f, 'bytes written: %s' % sorted(done[t]))
    scales(ctx, e, prm, cs, sz, skip, f)


def byts(ctx, done, x, off, n, v, val, width_, t, g, cond):
    o = subst(off, {HOLE: C(0)})
    if not ctx.req(isc(o), 'R5', 'position of ' + t, x, 'written at distance %s' % show(off)):
        return
    ctx.req(cond == TRUE, 'R5', 'condition of ' + t, x, 'written when %s' % show(cond))
    for b in range(n[1]):
        pos = o[1] + b
        got = subst(v, {HOLE: C(b)})
        want = val
        if val[0] == 'scaled':
            c = [a for a in atoms(got, lambda z: z[0] == 'call' and z[1].split('::')[-1] in ('lround', 'llround', 'round'))]
            if not ctx.req(len(c) == 1, 'R7', 'rounding', x, 'writes %s' % show(got)[:200]):
                return
            want = list(c)[0]
            q = want[2][0]
            a, el = val[1], val[2]
            ok = q[0] == 'f/' and q[1] == a and q[2][0] == 'res' and q[2][1].endswith('::parse_scalar')
            if not ok and q[0] in ('/', 'f/'):
                ok = False
            if ok:
                s = strip(q[2][3][0])
                ok = s[0] == 'ld' and s[1][0] == 'map' and s[2] == ('fld', el, 'scalLoc')
            ctx.req(ok, 'R7', 'value divided by the scale', x, 'writes the rounded %s' % show(q)[:200])
        wd = 64 if val[0] == 'scaled' or t == 'Long' else 16
        bv = BV(lambda a: (wd, 1) if a == want else None)
        ok = 0 <= pos < width_ and bv.bits(got, 8) == be_byte(bv, want, pos, width_)
        ctx.req(ok and pos not in done, 'R5', '%s byte %d' % (t, pos), x, 'byte %d of the field is %s' % (pos, show(got)[:160]))
        done[pos] = 1


def collected(ctx, e, el, loop, prm, cs, x, sz):
    """entries collected in a local list are exactly the scaled ones"""
    ps = [pev(y) for y in e.events if y.kind == 'std' and y.name.split('::')[-1] in ('push_back', 'emplace_back')]
    ok = len(ps) == 1
    if ok:
        p = ps[0]
        w, l = entry_of(p, None, prm)
        g = live(canon(pcv(p), prm), sz, prm)
        ok = w is not None and p.args and strip(p.args[0]) in (w, ('dyn', w)) or w is not None and p.args and contains(p.args[0], lambda z: z == w) and p.args[0][0] not in ('fld',)
        for t in TYPES:
            ok = ok and subst(g, {('ty', w): cs[t]}) == (TRUE if t == 'Float' else FALSE)
    ctx.req(ok, 'R5', 'scaled entries', ps[0] if ps else x, 'the list of scaled entries does not hold exactly those')


def scales(ctx, e, prm, cs, sz, skip, f):
    st = [pev(x) for x in e.events if x.kind == 'store' and x.obj is not None and x.obj[0] == 'i' and x.obj[1][0] == 'map']
    r = ('fld', prm, 'r')
    if not ctx.req(len(st) >= 1, 'R7', 'scales', f, 'no scale is collected'):
        return
    parts = []
    for x in st:
        el, l = entry_of(x, None, prm)
        outer = [q for q in x.loops if q.trip is not None and same(q.trip, sz)]
        if not ctx.req(el is not None and len(outer) == 1 and strip(x.obj[2]) == ('fld', el, 'scalLoc'), 'R7', 'scale of each scaled entry', x, 'scale collected for %s' % show(x.obj)):
            return
        I = ('k', outer[0].id)
        g, v = live(canon(pcv(x), prm), sz, prm), canon(x.args[0], prm)
        for t in TYPES:
            if t != 'Float':
                ctx.req(subst(g, {('ty', el): cs[t]}) == FALSE, 'R7', 'no scale for type ' + t, x, 'collected when %s' % show(g))
        parts.append((x, x.obj[2], subst(g, {('ty', el): cs['Float']}), subst(v, {('ty', el): cs['Float']})))
        val = ('ld', ('arr', ('fld', prm, 'f')), add(('fld', el, 'num'), mul(I, ('fld', r, 'numFloat')), mul(skip, ('fld', r, 'numFloat'))))
        at = lambda p: {a for u in (g, v) for a in atoms(u, p)}
        fs = at(lambda z: z[0] == 'res' and z[1].endswith('::find_scalar'))
        has = at(lambda z: z[0] == 'ld' and z[1][0] == 'has')
        old = at(lambda z: z[0] == 'ld' and z[1][0] == 'map')
        if not ctx.req(len(fs) <= 1 and all(q[3] == (val,) for q in fs) and len(has) <= 1 and len(old) <= 1, 'R7', 'scale of the value', x, 'from %s' % show(v)[:200]):
            return
        parts[-1] += (list(fs), list(has), list(old))
    bad = []
    for first in (1, 0):
        for a in SCALES if not first else (1,):
            for b in SCALES:
                last = None
                for x, loc, g, v, fs, has, old in parts:
                    def at(u):
                        u = under(u, (has[0], 1 - first)) if has else u
                        m = {z: C(b) for z in fs}
                        m.update({z: C(a) for z in old})
                        return fold(subst(u, m))
                    c = at(g)
                    if c == TRUE:
                        last = at(v)
                    elif c != FALSE:
                        last = c
                want = max(a, b) if a > 1 or b > 1 else min(a, b)
                if last != C(want):
                    bad.append((a, b, show(last) if last is not None else 'nothing'))
    ctx.req(not bad, 'R7', 'combined scale', parts[-1][0], 'scales %d and %d combine to %s' % bad[0] if bad else '')


def fold(v):
    while v[0] == 'cast' and isc(v[2]):
        v = v[2]
    m = {a: a[2] for a in atoms(v, lambda z: z[0] == 'cast' and isc(z[2]))}
    return subst(v, m) if m else v


def unpack(ctx, cs):
    f = ctx.fn(N + 'SEGY_utils::extractParam')
    e = ctx.summary(f, prim=lambda q, g: q.split('::')[-1] in ('parse_scalar', 'extent', 'from_big_endian'))
    sz, buf, prm, stride, skip = [S(p['n']) for p in f['ps']]
    mv = prm_moves(ctx, e, prm)
    r = ('fld', prm, 'r')
    step = add(C(240), stride)
    types = {}
    for x in e.events:
        if x.kind == 'call' and x.name.endswith('::from_big_endian') and x.res is not None and isinstance(x.node, dict):
            types[canon(x.res, prm)] = cvstrip(x.node.get('t', ''))
    hd = headers(ctx, 'R6', mv, e, buf, ('arr', ('fld', prm, 'c')), lambda k, st: mul(k, add(C(240), st)), lambda k, st: add(mul(C(240), k), mul(C(240), skip)), sz, prm, stride, 'read headers', f)
    done = {}
    for x, b, i, v, trip, g in mv:
        t = [t for t, a in VEC.items() if b == ('arr', ('fld', prm, a))]
        if not t:
            if b[0] == 'arr' and b[1] == ('fld', prm, 'c') and not any(w[0] is x or w[0].seq == x.seq for w in hd):
                ctx.req(False, 'R6', 'header copies', x, 'the header copies are written at %s' % show(i))
            continue
        t = t[0]
        el, l = entry_of(x, i, prm)
        outer = [q for q in x.loops if q.trip is not None and same(q.trip, sz)]
        if not ctx.req(el is not None and len(outer) == 1 and len(x.loops) == 2 and trip is None, 'R6', 'slots of ' + t, x, 'not stored once for each trace and entry'):
            continue
        I = ('k', outer[0].id)
        g = live(g, sz, prm)
        for u in TYPES:
            ctx.req(subst(g, {('ty', el): cs[u]}) == (TRUE if u == t else FALSE), 'R6', 'slots of %s, entries of %s' % (t, u), x, 'stored for entries of type %s when %s' % (u, show(g)))
        ctx.req(same(i, add(('fld', el, 'num'), mul(I, ('fld', r, 'num' + t)), mul(skip, ('fld', r, 'num' + t)))), 'R6', 'slot of ' + t, x, 'stored at %s' % show(i))
        at = lambda o: add(mul(I, step), ('fld', el, o), C(-1))

        def be(v, o, n, ty):
            v0 = v
            while v0[0] in ('cast',) and v0[2][0] == 'res':
                v0 = v0[2]
            if v0[0] == 'res' and v0[1].endswith('::from_big_endian'):
                bs = list(v0[3])
                if len(bs) == 1 and bs[0][0] in ('vec',):
                    bs = [Engine.fillval(None, bs[0][3], C(q)) for q in range(n)]
                return types.get(v0) == ty and bs == [('ld', buf, add(at(o), C(q))) for q in range(n)]
            bs = [('ld', buf, add(at(o), C(q))) for q in range(n)]
            bv = BV(lambda a: (8, 0) if a in bs else None)
            return bv.bits(v, 8 * n) == [('b', q, k) for q in reversed(bs) for k in range(8)]
        done[t] = done.get(t, 0) + 1
        if t == 'Float':
            ps = sorted(atoms(v, lambda z: z[0] == 'res' and z[1].endswith('::parse_scalar')), key=repr)
            if not ctx.req(len(ps) == 1 and be(ps[0][3][0], 'scalLoc', 2, 'short'), 'R7', 'scale read', x, 'scaled by %s' % (show(ps[0])[:200] if ps else 'nothing')):
                continue
            rest = sorted(atoms(v, lambda z: z[0] == 'res' and z[1].endswith('::from_big_endian') and z not in _inner(ps[0])), key=repr)
            ok = len(rest) == 1 and be(rest[0], 'loc', 4, 'int') and v == mul(ps[0], rest[0])
            ctx.req(ok, 'R7', 'value multiplied by the scale', x, 'the value is %s' % show(v)[:200])
        elif t in ('Long', 'Short'):
            ctx.req(be(v, 'loc', 4 if t == 'Long' else 2, 'int' if t == 'Long' else 'short'), 'R6', 'value of ' + t, x, 'the value is %s' % show(v)[:200])
        else:
            ctx.req(False, 'R6', 'index slots', x, 'index values do not come from the header')
    for t in ('Short', 'Long', 'Float'):
        ctx.req(done.get(t) == 1, 'R6', 'stored ' + t, f, '%d stores' % done.get(t, 0))


def _inner(v):
    return atoms(v, lambda z: z[0] == 'res' and z[1].endswith('::from_big_endian'))


def scale(ctx):
    f = ctx.fn(N + 'SEGY_utils::parse_scalar')
    v = ctx.summary(f).ret
    s = S(f['ps'][0]['n'])
    bad = []
    for n in list(range(-32768, 32768, 97)) + list(SCALES) + [-1, 2, -2, 32767]:
        got = num(subst(v, {s: C(n)}))
        want = 1.0 if n == 0 else float(n) if n > 0 else 1.0 / -n
        if got != want:
            bad.append((n, got))
    ctx.req(not bad, 'R8', 'parse_scalar', f, 'scale %d is taken as %s' % (bad[0] if bad else (0, '')))


def num(v):
    if v is None:
        return None
    if v[0] == 'c':
        return float(v[1])
    if v[0] == 'f':
        return float(v[1].rstrip('fFlL'))
    if v[0] in ('cast', 'trunc'):
        return num(v[2])
    if v[0] in ('f/', '/'):
        a, b = num(v[1]), num(v[2])
        return a / b if a is not None and b else None
    if v[0] == '*':
        p = 1.0
        for x in v[1]:
            q = num(x)
            if q is None:
                return None
            p *= q
        return p
    return None


from an.sym import cvstrip, Engine
