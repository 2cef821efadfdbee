"""The order of each sort type.  Every comparison function that a sort type selects is summarised as one boolean expression over the
quantities of the two traces; it is evaluated for all combinations of less, equal and greater of its documented keys (and no other
quantity), which decides it for every pair of traces.  The order check is matched against the pairs of neighbouring traces."""
import itertools
from checks.common import *

FLOOR = 12
N = 'exseis::PIOL::'
G = N + 'param_utils::getPrm'
SRC, RCV = ('xSrc', 'ySrc'), ('xRcv', 'yRcv')
KEYS = {
    'SrcRcv': SRC + RCV, 'SrcOff': SRC + ('=off',), 'SrcROff': SRC + ('Offset',), 'RcvOff': RCV + ('=off',), 'RcvROff': RCV + ('Offset',),
    'LineOff': ('il', 'xl', '=off'), 'LineROff': ('il', 'xl', 'Offset'), 'OffLine': ('=off', 'il', 'xl'), 'ROffLine': ('Offset', 'il', 'xl'),
}
FLOATS = ('double',)
INTS = ('long', 'long long', 'exseis::utils::Integer')


def check(ctx):
    ctx.rule('R1', 'every sort type selects a comparison by the keys of its name, in order, ties broken by trace number')
    ctx.rule('R2', 'sorting and checking by type use the comparison of the type')
    ctx.rule('R3', 'a file is in order when every trace of the block follows the one before it, including the last of the block before')
    orders(ctx)
    uses(ctx)
    ordered(ctx)


def consts(ctx, prefix):
    out = {}
    for e in ctx.db().enums.values():
        for c in e['c']:
            if c['n'].startswith(prefix):
                out[c['n'][len(prefix):]] = int(c['v'])
    return out


def byusr(ctx, u):
    db = ctx.db()
    if u in db.byusr:
        return db.byusr[u]
    k = [k for k in db.byusr if k.startswith(u + '@')]
    return db.byusr[k[0]] if k else None


def orders(ctx):
    f = ctx.fn(N + 'getComp')
    e = ctx.summary(f)
    ctx.need(e.ret is not None, 'the comparison selected')
    meta = consts(ctx, 'PIOL_META_')
    t = S(f['ps'][0]['n'])
    types = consts(ctx, 'PIOL_SORTTYPE_')
    ctx.need(set(types) >= set(KEYS), 'the sort types')
    for ty, n in sorted(types.items()):
        if ty not in KEYS:
            continue
        v = ITE(TRUE, subst(e.ret, {t: C(n)}), NULL)
        v = settle(v)
        if v[0] == 'p' and v[1][0] == 'fn':
            v = v[1]
        g = byusr(ctx, v[2]) if v[0] == 'fn' else ctx.db().lam.get(v[1]) if v[0] == 'lam' else None
        if not ctx.req(v[0] in ('fn', 'lam', 'closure'), 'R1', ty, f, 'selects %s' % show(v)):
            continue
        ctx.need(g is not None, 'the comparison function of ' + ty)
        compare(ctx, ty, g, KEYS[ty] + ('ltn',), meta)


def settle(v):
    for _ in range(20):
        if v[0] != 'ite':
            break
        cs = [c for c in conds(v)]
        w = v
        for c in cs:
            if c[0] == '==' and isc(c[1]) and isc(c[2]):
                w = assume(w, c, int(c[1] == c[2]))
        if w == v:
            break
        v = w
    return v


def compare(ctx, ty, g, keys, meta):
    e = ctx.summary(g, prim=lambda q, f: q == G, unroll=8)
    prm, i, j = [S(p['n']) for p in g['ps']]
    m = {}
    bad = []
    for a in atoms(e.ret, lambda z: z[0] in ('res', 'call') and z[1] == G):
        A = a[3] if a[0] == 'res' else a[2][1:]
        k = [n for n, c in meta.items() if C(c) == A[1]]
        w = [x for x, y in (('i', i), ('j', j)) if A[0] == y]
        if not k or not w or A[2] != prm:
            bad.append(a)
            continue
        rt = e.rtypes.get(a[5]) if a[0] == 'res' else None
        rt = rt.replace('const ', '') if rt else 'double'
        okt = rt in FLOATS if k[0] in SRC + RCV + ('xCmp', 'yCmp') else rt in INTS + FLOATS if k[0] != 'ltn' else rt in INTS + ('unsigned long', 'size_t')
        ctx.req(okt, 'R1', '%s: %s' % (ty, k[0]), g, 'compares %s as %s' % (k[0], rt))
        m[a] = S(k[0] + '.' + w[0])
    if not ctx.req(not bad, 'R1', ty + ': traces', g, 'compares %s' % ', '.join(show(b) for b in bad)):
        return
    v = subst(e.ret, m)

    def key(n, w):
        if n != '=off':
            return S('%s.%s' % (n, w))
        dx = sub(key('xSrc', w), key('xRcv', w))
        dy = sub(key('ySrc', w), key('yRcv', w))
        return add(mul(dx, dx), mul(dy, dy))
    D = {n: sub(key(n, 'j'), key(n, 'i')) for n in keys}
    # atoms: the sign of the difference of one key
    know = {}
    for a in comparisons(v):
        d = sub(a[2], a[1])
        hit = [(n, s) for n in keys for s in (1, -1) if same(d, D[n] if s == 1 else sub(C(0), D[n]))]
        if not ctx.req(hit, 'R1', ty + ': keys', g, 'depends on %s' % show(a)):
            return
        know[a] = hit[0]
    used = {n for n, _ in know.values()}
    ctx.req(used == set(keys), 'R1', ty + ': all keys', g, 'does not compare %s' % ', '.join(sorted(set(keys) - used)))
    wrong = None
    for sg in itertools.product((1, 0, -1), repeat=len(keys)):
        s = dict(zip(keys, sg))
        w = v
        for a, (n, d) in know.items():
            x = s[n] * d
            w = subst(w, {a: C(int(x > 0) if a[0] == '<' else int(x == 0))})
        want = next((x > 0 for x in sg if x), False)
        w = fold(w)
        if w != (TRUE if want else FALSE):
            wrong = s
            break
    ctx.req(wrong is None, 'R1', ty + ': order', g, 'is wrong when %s' % ', '.join('%s %s' % (n, {1: 'less', 0: 'equal', -1: 'greater'}[x]) for n, x in (wrong or {}).items()))


def comparisons(v):
    return sorted(atoms(v, lambda z: z[0] in ('<', '==')), key=str)


def fold(v):
    """evaluate a boolean expression of constants"""
    if not isinstance(v, tuple):
        return v
    k = v[0]
    if k == 'not':
        x = fold(v[1])
        return NOT(x)
    if k == 'and':
        return AND(*[fold(x) for x in v[1]])
    if k == 'or':
        return OR(*[fold(x) for x in v[1]])
    if k == 'ite':
        c = fold(v[1])
        return fold(v[2]) if c == TRUE else fold(v[3]) if c == FALSE else v
    return v


def uses(ctx):
    comp = lambda x: x.res if x.res is not None else None
    n = 0
    for f in ctx.db().fns:
        if not f.get('body') or not f['fn'].startswith('exseis::') or f['fn'].endswith('getComp'):
            continue
        ps = [p for p in f['ps'] if 'SortType' in p['t'] or p['n'] == 'type' and 'long' in p['t']]
        short = f['fn'].split('::')[-1]
        if short not in ('sort', 'checkOrder') or not ps or any('Comp' in p['t'] for p in f['ps']):
            continue
        e = ctx.summary(f, prim=lambda q, g: g is not f and (q.split('::')[-1] in ('getComp', 'sort', 'readParam', 'sortP') or q.endswith('Param::ctor')))
        T = calls(e, 'getComp')
        if not ctx.req(len(T) == 1 and T[0].args[0] == S(ps[0]['n']), 'R2', '%s by type (%d parameters)' % (f['fn'], len(f['ps'])), T[0] if T else f, 'does not use the comparison of its type'):
            continue
        n += 1
        if short == 'sort':
            X = calls(e, 'sort')
            if ctx.req(len(X) == 1 and pcv(X[0]) == TRUE, 'R2', f['fn'] + ' sorts', X[0] if X else f, 'sorts %d times' % len(X)):
                x = X[0]
                ctx.req(T[0].res in x.args or any(contains(a, lambda z: z == T[0].res) for a in x.args), 'R2', f['fn'] + ' comparison', x, 'sorts with %s' % ', '.join(show(a) for a in x.args))
                pr = [S(p['n']) for p in f['ps'] if 'Param' in p['t']]
                ctx.req(all(p in x.args for p in pr), 'R2', f['fn'] + ' parameters', x, 'sorts %s' % ', '.join(show(a) for a in x.args))
                fo = [a for a in x.args if isc(a)]
                ctx.req(not fo or fo == [TRUE], 'R2', f['fn'] + ' order', x, 'asks for %s' % ', '.join(show(a) for a in x.args))
    ctx.need(n >= 2, 'sorting and checking by type')


def ordered(ctx):
    f = [g for g in ctx.db().fns if g.get('body') and g['fn'] == N + 'checkOrder' and len(g['ps']) == 3]
    ctx.need(len(f) == 1, 'the order check')
    f = f[0]
    why = general(ctx, f)
    if not why:
        ctx.req(True, 'R3', 'for all numbers of traces', f, '')
    # the order check of a block of sz traces that starts at trace off of the file
    for off, sz in itertools.product((0, 1, 7), (0, 1, 2, 3, 12) if why else (0, 1, 2, 3)):
        instance(ctx, f, off, sz)


def opaque(q, g):
    return q.split('::')[-1] in ('getComp', 'readParam') or q.endswith('Param::ctor')


def instance(ctx, f, off, sz):
    name = 'block of %d from %d' % (sz, off)
    src, dec = S(f['ps'][0]['n']), S(f['ps'][1]['n'])
    e = ctx.summary(f, prim=opaque, unroll=16, args=[src, ('agg', dec, (('global_offset', C(off)), ('local_size', C(sz)))), S(f['ps'][2]['n'])])
    T = calls(e, 'getComp')
    ctx.must(T and T[0].args[0] == S(f['ps'][2]['n']), 'R2', T[0] if T else f, 'does not use the comparison of the sort type')
    R = [r for r in calls(e, 'readParam') if pcv(r) == TRUE]
    if not ctx.req(len(R) == 1 and R[0].obj == src and all(isc(a) for a in R[0].args[:2]), 'R3', name + ': read', R[0] if R else f, 'reads %s' % ', '.join(showev(r) for r in calls(e, 'readParam'))[:200]):
        return
    lo, n = R[0].args[0][1], R[0].args[1][1]
    lo = lo if n else off
    P = [x for x in e.events if x.kind == 'call' and x.name.endswith('Param::ctor') and x.seq < R[0].seq]
    ctx.req(any(isc(a) and a[1] >= n for x in P for a in x.args), 'R3', name + ': room', P[0] if P else R[0], 'no room for the traces read')
    want = [(g - 1, g) for g in range(max(off, 1), off + sz)]
    m, bad = {}, None
    for a in atoms(e.ret, lambda z: z[0] in ('res', 'call') and contains(z, lambda y: y == T[0].res)):
        A = [y for y in (a[3] if a[0] == 'res' else a[2]) if isc(y)]
        if len(A) == 2:
            m[a] = (lo + A[0][1], lo + A[1][1])
            if not all(0 <= y[1] < n for y in A):
                bad = 'compares trace %d with trace %d, which are not read' % m[a]
    I = [x for x in e.events if x.kind == 'call' and contains_any(x, T[0].res)]
    w = I[0] if I else f
    if not ctx.req(bad is None, 'R3', name + ': pairs', w, bad):
        return
    other = [a for a in atoms(e.ret, lambda z: z[0] in ('sym', 'fld', 'loopout', 'phi', 'k', 'last', 'trip?')) if not any(contains(b, lambda y: y == a) for b in m)]
    ctx.need(not other, 'the answer of the order check: %s' % show(e.ret)[:200])
    pairs = sorted(set(m.values()) | set(want))
    ctx.need(len(pairs) <= 16, 'few pairs of traces')
    # all in order, or all but one
    for k in [None] + pairs:
        v = fold(subst(e.ret, {a: C(int(p != k)) for a, p in m.items()}))
        ctx.need(isc(v), 'the answer of the order check: %s' % show(v)[:200])
        exp = C(int(k is None or k not in want))
        if not ctx.req(v == exp, 'R3', name + ': answer' + ('' if k is None else ' %d' % k[1]), w, 'answers %s when %s' % (v == TRUE, 'all traces are in order' if k is None else 'trace %d does not follow trace %d' % (k[1], k[0]))):
            return


def general(ctx, f):
    """the reasons why the form of the order check is not evidently right for all numbers of traces"""
    why = []

    def req(c, w):
        if not c:
            why.append(w)
        return c
    e = ctx.summary(f, prim=opaque)
    T = calls(e, 'getComp')
    if not req(T, 'has no comparison'):
        return why
    src, dec = S(f['ps'][0]['n']), S(f['ps'][1]['n'])
    off, sz = ('fld', dec, 'global_offset'), ('fld', dec, 'local_size')
    R = calls(e, 'readParam')
    if not req(len(R) == 1 and not R[0].loops and R[0].obj == src, 'reads %d times' % len(R)):
        return why
    r = R[0]
    has = AND(NOT(EQ(sz, C(0))), NOT(EQ(off, C(0))))
    start, n = ITE(has, sub(off, C(1)), off), ITE(has, add(sz, C(1)), sz)
    req(same(r.args[0], start), 'start')
    req(same(r.args[1], n), 'number')
    P = [x for x in e.events if x.kind == 'call' and x.name.endswith('Param::ctor') and x.seq < r.seq]
    req(any(same(a, n) for x in P for a in x.args), 'room')
    I = [x for x in e.events if x.kind == 'call' and x.seq > r.seq and (contains_any(x, T[0].res))]
    if not req(len(I) == 1 and len(I[0].loops) == 1, 'comparisons'):
        return why
    x = I[0]
    a = [y for y in x.args if y != T[0].res][-3:]
    k = ('k', x.loops[0].id)
    req(len(a) == 3 and same(sub(a[2], a[1]), C(1)), 'pairs')
    req(sub(a[1], k) == C(0), 'first pair')
    rets = [y for y in e.events if y.kind == 'ret']
    tr = [y for y in rets if y.args and y.args[0] == TRUE]
    fa = [y for y in rets if y.args and y.args[0] == FALSE]
    inl = [y for y in fa if y.loops and y.loops[0].id == x.loops[0].id]
    req(len(rets) == len(tr) + len(fa) and len(tr) == 1 and not tr[0].loops and len(fa) == len(inl) == 1 and same(inl[0].pc and pcv(inl[0]) or TRUE, NOT(x.res) if x.res else TRUE), 'answer')
    t = x.loops[0].trip
    c = t[1] if t is not None and t[0] == 'trip?' else None
    req(t is not None and (same(t, sub(n, C(1))) or c is not None and same(c, LT(add(k, C(1)), n))), 'all pairs')
    return why


def contains_any(x, r):
    return any(contains(a, lambda z: z == r) for a in x.args if a is not None) or x.obj is not None and contains(x.obj, lambda z: z == r)
