"""Rule and parameter bookkeeping.  Every operation that changes a rule set is summarised with everything below it inlined
(map presence and elements as memory, the entry type as a pure function of the entry).  For each prior state (no entry, entry of
each type) the final counters, the number of the new entry, the renumbering of the others and the map content are compared with dense
numbering per type.  Array sizes, get/set and the copy between parameter sets are compared with number + index * count in the
array of the entry's type."""
from checks.rules import *

FLOOR = 120


def counters(ctx, e):
    return {t: e.rd(('f', T, 'num' + t), e.final) for t in TYPES}


def check(ctx):
    ctx.rule('R0', 'each entry class reports a type of its own')
    ctx.rule('R1', 'an added entry replaces the one of its key, takes the next number of its type and the count grows by one')
    ctx.rule('R2', 'a removed entry is freed and forgotten, the count of its type drops by one, later numbers of that type move down')
    ctx.rule('R3', 'a rule set built from a map counts its entries per type')
    ctx.rule('R4', 'merging adds exactly the missing entries, with the same type and locations')
    ctx.rule('R5', 'parameter arrays hold count * sz values of each type')
    ctx.rule('R6', 'values are read and written at number + index * count in the array of the entry type')
    ctx.rule('R7', 'copying moves every value both rule sets have, to the same entry of the target index')
    cs = codes(ctx)
    add_remove(ctx, cs)
    build(ctx, cs)
    merge(ctx, cs)
    params(ctx, cs)
    access(ctx, cs)
    copyprm(ctx, cs)


def states(cs, m, M, H):
    """prior states: facts about has(m) and the type of the entry it has"""
    old = ('ld', M, m)
    yield 'absent', None, lambda v: under(pure(v), (('ld', H, m), 0))
    for t in TYPES:
        yield 'replacing ' + t, t, (lambda v, t=t: subst(under(pure(v), (('ld', H, m), 1)), {('ty', old): cs[t]}))


def add_remove(ctx, cs):
    tr = ('fld', S('this'), 'translate')
    f0 = ctx.fn(N + 'Rule::rmRule')
    e = ctx.summary(f0)
    ml = None
    for x in e.events:
        for a in atoms(('t',) + tuple(x.pc), lambda z: z[0] == 'ld' and z[1][0] == 'has'):
            ml = a[1][1]
    ctx.need(ml is not None, 'the rule map of rmRule')
    M, H = ('map', ml), ('has', ml)
    m = S(f0['ps'][0]['n'])
    c0 = {t: ('fld', S('this'), 'num' + t) for t in TYPES}
    c1 = counters(ctx, e)
    old = ('ld', M, m)
    for name, t, st in states(cs, m, M, H):
        for u in TYPES:
            want = sub(c0[u], C(1)) if u == t else c0[u]
            got = st(c1[u])
            ctx.req(same(got, want), 'R2', 'rmRule count of %s, %s' % (u, name), f0, 'becomes %s instead of %s' % (show(got), show(want)))
        got = st(e.rd(('i', H, m), e.final))
        ctx.req(got == FALSE, 'R2', 'rmRule forgets, ' + name, f0, 'presence afterwards: %s' % show(got))
        dels = [x for x in e.events if x.kind == 'call' and x.name.startswith('delete') and st(pcv(x)) != FALSE]
        ok = len(dels) == (0 if t is None else 1) and (t is None or st(pcv(dels[0])) == TRUE and not dels[0].loops and old in (st(dels[0].obj) if dels[0].obj else None, *[st(a) for a in dels[0].args if a]))
        ctx.req(ok, 'R2', 'rmRule frees, ' + name, dels[0] if dels else f0, '%d entries are freed' % len(dels))
        # the others
        sts = [x for x in e.events if x.kind == 'store' and x.obj is not None and (x.obj[0] == 'f' and x.obj[2] in ('num', 'loc', 'scalLoc')) and st(pcv(x)) != FALSE]
        if t is None:
            ctx.req(not sts, 'R2', 'rmRule renumbers, ' + name, sts[0] if sts else f0, 'entries change although nothing is removed')
            continue
        for u in TYPES[:4]:
            eff = []
            for x in sts:
                ok = x.obj[2] == 'num' and len(x.loops) == 1 and x.obj[1][0] in ('d', 'i', 'f')
                p = pure(x.obj[1][1]) if ok and x.obj[1][0] == 'd' else None
                ok = ok and p is not None and p[0] == 'fld' and p[2] == 'second' and p[1][0] == 'ld' and p[1][2] == ('k', x.loops[0].id) and contains(x.loops[0].trip, lambda z: z[0] == 'size')
                if not ctx.req(ok, 'R2', 'rmRule other entries', x, 'stores to %s' % show(x.obj)):
                    return
                n = ('fld', p, 'num')
                g = subst(st(pcv(x)), {('ty', p): cs[u]})
                on = ('fld', old, 'num')
                # numbers of the other entries of a type differ from the removed one's
                for lo, val in ((n, 0), (on, 1)):
                    c = LT(on, n)
                    h = under(g, (c, val), (EQ(n, on), 0), (LT(n, on), 1 - val))
                    eff.append((lo, val, h, subst(st(x.args[0]), {('ty', p): cs[u]}), n))
            up = [q for q in eff if q[1] == 1 and q[2] != FALSE]
            dn = [q for q in eff if q[1] == 0 and q[2] != FALSE]
            if u != t:
                ctx.req(not up and not dn, 'R2', 'rmRule of %s leaves %s alone' % (t, u), sts[0] if sts else f0, 'entries of type %s are renumbered' % u)
            else:
                ctx.req(len(up) == 1 and up[0][2] == TRUE and same(up[0][3], sub(up[0][4], C(1))) and not dn, 'R2', 'rmRule renumbers ' + t, sts[0] if sts else f0,
                        'later entries become %s' % ('; '.join(show(q[3]) for q in up) or 'unchanged') + (', earlier ones %s' % show(dn[0][3]) if dn else ''))
    for t, nm in (('Long', 'addLong'), ('Short', 'addShort'), ('Float', 'addSEGYFloat'), ('Index', 'addIndex')):
        f = ctx.fn(N + 'Rule::' + nm)
        e = ctx.summary(f)
        m = S(f['ps'][0]['n'])
        c1 = counters(ctx, e)
        for name, o, st in states(cs, m, M, H):
            if o == 'Copy':
                continue
            base = {u: sub(c0[u], C(1)) if u == o else c0[u] for u in TYPES}
            for u in TYPES:
                want = add(base[u], C(1)) if u == t else base[u]
                got = st(c1[u])
                ctx.req(same(got, want), 'R1', '%s count of %s, %s' % (nm, u, name), f, 'becomes %s instead of %s' % (show(got), show(want)))
            if st(e.rd(('i', H, m), e.final)) != TRUE:
                ctx.req(False, 'R1', '%s present, %s' % (nm, name), f, 'the key has no entry afterwards')
                continue
            v = st(e.rd(('i', M, m), e.final))
            ok = v[0] == 'p' and v[1][0] == 'addr' and v[1][1][0] == 'new' and v[1][1][1].endswith('SEGY%sRuleEntry' % t)
            if not ctx.req(ok, 'R1', '%s entry, %s' % (nm, name), f, 'the entry becomes %s' % show(v)):
                continue
            l = v[1][1]
            got = st(e.rd(('f', l, 'num'), e.final))
            ctx.req(same(got, base[t]), 'R1', '%s number, %s' % (nm, name), f, 'numbered %s instead of %s' % (show(got), show(base[t])))
            for i, fld in enumerate(('loc', 'scalLoc')[:len(f['ps']) - 1]):
                got = strip(st(e.rd(('f', l, fld), e.final)))
                ctx.req(got == S(f['ps'][i + 1]['n']), 'R1', '%s %s, %s' % (nm, fld, name), f, 'is %s' % show(got))
    f = ctx.fn(N + 'Rule::addCopy')
    e = ctx.summary(f)
    c1 = counters(ctx, e)
    for val in (0, 1):
        st = lambda v: under(pure(v), (EQ(c0['Copy'], C(0)), 1 - val)) if val else subst(pure(v), {c0['Copy']: C(0)})
        for u in TYPES:
            want = C(1) if u == 'Copy' and not val else c0[u]
            got = st(c1[u])
            ctx.req(same(got, want), 'R1', 'addCopy count of %s, %s' % (u, ('first', 'again')[val]), f, 'becomes %s' % show(got))
        evs = [x for x in e.events if x.kind == 'store' and x.obj[0] == 'i' and x.obj[1] == M and st(pcv(x)) != FALSE]
        ctx.req(len(evs) == 1 - val and all(x.obj[2] == copykey(ctx) and contains(x.args[0], lambda z: z[0] == 'new' and z[1].endswith('SEGYCopyRuleEntry')) for x in evs),
                'R1', 'addCopy entry, ' + ('first', 'again')[val], evs[0] if evs else f, '%d entries are added' % len(evs))


def copykey(ctx):
    """the key of the whole-header entry (first of the Meta values)"""
    return C(0)


def build(ctx, cs):
    fs = [f for f in ctx.db().fns if f.get('body') and f['fn'] == N + 'Rule::Rule' and len(f['ps']) == 2 and 'unordered_map' in f['pt'][0]]
    ctx.need(len(fs) == 1, 'Rule(RuleMap, bool)')
    f = fs[0]
    e = ctx.summary(f)
    for t in TYPES:
        v = pure(e.rd(('f', T, 'num' + t), e.final))
        ok = False
        if v[0] in ('rec', 'red'):
            if v[0] == 'rec':
                init, step, n = v[1], v[2], v[3]
            else:
                init, step, n = v[2], add(('acc',), v[3]), v[4]
            ok = init == C(0) and n[0] == 'size'
            tys = sorted(atoms(step, lambda z: z[0] == 'ty'))
            ok = ok and len(set(tys)) == 1
            for u in TYPES if ok else ():
                w = subst(step, {tys[0]: cs[u]})
                w = w if u != t else sub(w, C(1))
                ok = ok and w[0] == 'acc'
        ctx.req(ok, 'R3', 'count of ' + t, f, 'is %s' % show(v)[:200])


def merge(ctx, cs):
    f = ctx.fn(N + 'Rule::addRule', pt=['const exseis::PIOL::Rule &'])
    ops = {'addLong': 'Long', 'addShort': 'Short', 'addSEGYFloat': 'Float', 'addIndex': 'Index', 'addCopy': 'Copy'}
    e = ctx.summary(f, prim=lambda q, g: q.split('::')[-1] in ops)
    evs = [pev(x) for x in e.events if x.kind == 'call' and x.name.split('::')[-1] in ops]
    if not ctx.req(len(evs) > 0, 'R4', 'additions', f, 'nothing is added'):
        return
    r = S(f['ps'][0]['n'])
    for t in TYPES:
        got = []
        for x in evs:
            ok = len(x.loops) == 1 and contains(x.loops[0].trip, lambda z: z[0] == 'size') and x.obj == S('this')
            if not ctx.req(ok, 'R4', 'additions of every entry', x, 'loops %s' % [show(l.trip) if l.trip else '?' for l in x.loops]):
                return
            ty = sorted(atoms(pcv(x), lambda z: z[0] == 'ty'))
            has = sorted(atoms(pcv(x), lambda z: z[0] == 'ld' and z[1][0] == 'has'))
            if not ctx.req(len(set(ty)) == 1 and len(set(has)) == 1 and ty[0][1] == ('fld', ('ld', ('arr', ('fld', r, 'translate')), ('k', x.loops[0].id)), 'second')
                           and has[0][2] == ('fld', ('ld', ('arr', ('fld', r, 'translate')), ('k', x.loops[0].id)), 'first'), 'R4', 'condition of the additions', x, 'added when %s' % show(pcv(x))):
                return
            el, key = ty[0][1], has[0][2]
            g = subst(pcv(x), {ty[0]: cs[t]})
            ctx.req(under(g, (has[0], 1)) == FALSE, 'R4', 'present entries stay (%s, %s)' % (t, x.name.split('::')[-1]), x, 'an entry that is present is replaced')
            if under(g, (has[0], 0)) != FALSE:
                got.append((x, under(g, (has[0], 0)), el, key))
        if not ctx.req(len(got) == 1 and got[0][1] == TRUE and ops[got[0][0].name.split('::')[-1]] == t, 'R4', 'missing entries of type ' + t, got[0][0] if got else f,
                       'are added by %s' % ([x[0].name.split('::')[-1] for x in got] or 'nothing')):
            continue
        x, _, el, key = got[0]
        want = {'Long': [key, ('fld', el, 'loc')], 'Short': [key, ('fld', el, 'loc')], 'Float': [key, ('fld', el, 'loc'), ('fld', el, 'scalLoc')], 'Index': [key], 'Copy': []}[t]
        ctx.req([strip(a) for a in x.args] == want, 'R4', 'arguments for type ' + t, x, 'added as %s' % ', '.join(show(a) for a in x.args))


def params(ctx, cs):
    fs = [f for f in ctx.db().fns if f.get('body') and f['fn'] == N + 'Param::Param' and len(f['ps']) == 2]
    ctx.need(len(fs) == 1, 'Param(rule, size)')
    f = fs[0]
    e = ctx.summary(f)
    r, sz = S(f['ps'][0]['n']), S(f['ps'][1]['n'])
    for fld, v in (('r', r), ('sz', sz)):
        got = e.rd(('f', T, fld), e.final)
        ctx.req(got == v, 'R5', 'Param ' + fld, f, 'is %s' % show(got))
    for t, a in VEC.items():
        got = e.sizeof(('f', T, a), e.final)
        want = mul(sz, ('fld', r, 'num' + t))
        ctx.req(same(got, want), 'R5', 'array of ' + t, f, 'holds %s values instead of %s' % (show(got), show(want)))
    got = e.sizeof(('f', T, 'c'), e.final)
    want = ITE(EQ(('fld', r, 'numCopy'), C(0)), C(0), mul(sz, C(240)))
    ctx.req(same(got, want), 'R5', 'header copies', f, 'holds %s bytes instead of %s' % (show(got), show(want)))
    f = ctx.fn(N + 'Rule::paramMem')
    v = ctx.summary(f).ret
    F = lambda t: ('fld', S('this'), 'num' + t)
    want = add(mul(C(8), F('Long')), mul(C(2), F('Short')), mul(C(8), F('Float')), mul(C(8), F('Index')), ITE(EQ(F('Copy'), C(0)), C(0), C(240)))
    ctx.req(same(v, want), 'R5', 'memory of one set', f, 'is %s' % show(v))
    v = ctx.summary(N + 'Param::size').ret
    ctx.req(v == ('fld', S('this'), 'sz'), 'R5', 'Param::size', ctx.fn(N + 'Param::size'), 'is %s' % show(v))


def access(ctx, cs):
    db = ctx.db()
    n = 0
    for f in db.fns:
        if not f.get('body') or f['fn'] not in (U + 'getPrm', U + 'setPrm'):
            continue
        n += 1
        inst = f['nm'] + '<%s>' % (f['ta'][0] if f.get('ta') else '?')
        e = ctx.summary(f)
        P = [S(p['n']) for p in f['ps']]
        prm = P[-1]
        rule = ('fld', prm, 'r')
        ent = None
        for x in e.events:
            if x.kind == 'call' and x.name.endswith('RuleEntry::type'):
                ent = pure(x.obj)
        if not ctx.req(ent is not None and ent[0] == 'ld' and ent[1][0] == 'map' and contains(ent[1], lambda z: z == ('fld', rule, 'translate') or z == ('f', ('d', rule), 'translate')) and ent[2] == P[1],
                       'R6', inst + ' entry', f, 'uses the entry %s' % (show(ent) if ent else '?')):
            continue
        for t in TYPES:
            want = None
            if t in VEC:
                want = ('ld', ('arr', ('fld', prm, VEC[t])), add(('fld', ent, 'num'), mul(P[0], ('fld', rule, 'num' + t))))
            if f['nm'] == 'getPrm':
                got = strip(typed(e.ret, ent, cs[t], cs))
                ctx.req(same(got, want or C(0)), 'R6', '%s of %s' % (inst, t), f, 'is %s instead of %s' % (show(got), show(want or C(0))))
            else:
                w = [(x, b, i, v) for x, b, i, v, trip, g in moves(e) if typed(g, ent, cs[t], cs) != FALSE]
                if want is None:
                    ctx.req(not w, 'R6', '%s of %s' % (inst, t), w[0][0] if w else f, 'stores to %s' % (show(w[0][1]) if w else ''))
                    continue
                ok = len(w) == 1 and typed(pcv(pev(w[0][0])), ent, cs[t], cs) == TRUE
                x = w[0] if w else None
                ok = ok and x[1] == want[1] and same(x[2], want[2]) and strip(x[3]) == P[2]
                ctx.req(ok, 'R6', '%s of %s' % (inst, t), x[0] if x else f, 'stores %s' % ('%s at %s[%s]' % (show(x[3]), show(x[1]), show(x[2])) if x else 'nothing'))
    ctx.need(n >= 6, 'instances of getPrm and setPrm')


def copyprm(ctx, cs):
    f = ctx.fn(U + 'cpyPrm')
    e = ctx.summary(f, prim=lambda q, g: q.endswith('::extractParam'))
    j, src, k, dst = [S(p['n']) for p in f['ps']]
    sr, dr = ('fld', src, 'r'), ('fld', dst, 'r')

    def live(v):
        m = {}
        for p in (src, dst):
            m[EQ(p, NULL)] = FALSE
            m[EQ(p, ('ptrc', 1))] = FALSE
        return subst(pure(v), m)
    SAME = EQ(sr, dr)
    xs = [x for x in e.events if x.kind == 'call' and x.name.endswith('::extractParam')]
    ok = len(xs) >= 1
    NC = ('fld', sr, 'numCopy')
    for x in xs:
        ok = ok and not x.loops and x.args[0] == C(1) and x.args[1] == ('p', ('arr', ('fld', src, 'c')), mul(C(240), j)) and x.args[2] == dst and x.args[3] == C(0) and x.args[4] == k
    g = FALSE
    for x in xs:
        g = OR(g, live(pcv(x)))
    ok = ok and same(subst(g, {NC: C(0)}), FALSE) and same(under(g, (EQ(NC, C(0)), 0)), TRUE)
    ctx.req(ok, 'R7', 'header copy', xs[0] if xs else f, 'the copied header is unpacked by %s' % ('; '.join(showev(x)[:160] for x in xs) or 'nothing'))
    mv = moves(e)
    last = max([x.seq for x in xs], default=0)
    ctx.req(all(w[0].seq > last for w in mv), 'R7', 'values after the header', f, 'a copied value is overwritten by the unpacked header')
    # one rule set
    for t, a in VEC.items():
        cnt = ('fld', sr, 'num' + t)
        got = []
        for x, b, i, v, trip, g in mv:
            if b != ('arr', ('fld', dst, a)):
                continue
            g = under(live(g), (SAME, 1))
            if g == FALSE:
                continue
            eq = {dr: sr}
            if trip is None and len(x.loops) == 1:
                eq[('k', x.loops[0].id)] = HOLE
                trip = x.loops[0].trip
            elif x.loops:
                trip = None
            got.append((x, g, *[subst(z, eq) if z is not None else None for z in (i, v, trip)]))
        ok = len(got) == 1 and got[0][1] == TRUE and got[0][4] is not None
        if ok:
            x, _, i, v, trip = got[0]
            ok = same(trip, cnt) and same(i, add(HOLE, mul(k, cnt))) and same(v, ('ld', ('arr', ('fld', src, a)), add(HOLE, mul(j, cnt))))
        ctx.req(ok, 'R7', 'same rules, ' + t, got[0][0] if got else f, 'copied as %s' % ('; '.join('%s -> [%s] of %s' % (show(z[3]), show(z[2]), show(z[4]) if z[4] else '?') for z in got) or 'nothing'))
    # two rule sets
    for t in TYPES:
        for u in TYPES:
            got = []
            for x, b, i, v, trip, g in mv:
                g = under(live(g), (SAME, 0))
                if g == FALSE or not x.loops:
                    continue
                pair = None
                for a, ar, o, orr in ((src, sr, dst, dr), (dst, dr, src, sr)):
                    for l in x.loops:
                        el = ('ld', ('arr', ('fld', ar, 'translate')), ('k', l.id))
                        has = [z for z in atoms(g, lambda z: z[0] == 'ld' and z[1][0] == 'has') if z[2] == ('fld', el, 'first') and contains(z[1], lambda y: y == orr)]
                        if has and contains(l.trip, lambda y: y == ('size', ('fld', ar, 'translate'))):
                            oth = ('ld', ('map', has[0][1][1]), ('fld', el, 'first'))
                            pair = (('fld', el, 'second'), oth, has[0]) if a == src else (oth, ('fld', el, 'second'), has[0])
                if not ctx.req(pair is not None and trip is None, 'R7', 'pairs of entries', x, 'not a copy between the entries of one key'):
                    return
                se, de, has = pair
                if subst(under(g, (has, 0)), {}) != FALSE:
                    ctx.req(False, 'R7', 'only shared keys', x, 'copied although the key is missing from one rule set')
                g = subst(under(g, (has, 1)), {('ty', se): cs[t], ('ty', de): cs[u]})
                if g != FALSE:
                    got.append((x, g, b, subst(i, {('ty', se): cs[t], ('ty', de): cs[u]}), subst(v, {('ty', se): cs[t], ('ty', de): cs[u]}), se, de))
            if t != u or t not in VEC:
                ctx.req(not got, 'R7', 'different types %s to %s' % (t, u), got[0][0] if got else f, 'a value of type %s is stored as type %s' % (t, u))
                continue
            ok = len(got) == 1 and got[0][1] == TRUE
            if ok:
                x, _, b, i, v, se, de = got[0]
                ok = (b == ('arr', ('fld', dst, VEC[t])) and same(i, add(('fld', de, 'num'), mul(k, ('fld', dr, 'num' + t))))
                      and same(v, ('ld', ('arr', ('fld', src, VEC[t])), add(('fld', se, 'num'), mul(j, ('fld', sr, 'num' + t))))))
            ctx.req(ok, 'R7', 'different rules, ' + t, got[0][0] if got else f, 'copied as %s' % ('; '.join('%s -> %s[%s]' % (show(z[4]), show(z[2]), show(z[3])) for z in got) or 'nothing'))
