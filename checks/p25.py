"""Extremes over processes.  The reduction is executed abstractly for every process of a group in lockstep, on every combination of a few
parameter values for a few traces, spread over the processes in every way; what each process returns is compared with the definition on
the whole set.  The same for the extremes of a set of files, file by file."""
import itertools
from checks.common import *
from checks.spmd import lockstep

FLOOR = 200
P = 'exseis::PIOL::'
RI = P + 'ReadInterface::'


def check(ctx):
    ctx.rule('R1', 'the extremes are those of the traces of all processes, ties going by the second parameter, whatever the distribution')
    ctx.rule('R2', 'the extremes by header quantity are those of the quantities asked for')
    ctx.rule('R3', 'the extremes of a set are the lowest and highest of those of its files')
    ctx.db()
    keys = [(-3, 4), (5, -1), (5, 4), (-3, -1)]
    jobs = [list(v) for n in range(4) for v in itertools.product(keys, repeat=n)]
    jobs += [[(x, y) for x, y in v] for v in ([(2, 2)] * 5, [(7, 1), (7, 0), (0, 0), (0, 9), (7, 1)], [(-5, -5), (-6, -5), (-6, -7), (-5, -5)], [(1, 3), (1, 2), (1, 1), (1, 2)], [(0, 1), (0, -1), (0, 0), (0, 1)],
                                              [(-9, 3), (-8, 3), (-9, 2), (-8, 4), (-9, 1)])]
    ctx.pmap(extremes, jobs)
    metas(ctx)
    ctx.pmap(files, [0, 1, 2, 3])


def best(keys, a, b):
    """first lowest and last highest by parameter a, then b"""
    o = sorted(range(len(keys)), key=lambda i: (keys[i][a], keys[i][b], i))
    return o[0], o[-1]


def splits(n, R):
    return [c for c in itertools.product(range(n + 1), repeat=R) if sum(c) == n]


def number(v):
    return v[1] if isc(v) else None


def extremes(ctx, keys):
    f = [g for g in ctx.db().fns if g['fn'] == P + 'getMinMax' and len(g['ps']) == 7 and 'Param' in g['ps'][3]['t'] and 'function' in g['ps'][4]['t']]
    ctx.need(f, 'getMinMax of parameter structures')
    f = f[0]
    n = len(keys)
    co, mm = ('given', 'parameters'), ('given', 'extremes')
    el = {S(f['ps'][4]['n']): 0, S(f['ps'][5]['n']): 1}
    for R in (1, 2, 3):
        if R == 3 and n > 4:
            continue
        for part in splits(n, R):
            inst = 'parameters %s, spread as %s' % (' '.join('%d/%d' % k for k in keys) or 'of no trace', '+'.join(map(str, part)))

            def run(r, coll):
                first = sum(part[:r])

                def key(e, obj, args):
                    k = [el[x] for x in el if x == obj]
                    if not k or not args:
                        return None
                    a = args[0]
                    t = a[2] if a[0] == 'ld' and a[1] == ('arr', co) else None
                    if t is None or not isc(t) or not 0 <= t[1] < part[r]:
                        return C(-10**6) if part[r] == 0 else None
                    return C(keys[first + t[1]][k[0]])
                model = {'<indirect>': key}
                for c in ('CommunicatorInterface::', 'CommunicatorMPI::'):
                    model.update({P + c + 'getRank': C(r), P + c + 'getNumRank': C(R)})
                model.update(coll)
                return ctx.summary(f, prim=lambda q, g: q in model or q.startswith((P + 'Communicator', P + 'Param::')), mpi_ok=True, unroll=12, model=model, ctors=True,
                                   args=[None, C(first), C(part[r]), ('p', ('arr', co), C(0)), None, None, ('p', ('arr', mm), C(0))])
            es = lockstep(ctx, run, R, f, inst)
            if es is None:
                continue
            for r, e in enumerate(es):
                for a, w in ((0, 'first'), (1, 'second')):
                    for i, what in enumerate(('lowest', 'highest')):
                        l = ('i', ('arr', mm), C(2 * a + i))
                        v, m = e.rd(('f', l, 'val'), e.final), e.rd(('f', l, 'num'), e.final)
                        if n == 0:
                            ok, want = m in (C(2**64 - 1), C(-1)) or contains(m, lambda y: 'numeric_limits' in str(y[1:2])), 'no trace'
                        else:
                            j = best(keys, a, 1 - a)[i]
                            ok, want = v == C(keys[j][a]) and m == C(j), 'trace %d with %d' % (j, keys[j][a])
                        ctx.req(ok, 'R1', '%s: %s of the %s, process %d' % (inst, what, w, r), f, 'is trace %s with %s instead of %s' % (show(m)[:60], show(v)[:60], want))


def metas(ctx):
    f = [g for g in ctx.db().fns if g['fn'] == P + 'getMinMax' and len(g['ps']) == 7 and 'function' not in g['ps'][4]['t']]
    ctx.need(len(f) == 1, 'getMinMax by header quantity')
    f = f[0]
    n = 3
    got = []

    def inner(e, obj, args):
        got.append((args, e))
    names = [S(p['n']) for p in f['ps']]
    e = ctx.summary(f, prim=lambda q, g: g is not f and not q.startswith('std::'), mpi_ok=True, unroll=8, args=[None, None, C(n), None, None, None, None], ctors=True)
    cs = [x for x in e.events if x.kind == 'call' and x.name.split('::')[-1] == 'getMinMax']
    if not ctx.req(len(cs) == 1 and pcv(cs[0]) == TRUE, 'R2', 'extremes', f, 'are not taken once'):
        return
    a = cs[0].args
    ctx.req(a[0] == names[0] and a[1] == names[1] and a[2] == C(n) and a[6] == names[6], 'R2', 'arguments', cs[0], 'are not passed on')
    for k in (0, 1):
        c = a[4 + k]
        while c[0] in ('agg', 'call', 'inst') and c[0] != 'lam':
            c = c[2][0] if c[2] else ('none',)
        if not ctx.req(c[0] == 'lam', 'R2', 'quantity %d' % (k + 1), cs[0], 'is not a function of the trace'):
            continue
        g = ctx.db().lam[c[1]]
        e2 = ctx.summary(g, prim=lambda q, h: True, mpi_ok=True, cap={x: y for x, y in c[2]})
        p = S(g['ps'][0]['n'])
        ok = e2.ret is not None and contains(e2.ret, lambda y: y[0] in ('call', 'res') and y[1].split('::')[-1] == 'getPrm') and contains(e2.ret, lambda y: y == names[3 + k]) and not contains(e2.ret, lambda y: y == names[4 - k])
        ctx.req(ok, 'R2', 'quantity %d' % (k + 1), g, 'is %s' % show(e2.ret)[:120])
        cl = [x for x in e2.events if x.kind == 'call' and x.name.split('::')[-1] == 'getPrm']
        ctx.req(len(cl) == 1 and cl[0].args[0] == C(0) and cl[0].args[1] == names[3 + k] and contains(cl[0].args[2], lambda y: y == p), 'R2', 'trace of quantity %d' % (k + 1), g, 'is not that of the parameters given')
    cp = [x for x in e.events if x.kind == 'call' and x.name.split('::')[-1] == 'cpyPrm']
    ctx.req(sorted(x.args[0][1] for x in cp if isc(x.args[0])) == list(range(n)) and all(x.args[1] == names[5] and x.args[2] == C(0) for x in cp), 'R2', 'traces', cp[0] if cp else f, 'are not copied one by one')


def files(ctx, nf):
    f = [g for g in ctx.db().fns if g['fn'] == 'exseis::Flow::Set::getMinMax' and len(g['ps']) == 3 and 'function' in g['ps'][0]['t']]
    ctx.need(len(f) == 1, 'getMinMax of a set')
    f = f[0]
    T = S('this')
    FL = ('arr', ('fld', T, 'file'))
    env = {('f', ('f', ('d', T), 'file'), '#size'): C(nf)}
    lens = [2, 0, 3][:nf]
    for j in range(nf):
        env[('f', ('f', ('d', ('ld', FL, C(j))), 'ilst'), '#size')] = C(lens[j])
    mm = ('given', 'extremes')
    e = ctx.summary(f, prim=lambda q, g: not q.startswith(('exseis::Flow::', 'std::', 'PIOL_CoordElem')), mpi_ok=True, unroll=10, env=env, ctors=True, args=[None, None, ('p', ('arr', mm), C(0))])
    inst = '%d files' % nf
    cs = [x for x in e.events if x.kind == 'call' and x.name == P + 'getMinMax' and pcv(x) != FALSE]
    if not ctx.req(len(cs) == nf, 'R3', inst, f, 'the extremes of %d files are taken' % len(cs)):
        return
    offs = {x.res: x for x in e.events if x.kind == 'call' and x.name.split('::')[-1] == 'offset'}
    for j, x in enumerate(cs):
        o = offs.get(x.args[1])
        ctx.req(pcv(x) == TRUE and x.args[2] == C(lens[j]) and o is not None and o.args[0] == C(lens[j]), 'R3', '%s: traces of file %d' % (inst, j), x, 'are not all handed on, after those of the processes before')
        ctx.req(x.args[4] == S(f['ps'][0]['n']) and x.args[5] == S(f['ps'][1]['n']), 'R3', '%s: parameters for file %d' % (inst, j), x, 'are not those asked for')
    rd = [x for x in e.events if x.kind == 'call' and x.name.split('::')[-1] == 'readParamNonContiguous']
    ok = len(rd) == nf and all(contains(x.obj, lambda y: y == ('ld', FL, C(j))) and x.args[0] == C(lens[j]) and (x.args[1] == ('p', ('arr', ('fld', ('ld', FL, C(j)), 'ilst')), C(0))) for j, x in enumerate(rd))
    ctx.req(ok, 'R3', '%s: headers' % inst, rd[0] if rd else f, 'are not those of the traces of each file')
    cp = [x for x in e.events if x.kind == 'call' and x.name.split('::')[-1] == 'cpyPrm']
    ctx.req([x.args[0] for x in cp] == [C(t) for m in lens for t in range(m)] and all(x.args[2] == C(0) for x in cp), 'R3', '%s: copies' % inst, cp[0] if cp else f, 'are not those of each trace')
    for k in range(4):
        l = ('i', ('arr', mm), C(k))
        got = {x: e.rd(('f', l, x), e.final) for x in ('val', 'num')}
        for vals in itertools.product(((-4, 6), (3, 5), (-4, 2)), repeat=nf):
            m = {}

            def leaf(z):
                for j, x in enumerate(cs):
                    for w, y in (('val', 0), ('num', 1)):
                        if z[0] == 'fld' and z[2] == w and z[1] == ('outel', x.name, 6, x.seq, C(k)):
                            return C(vals[j][y])
            for z in set().union(*(atoms(v, lambda y: y[0] == 'fld') for v in got.values())):
                w = leaf(z)
                if w is not None:
                    m[z] = w
            w = None
            for v in vals:
                if w is None or (v[0] < w[0] if k % 2 == 0 else v[0] > w[0]):
                    w = v
                elif v[0] == w[0]:
                    w = (w[0], min(v[1], w[1]))
            r = {x: fold(got[x], m) for x in got}
            if nf:
                ctx.req(r == {'val': C(w[0]), 'num': C(w[1])}, 'R3', '%s: %s of the %s, files with %s' % (inst, ('lowest', 'highest')[k % 2], ('first', 'second')[k // 2], vals), f, 'is %s of trace %s' % (show(r['val'])[:80], show(r['num'])[:80]))


BIG = C(10**9)


def fold(v, m):
    """value of nested choices"""
    if isc(v):
        return v
    if v in m:
        return m[v]
    if v[0] == 'ite':
        c = fold(v[1], m)
        return fold(v[2], m) if c == TRUE else fold(v[3], m) if c == FALSE else v
    if v[0] in ('and', 'or'):
        l = [fold(x, m) for x in v[1]]
        return AND(*l) if v[0] == 'and' else OR(*l)
    if v[0] == 'not':
        return NOT(fold(v[1], m))
    if v[0] == '==':
        return EQ(fold(v[1], m), fold(v[2], m))
    if v[0] == 'call' and 'numeric_limits' in v[1]:
        return BIG if v[1].endswith('max') else C(-BIG[1]) if v[1].endswith('lowest') else v
    if v[0] == '<':
        return LT(fold(v[1], m), fold(v[2], m))
    if v[0] == 'fld':
        w = fold(v[1], m)
        return fold(('fld', w, v[2]), m) if w != v[1] else v
    if v[0] in ('min', 'max'):
        l = [fold(x, m) for x in v[1]]
        return C((min if v[0] == 'min' else max)(x[1] for x in l)) if all(isc(x) for x in l) else v
    return subst(v, m)
