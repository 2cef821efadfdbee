"""Velocity models.  The constructor is executed abstractly for files of small regular grids, and reading with the parameters it leaves for
lists of gathers in and out of order; the trace numbers asked for are compared with the places of the lines in the file."""
from checks.common import *

FLOOR = 100
P = 'exseis::PIOL::'
M = P + 'ReadSEGYModel::'
T = S('this')
TD = ('d', T)


def check(ctx):
    ctx.rule('R1', 'the lines of the model are taken from its traces, of which there may be a single one')
    ctx.rule('R2', 'for each gather, in the order given, the trace of its inline and crossline is read, and nothing else')
    ctx.rule('R3', 'a model opened by name reads in the same way')
    ctx.db()
    ids = {c['n'].split('::')[-1]: int(c['v']) for e in ctx.db().enums.values() for c in e['c']}
    ctx.need('PIOL_META_il' in ids and 'PIOL_META_xl' in ids, 'the names of the line numbers')
    ctx.meta = (ids['PIOL_META_il'], ids['PIOL_META_xl'])
    jobs = []
    for n, x in ((1, 1), (1, 2), (1, 5), (2, 1), (4, 1), (2, 2), (2, 3), (3, 2), (3, 4), (4, 3), (5, 2), (2, 7), (7, 3)):
        for k, (a, i, b, j) in enumerate(((1, 1, 1, 1), (10, 2, 5, 3), (-4, 3, 0, 1), (7, -1, 100, -5), (0, 10, -3, 2))):
            jobs.append((n, x, a, i, b, j))
    ctx.pmap(grid, jobs)
    wrapper(ctx)


def elements(e, st, v, n):
    """elements of an array handed to a function"""
    if v[0] != 'p' or not isc(v[2]):
        return None
    return [e.rd(('i', v[1], C(v[2][1] + k)), st) for k in range(n)]


def snap(e, st, ev):
    nm = ev.name.split('::')[-1]
    if nm.startswith('readParam') or nm.startswith('readTrace'):
        if len(ev.args) > 1 and isc(ev.args[0]) and ev.args[1][0] == 'p':
            return {'list': elements(e, st, ev.args[1], ev.args[0][1])}
    return {}


def grid(ctx, job):
    n, x, a, i, b, j = job
    lines = [(a + i * r, b + j * c) for r in range(n) for c in range(x)]
    nt = len(lines)
    inst = '%d inlines from %d by %d, %d crosslines from %d by %d' % (n, a, i, x, b, j)
    f = [g for g in ctx.db().fns if g['fn'] == M + 'ReadSEGYModel' and len(g['ps']) == 4 and g.get('body')]
    ctx.need(len(f) == 1, 'the constructor of a model')
    f = f[0]
    ids = {C(v): k for k, v in enumerate(ctx.meta)}
    read = []

    def model(e, obj, args):
        l = e.events[-1].mem.get('list')
        read.append((e.events[-1], l))

    def block(e, obj, args):
        read.append((e.events[-1], [C(args[0][1] + k) for k in range(args[1][1])] if isc(args[0]) and isc(args[1]) else None))

    def get(e, obj, args):
        t, m = args[0], args[1]
        if not read or m not in ids or not isc(t) or read[-1][1] is None or not 0 <= t[1] < len(read[-1][1]):
            return None
        k = read[-1][1][t[1]]
        return C(lines[k[1]][ids[m]]) if isc(k) and 0 <= k[1] < nt else None
    mod = {P + 'param_utils::getPrm': get}
    for c in ('ReadInterface::', 'ReadSEGY::'):
        mod.update({P + c + 'readNt': C(nt), P + c + 'readParamNonContiguous': model, P + c + 'readParam': block})
    e = ctx.summary(f, prim=lambda q, g: q in mod or q.startswith((P + 'Param::', P + 'Rule::', P + 'ReadSEGY::', P + 'ReadInterface::')), mpi_ok=True, unroll=8, model=mod, ctors=True, snap=snap)
    for ev, l in read:
        ctx.need(l is not None and all(isc(v) for v in l), 'which traces %s reads' % f['fn'])
        ctx.req(all(0 <= v[1] < nt for v in l), 'R1', inst, ev, 'headers of trace %s of %d are read' % ([v[1] for v in l], nt))
    ctx.need(read, 'the traces the lines of a model are taken from')
    env = {}
    for c in ('il', 'xl'):
        for k in ('start', 'count', 'increment'):
            l = ('f', ('f', TD, c), k)
            v = e.rd(l, e.final)
            if not ctx.req(isc(v), 'R1', '%s: %s of %s' % (inst, k, c), f, 'is %s' % show(v)[:80]):
                return
            env[l] = v
    full = list(lines)
    lists = [full, full[::-1], full[1::2], [full[-1], full[0], full[-1]], full[:1], []]
    for g in [h for h in ctx.db().fns if h['fn'] == M + 'readModel' and h.get('body')]:
        direct = '*' not in g['ps'][1]['t']
        for w in lists:
            off = 3
            given = [('none', 0)] * off + w
            pos = list(range(off, off + len(w)))
            ga = dict(enumerate(given))
            if not direct:
                # the gathers of this process are anywhere in the list
                pos = [2 * k + 1 for k in reversed(range(len(w)))]
                ga = dict(zip(pos, w))

            def gather(e, obj, args):
                k = args[0]
                if isc(k) and k[1] in ga and ga[k[1]][0] != 'none':
                    v = ga[k[1]]
                    return ('agg', P + 'Gather_info', (('num_traces', C(3)), ('inline_', C(v[0])), ('crossline', C(v[1]))))
            m2 = {}
            for q in {h['fn'] for h in ctx.db().fns if 'istributed_vector' in h['fn'] and h['fn'].split('::')[-1] in ('get', 'operator[]')} | {'exseis::utils::Distributed_vector<exseis::PIOL::Gather_info>::Concept::get'}:
                m2[q] = gather
            en = dict(env)
            if direct:
                args = [C(off), C(len(w)), None]
            else:
                arr = ('arr', ('given', 'places'))
                args = [C(len(w)), ('p', arr, C(0)), None]
                en.update({('i', arr, C(k)): C(v) for k, v in enumerate(pos)})
            e2 = ctx.summary(g, args=args, env=en, unroll=nt + 4, model=m2, mpi_ok=True, ctors=True, snap=snap,
                             prim=lambda q, h: q in m2 or q.startswith((P + 'ReadSEGY::', P + 'ReadInterface::')))
            name = '%s, gathers %s%s' % (inst, ' '.join('%d/%d' % v for v in w) or 'none', '' if direct else ' named one by one')
            rd = [y for y in e2.events if y.kind == 'call' and y.name.split('::')[-1].startswith('readTrace') and pcv(y) != FALSE]
            if not ctx.req(len(rd) == 1 and pcv(rd[0]) == TRUE, 'R2', name, rd[0] if rd else g, 'traces are read %d times' % len(rd)):
                continue
            r = rd[0]
            want = [lines.index(v) for v in w]
            l = r.mem.get('list')
            ctx.need(l is not None, 'the list of traces read by %s' % g['fn'])
            ctx.req(l == [C(v) for v in want], 'R2', name, r, 'traces %s are read instead of %s' % (' '.join(show(v)[:40] for v in l), want))
            if 'NonContiguous' in r.name:
                ctx.req(all(p < q for p, q in zip(want, want[1:])), 'R2', name, r, 'traces out of order are read as if they were in order')
            buf = r.args[2]
            ret = e2.ret
            ok = ret is not None and ret[0] == 'vec' and buf[0] == 'p' and buf[1] == ret[1] and buf[2] == C(0)
            ns = [y.res for y in e2.events if y.kind == 'call' and y.name.split('::')[-1] == 'readNs']
            ctx.req(ok and ns and any(same(ret[2], mul(C(len(w)), y)) for y in ns), 'R2', '%s: samples' % name, r, 'what is returned is not what was read, one trace for each gather')


def wrapper(ctx):
    f = [g for g in ctx.db().fns if g['fn'] == P + 'ReadModel::readModel' and g.get('body')]
    ctx.need(f, 'the model opened by name')
    for g in f:
        e = ctx.summary(g, prim=lambda q, h: h is not g and 'std::' not in q, mpi_ok=True)
        c = [y for y in e.events if y.kind == 'call' and y.name.endswith('::readModel')]
        ok = len(c) == 1 and pcv(c[0]) == TRUE and list(c[0].args[:2]) == [S(p['n']) for p in g['ps'][:2]] and contains(c[0].args[2], lambda y: y == S(g['ps'][2]['n']))
        ctx.req(ok, 'R3', 'arguments', c[0] if c else g, 'are not those given')
        ctx.req(ok and e.ret == c[0].res, 'R3', 'samples', c[0] if c else g, 'are not those read')
