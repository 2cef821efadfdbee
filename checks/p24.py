"""The workflow layer.  The queue of operations is executed abstractly for every short sequence of operation kinds (one trace at a time,
gather, whole subset) with the stages opaque; each stage is executed on tokens for small files and blocks: which traces are read, which
block the operations get, and where its traces are written.  The operations users queue are run as closures with the values they captured."""
import itertools
from checks.common import *

FLOOR = 300
F, P, U = 'exseis::Flow::', 'exseis::PIOL::', 'exseis::utils::'
N = F + 'Set::'
T = S('this')
TD = ('d', T)
OPS = ('arr', S('operations'))
KIND = {'S': {'NeedMeta', 'NeedTrcVal', 'SingleTrace'}, 'G': {'NeedMeta', 'NeedTrcVal', 'Gather'}, 'U': {'NeedMeta', 'ModMetaVal', 'DepMetaVal', 'SubSetOnly'}}
LEVELS = ('SingleTrace', 'Gather', 'SubSetOnly')


def check(ctx):
    ctx.rule('R1', 'an added file takes part with every trace of its block, placed after the files before it')
    ctx.rule('R2', 'each operation is queued at the end, as what it is, and does what it is named for to each trace with its own arguments')
    ctx.rule('R3', 'a block goes through each operation of its kind once, in order, up to the first of another kind')
    ctx.rule('R4', 'the queue is worked off in order: every operation is applied, to what the ones before it left')
    ctx.rule('R5', 'the order an operation returns is handed to the files, trace by trace')
    ctx.rule('R6', 'every trace of every file is read once, processed with its own header, and written at its place')
    ctx.rule('R7', 'every gather is read once, processed as one block, and written after the gathers before it')
    ctx.rule('R8', 'output writes under the given name once, and returns what was written')
    ctx.db()
    global OPT, INV
    en = ctx.db().enums.get(F + 'FuncOpt')
    ctx.need(en is not None, 'the operation options')
    OPT = {c['n'].split('::')[-1]: C(int(c['v'])) for c in en['c']}
    INV = {v: k for k, v in OPT.items()}
    options(ctx)
    jobs = [(dispatch, s) for n in (0, 1, 2, 3) for s in itertools.product('SGU', repeat=n)] + [(dispatch, tuple(s)) for s in ('USUS', 'SUSS', 'GSUS', 'USGS', 'GGUS', 'SGUG', 'SUSU', 'SGSG')]
    jobs += [(chain, (k, s)) for k in 'SG' for n in (0, 1, 2, 3) for s in itertools.product('SGU', repeat=n)]
    jobs += [(subset, s) for s in (('U',), ('U', 'S'), ('U', 'U'), ('U', 'U', 'S'))]
    ctx.pmap(lambda c, j: j[0](c, j[1]), jobs)
    groups(ctx)
    added(ctx)
    whole(ctx)
    order(ctx)
    gather_next(ctx)
    headers(ctx)
    operations(ctx)


def fns(ctx, q, n=None):
    r = [f for f in ctx.db().fns if f['fn'] == q and f.get('body') and (n is None or len(f['ps']) == n)]
    ctx.need(r, q)
    return r


def one(ctx, q, n=None):
    r = fns(ctx, q, n)
    ctx.need(len(r) == 1, 'one definition of ' + q)
    return r[0]


def it(k):
    return ('p', OPS, C(k))


def at(v):
    """place of a queue iterator"""
    if v == OPS:
        return 0
    return v[2][1] if v[0] == 'p' and v[1] == OPS and isc(v[2]) else None


def last(q):
    return q.split('::')[-1]


def opaque(*names):
    return lambda q, g: last(q) in names or not q.startswith(F)


def which(v, n):
    """the operation a value belongs to"""
    r = [i for i in range(n) if contains(v, lambda x: x == ('ld', OPS, C(i)))]
    return r[0] if len(r) == 1 else None


def has(ops):
    def m(e, obj, args):
        i = which(obj, len(ops)) if obj is not None else None
        if i is None or not args or args[0] not in INV:
            return None
        return C(int(INV[args[0]] in KIND[ops[i]]))
    return m


def run_end(ops, i):
    j = i
    while j < len(ops) and ops[j] == ops[i]:
        j += 1
    return j


def settle(v, facts):
    """v with the emptiness of results known"""
    for res, empty in facts.items():
        m = {}
        for a in atoms(v, lambda z: z[0] in ('==', '<') and contains(z, lambda y: y == res)):
            if a[0] == '==' and C(0) in a[1:]:
                m[a] = C(int(empty))
            elif a[0] == '<' and a[1] == C(0):
                m[a] = C(int(not empty))
        v = subst(v, m)
    return v


def options(ctx):
    """an option is set exactly when it is in the list"""
    f = one(ctx, F + 'OpOpt::check')
    e = ctx.summary(f)
    o = S(f['ps'][0]['n'])
    fs = atoms(e.ret, lambda z: z[0] == 'call' and z[1].startswith('std::')) if e.ret is not None else ()
    v = e.ret
    ok = False
    for c in fs:
        arr = [a for a in c[2] if a[0] == 'p' or a[0] == 'arr']
        if last(c[1].split('<')[0]) in ('find', 'count') and o in c[2]:
            if last(c[1].split('<')[0]) == 'find':
                ends = [a for a in c[2] if a[0] == 'p' and a[2] != C(0)]
                ok = len(ends) == 1 and same(v, NOT(EQ(c, ends[0])))
            else:
                ok = same(v, NOT(EQ(c, C(0)))) or same(v, LT(C(0), c))
    if not fs:
        lst = [x for x in (S('a'), S('b'))]
        env = {('f', ('f', TD, 'optList'), '#size'): C(2)}
        e = ctx.summary(f, unroll=4, env=env)
        el = [('ld', ('arr', ('fld', T, 'optList')), C(i)) for i in range(2)]
        ok = all(assume(assume(e.ret, EQ(el[0], o), x), EQ(el[1], o), y) == C(int(x or y)) for x in (0, 1) for y in (0, 1))
    ctx.req(ok, 'R3', 'options', f, 'an option is reported as set when %s' % show(v)[:120])


def dispatch(ctx, ops):
    n = len(ops)
    f = one(ctx, N + 'calcFunc', 2)
    inst = 'operations ' + (''.join(ops) or 'none')
    lo = ('f', TD, 'outfix')

    def sub(e, obj, args):
        i = at(args[0]) if args else None
        return it(run_end(ops, i)) if i is not None and i < n else None

    def snap(e, st, ev):
        if last(ev.name) in ('startSingle', 'startGather'):
            return {'outfix': e.rd(lo, st)}
    e = ctx.summary(f, prim=opaque('check', 'startSubset', 'startGather', 'startSingle', 'add', 'drop'), mpi_ok=True, unroll=12, maxrec=8, snap=snap,
                    model={F + 'OpOpt::check': has(ops), N + 'startSubset': sub}, args=[it(0), it(n)])
    facts, steps = {}, []
    for ev in e.events:
        if ev.kind != 'call' or last(ev.name) not in ('startSubset', 'startGather', 'startSingle', 'add', 'drop'):
            continue
        c = settle(pcv(ev), facts)
        if c == FALSE:
            continue
        ctx.need(c == TRUE, 'whether %s:%d happens: %s' % (f['file'].split('/')[-1], ev.line, show(c)[:150]))
        steps.append(ev)
        i = at(ev.args[0]) if ev.args else None
        if last(ev.name) == 'startGather' and i is not None and i < n:
            facts[ev.res] = run_end(ops, i) < n
        elif last(ev.name) == 'startSingle':
            facts[ev.res] = False
    pos, k, result, names = 0, 0, None, []

    def bad(ev, msg):
        ctx.req(False, 'R4', inst, ev or f, msg)

    def take(what):
        nonlocal k
        if k < len(steps) and last(steps[k].name) == what:
            k += 1
            return steps[k - 1]
        bad(steps[k] if k < len(steps) else None, 'operation %d is not applied next: %s' % (pos, 'the work ends' if k >= len(steps) else last(steps[k].name)))
        return None
    own = ('fld', T, 'outfix')
    while pos < n:
        j = run_end(ops, pos)
        ev = take({'S': 'startSingle', 'G': 'startGather', 'U': 'startSubset'}[ops[pos]])
        if ev is None:
            return
        a, b = at(ev.args[0]), at(ev.args[1])
        if not ctx.req(a == pos and (b == n or b == j and ops[pos] == 'S'), 'R4', inst, ev, 'works off operations %s to %s instead of %d to %d' % (a, b, pos, j)):
            return
        if ops[pos] != 'U':
            o = ev.mem.get('outfix')
            if j == n or ops[pos] == 'G':
                ctx.req(o == own, 'R4', inst + ': name', ev, 'the output is written under another name: %s' % show(o)[:80])
            else:
                ctx.req(o is not None and o != own and o not in names, 'R4', inst + ': names', ev, 'intermediate files get the names of other files: %s' % show(o)[:80])
                names.append(o)
        if ops[pos] == 'S' and j < n:
            if take('drop') is None:
                return
            ad = take('add')
            if ad is None:
                return
            L = ad.loops[-1] if ad.loops else None
            r = ev.res
            ok = L is not None and L.trip is not None and same(L.trip, ('size', r)) and contains(ad.args[0], lambda x: x == ('ld', ('arr', r), ('k', L.id)))
            ctx.req(ok, 'R4', inst + ': files', ad, 'the following operations do not work on all files just written')
        if j == n and ops[pos] != 'U':
            result = (ops[pos], ev.res)
        pos = j
    ctx.req(k == len(steps), 'R4', inst, steps[k] if k < len(steps) else f, 'goes on after the last operation with %s' % (last(steps[k].name) if k < len(steps) else ''))
    ctx.req(e.rd(lo, e.final) == own or not names, 'R4', inst + ': name restored', f, 'the name of the output is lost')
    v = settle(e.ret, facts)
    if result is None:
        ok = v[0] == 'vec' and v[2] == C(0)
    else:
        ok = v == result[1]
    ctx.req(ok, 'R4', inst + ': result', f, 'returns %s' % show(v)[:100])


def chain(ctx, job):
    kind, ops = job
    n = len(ops)
    f = one(ctx, N + 'calcFunc', 4)
    lev = OPT['SingleTrace' if kind == 'S' else 'Gather']
    inst = '%s block, operations %s' % ('trace' if kind == 'S' else 'gather', ''.join(ops) or 'none')
    blk = S('block')
    FL = {'nt': 'nt', 'gNum': 'number of the gather', 'numG': 'number of gathers'}

    def snap(e, st, ev):
        if ev.name == '<indirect>' and len(ev.args) > 1:
            b = ev.args[0]
            return {x: e.rd(('f', b[1][1] if b[0] == 'p' and b[1][0] == 'addr' else ('d', b), x), st) for x in FL}
    e = ctx.summary(f, prim=opaque('check'), mpi_ok=True, unroll=12, maxrec=8, model={F + 'OpOpt::check': has(ops)}, args=[it(0), it(n), lev, blk], snap=snap)
    ev = [x for x in e.events if x.kind == 'call' and x.name == '<indirect>' and pcv(x) != FALSE]
    for x in ev:
        ctx.need(pcv(x) == TRUE, 'whether an operation is applied')
    want = run_end(ops, 0) if ops and ops[0] == kind else 0
    done = [which(x.obj, n) for x in ev]
    if not ctx.req(done == list(range(want)), 'R3', inst, ev[0] if ev else f, 'applies operations %s instead of the first %d' % (done, want)):
        return
    cur = blk
    for x in ev:
        if not ctx.req(x.args and x.args[0] == cur, 'R3', inst + ': block', x, 'an operation gets another block than the one before it left'):
            return
        if kind == 'G':
            o = x.args[1]
            if not ctx.req(o[0] == 'p' and o[1][0] == 'addr' and o[1][1][0] == 'new' and o != cur, 'R3', inst + ': output block', x, 'the output of a gather operation is not a block of its own'):
                return
            for m in ('gNum',):
                ctx.req(x.mem.get(m) == ('fld', blk, m), 'R3', inst + ': ' + m, x, 'the operation does not get the %s' % FL[m])
            cur = o
    ctx.req(e.ret == cur, 'R3', inst + ': result', f, 'returns %s' % show(e.ret)[:80])


def subset(ctx, ops):
    n = len(ops)
    f = one(ctx, N + 'calcFuncS', 3)
    inst = 'operations ' + ''.join(ops)
    files = S(f['ps'][2]['n'])
    lens = (2, 3, 2)
    qa = ('arr', files)
    env = {('f', ('d', files), '#size'): C(len(lens))}
    for j, m in enumerate(lens):
        for x in ('ilst', 'olst'):
            env[('f', ('f', ('d', ('ld', qa, C(j))), x), '#size')] = C(m)
    q = {}
    e = ctx.summary(f, prim=opaque('check', 'cachePrm', 'cacheTrc'), mpi_ok=True, unroll=12, maxrec=8, model={F + 'OpOpt::check': has(ops)}, args=[it(0), it(n), ('LOC', ('d', files))], env=env, pure=[F + 'Cache::cachePrm', F + 'Cache::cacheTrc'])
    want = run_end(ops, 0)
    ev = [x for x in e.events if x.kind == 'call' and x.name == '<indirect>' and pcv(x) != FALSE]
    if not ctx.req([which(x.obj, n) for x in ev] == list(range(want)), 'R5', inst, f, 'applies operations %s instead of the first %d' % ([which(x.obj, n) for x in ev], want)):
        return
    ctx.req(at(e.ret) == want, 'R5', inst + ': next', f, 'goes on with operation %s' % at(e.ret))
    ca = [x for x in e.events if x.kind == 'call' and last(x.name) in ('cachePrm', 'cacheTrc') and pcv(x) != FALSE]
    for i, x in enumerate(ev):
        c = [y for y in ca if y.seq < x.seq][-1:]
        ok = c and last(c[0].name) == 'cachePrm' and which(c[0].args[0], n) == i and x.args[0] == c[0].res
        ctx.req(ok, 'R5', '%s: headers of operation %d' % (inst, i), x, 'the operation does not get the headers its rules ask for')
    # element by element
    slot = {}
    for x in e.events:
        if x.kind not in ('copy', 'store', 'fill'):
            continue
        for empty in (False, True):
            c = pcv(x)
            for y in ev:
                sz = ('size', y.res)
                c = subst(c, {sz: C(0 if empty else sum(lens))})
            c = refold(c)
            if c == FALSE:
                continue
            ctx.need(c == TRUE, 'whether %s:%d happens: %s' % (f['file'].split('/')[-1], x.line, show(c)[:150]))
            if x.kind == 'copy':
                s, m, d = x.args[:3]
                ctx.need(d[0] == 'p' and isc(d[2]) and isc(m) and s[0] == 'p', 'what is copied')
                for t in range(m[1]):
                    slot[(empty, d[1], d[2][1] + t)] = ('ld', s[1], add(s[2], C(t)))
            elif x.kind == 'store' and x.obj[0] == 'i' and isc(x.obj[2]):
                slot[(empty, x.obj[1], x.obj[2][1])] = x.args[0]
    r = ev[-1].res
    k = 0
    for j, m in enumerate(lens):
        a = ('arr', ('fld', ('ld', qa, C(j)), 'olst'))
        for t in range(m):
            ctx.req(slot.get((False, a, t)) == ('ld', ('arr', r), C(k)), 'R5', '%s: place of trace %d of file %d' % (inst, t, j), f,
                    'is not element %d of the order returned: %s' % (k, show(slot[(False, a, t)])[:80] if (False, a, t) in slot else 'not set'))
            k += 1
    ctx.req(not [s for s in slot if s[0]], 'R5', inst + ': failed operation', f, 'an operation that failed changes the order')


def refold(v):
    """fold the comparisons of constants left by a substitution"""
    for _ in range(4):
        m = {}
        for a in atoms(v, lambda z: z[0] in ('<', '==') and len(z) == 3):
            if isc(a[1]) and isc(a[2]):
                m[a] = C(int(a[1][1] < a[2][1] if a[0] == '<' else a[1][1] == a[2][1]))
        if not m:
            return v
        v = subst(v, m)
    return v


def groups(ctx):
    f = one(ctx, N + 'startSubset', 2)
    a, b = S('first'), S('end')
    e = ctx.summary(f, prim=opaque('calcFuncS'), mpi_ok=True, args=[a, b])
    ev = [x for x in e.events if x.kind == 'call' and last(x.name) == 'calcFuncS']
    if not ctx.req(len(ev) == 1 and len(ev[0].loops) == 1, 'R5', 'subsets', f, 'does not apply the operations once to each subset'):
        return
    x = ev[0]
    L = x.loops[0]
    fm = ('fld', T, 'fmap')
    el = ('ld', ('arr', fm), ('k', L.id))
    ctx.req(pcv(x) == TRUE and not L.breaks and L.trip is not None and same(L.trip, ('size', fm)), 'R5', 'subsets: all', x, 'not every subset is processed')
    ctx.req(x.args[0] == a and x.args[1] == b and contains(x.args[2], lambda y: y == ('fld', el, 'second') or y == el), 'R5', 'subsets: each', x, 'a subset gets the operations of another place')
    ctx.req(contains(e.ret, lambda y: y[0] == 'res' and last(y[1]) == 'calcFuncS'), 'R5', 'subsets: next', f, 'does not return where the subset operations end')


RI, WI = P + 'ReadInterface::', P + 'WriteInterface::'
FA = ('arr', ('fld', T, 'fmap'))


def size(l, n):
    return {('f', l, '#size'): C(n)}


def fileof(i, j):
    return ('ld', ('arr', ('fld', ('ld', FA, C(i)), 'second')), C(j))


def perm(n, off=0):
    return [0] if n == 1 else [(i + 1 + off // n % (n - 1)) % n for i in range(n)]


def sorted_by(e, obj, args):
    if not args or not isc(args[0]):
        return None
    n = args[0][1]
    l = args[1]
    off = l[2][1] if l[0] == 'p' and isc(l[2]) and contains(l[1], lambda y: y[0] == 'fld' and y[-1] == 'olst') else 0
    return ('vec', ('arr', ('order', args[1], n)), C(n), ('list', tuple(C(x) for x in perm(n, off))))


def calls(e, *names):
    return [x for x in e.events if x.kind == 'call' and last(x.name) in names]


def certain(ctx, evs):
    out = []
    for x in evs:
        c = pcv(x)
        if c == FALSE:
            continue
        ctx.need(c == TRUE, 'whether line %d happens: %s' % (x.line, show(c)[:150]))
        out.append(x)
    return out


def block_at(e, st, p):
    """the contents of a block"""
    if p[0] != 'p' or p[1][0] != 'addr':
        return {}
    l = p[1][1]
    d = {x: e.rd(('f', l, x), st) for x in ('prm', 'ns', 'inc', 'gNum')}
    t = ('f', l, 'trc')
    n = e.sizeof(t, st)
    d['n'] = n
    if isc(n):
        a = e.arrof(t, st)
        d['trc'] = [e.rd(('i', a, C(k)), st) for k in range(n[1])]
    return d


def single(ctx, layout):
    """one run of a stage of single trace operations: files of `lens` traces by group, samples and interval of each group"""
    name, lens, ns, incs, most = layout
    f = one(ctx, N + 'startSingle', 2)
    env = size(('f', TD, 'fmap'), len(lens))
    for i, g in enumerate(lens):
        env.update(size(('f', ('i', FA, C(i)), 'second'), len(g)))
        for j, n in enumerate(g):
            for x in ('ilst', 'olst'):
                env.update(size(('f', ('d', fileof(i, j)), x), n))
    files = {('fld', fileof(i, j), 'ifc'): (i, j) for i, g in enumerate(lens) for j in range(len(g))}

    def of(v, what):
        def m(e, obj, args):
            k = [files[x] for x in files if obj is not None and contains(obj, lambda y: y == x)]
            return what[k[0][0]] if len(k) == 1 else None
        return m

    def run(lens, maxima, record):
        cnt = [0]
        env1 = dict(env)
        for i, g in enumerate(lens):
            for j, n in enumerate(g):
                for x in ('ilst', 'olst'):
                    env1.update(size(('f', ('d', fileof(i, j)), x), n))

        def most(e, obj, args):
            if not args or not isc(args[0]):
                return None
            if record is not None:
                record.append(args[0])
                return args[0]
            cnt[0] += 1
            return maxima[cnt[0] - 1] if cnt[0] <= len(maxima) else None

        def snap(e, st, ev):
            q = last(ev.name)
            if q == 'calcFunc' and ev.args and len(ev.args) > 3:
                return block_at(e, st, ev.args[3])
            if q in ('writeTraceNonContiguous', 'readTraceNonContiguous') and isc(ev.args[0]) and ev.args[1][0] == 'p':
                return {'list': [e.rd(('i', ev.args[1][1], add(ev.args[1][2], C(k))), st) for k in range(ev.args[0][1])]}
        model = {RI + 'readNs': of('ns', [C(n) for n in ns]), RI + 'readInc': of('inc', incs), P + 'SEGY_utils::getDOSz': C(2 * 2**30 // 7), P + 'SEGY_utils::getDFSz': C(0),
                 P + 'Rule::paramMem': C(0), P + 'CommunicatorInterface::max': most, P + 'CommunicatorMPI::max': most, P + 'getSortIndex': sorted_by}
        return ctx.summary(f, prim=lambda q, g: not q.startswith(F) or last(q) == 'calcFunc', mpi_ok=True, unroll=12, model=model, env=env1, ctors=True, snap=snap)
    maxima = []
    big = run(most, None, maxima)
    rounds = {}
    for x in certain(ctx, calls(big, 'readTraceNonContiguous')):
        rounds[x.obj] = rounds.get(x.obj, 0) + 1
    e = run(lens, maxima, None)
    inst = 'single trace operations, ' + name

    def req(c, what, ev, msg):
        return ctx.req(c, 'R6', '%s: %s' % (inst, what), ev or f, msg)
    outs, names = {}, []
    mk = certain(ctx, calls(e, 'makeFile'))
    if not req(len(mk) == len(lens), 'files', f, 'writes %d files instead of one for each kind of traces' % len(mk)):
        return
    for i, x in enumerate(mk):
        outs[x.res] = i
        names.append(x.args[1])
    req(len(set(names)) == len(names), 'names', mk[-1], 'traces of different kinds are written to the same file %s' % show(names[-1])[:80])
    v = e.ret
    req(v[0] == 'vec' and v[2] == C(len(names)) and v[3][0] == 'list' and list(v[3][1]) == names, 'result', f, 'does not return the names of the files written')

    def outof(ev):
        k = [outs[r] for r in outs if ev.obj is not None and contains(ev.obj, lambda y: y == r)]
        return k[0] if len(k) == 1 else None
    for nm, want, what in (('writeNs', [C(n) for n in ns], 'number of samples'), ('writeInc', incs, 'interval'), ('writeText', [('fld', T, 'outmsg')] * len(lens), 'text')):
        ws = certain(ctx, calls(e, nm))
        for i in range(len(lens)):
            got = [x for x in ws if outof(x) == i]
            req(got and got[-1].args[0] == want[i], 'the %s of file %d' % (what, i), got[-1] if got else f, 'is ' + (show(got[-1].args[0])[:80] if got else 'not written'))
    # traces
    reads, cur = {}, None
    done = {}
    params = {}
    ev = certain(ctx, calls(e, 'readTraceNonContiguous', 'writeTraceNonContiguous', 'calcFunc', 'cpyPrm'))
    src, blk = {}, None
    for x in ev:
        q = last(x.name)
        if q == 'readTraceNonContiguous':
            k = [files[y] for y in files if contains(x.obj, lambda z: z == y)]
            if not req(len(k) == 1, 'reading', x, 'reads from something other than a file of the set'):
                return
            reads.setdefault(k[0], []).append(x)
            cur, src, blk = (k[0], x), {}, None
        elif q == 'cpyPrm':
            if cur is not None and cur[1].args[3] == x.args[1] and isc(x.args[0]) and isc(x.args[2]):
                src[(x.args[3], x.args[2][1])] = x.args[0][1]
        elif q == 'calcFunc':
            if not req(x.args[0] == S(f['ps'][0]['n']) and x.args[1] == S(f['ps'][1]['n']), 'operations', x, 'a block does not go through the operations of the stage'):
                return
            blk = x
            if cur is not None and isc(cur[1].args[0]) and cur[1].args[0][1]:
                req(x.args[2] == OPT['SingleTrace'], 'operations', x, 'a block goes through the operations of another kind')
        else:
            if not req(cur is not None and blk is not None and outof(x) == cur[0][0], 'writing', x, 'writes a block that was not read and processed, or to the file of other traces'):
                return
            (i, j), r = cur
            n = r.args[0][1]
            got = done.setdefault((i, j), [0, 0])
            got[1] += 1
            if not req(x.args[0] == C(n), 'writing', x, 'writes %s of %d traces read' % (show(x.args[0]), n)):
                return
            if n == 0:
                continue
            fl = fileof(i, j)
            ok = r.mem.get('list') == [('ld', ('arr', ('fld', fl, 'ilst')), C(got[0] + t)) for t in range(n)]
            if not req(ok, 'reading file %d.%d' % (i, j), r, 'a block does not hold the traces after those of the last block'):
                return
            m = blk.mem
            req(m.get('ns') == C(ns[i]), 'samples of a block', blk, 'the operations get %s samples for each trace' % show(m['ns'])[:60] if 'ns' in m else 'unknown block')
            req(m.get('inc') == incs[i], 'interval of a block', blk, 'the operations get the interval %s' % show(m['inc'])[:60] if 'inc' in m else 'unknown block')
            for t, s in enumerate(perm(n, got[0])):
                w = 'trace %d of a block of %d' % (t, n)
                h = src.get((m.get('prm'), t))
                if h is None and m.get('prm') == r.args[3]:
                    h = t
                req(h == s, w + ': header', blk, 'is the header of trace %s instead of %d' % (h, s))
                for k in range(ns[i]):
                    z = t * ns[i] + k
                    v = m['trc'][z] if z < len(m.get('trc', ())) else None
                    req(v == ('outel', r.name, 2, r.seq, C(s * ns[i] + k)), w + ': samples', blk, 'sample %d is %s' % (k, show(v)[:80] if v else 'missing'))
                pl = x.mem.get('list', [None] * n)[t]
                req(pl == ('ld', ('arr', ('fld', fl, 'olst')), C(got[0] + s)), w + ': place', x, 'is written at %s' % (show(pl)[:80] if pl else None))
            req(contains(x.args[2], lambda y: y == blk.res) and contains(x.args[3], lambda y: y == blk.res), 'what is written', x, 'is not what the operations left')
            got[0] += n
            cur = (cur[0], r._replace(args=(C(0),) + r.args[1:]))
    for i, g in enumerate(lens):
        for j, n in enumerate(g):
            got = done.get((i, j), [0, 0])
            req(got[0] == n, 'traces of file %d.%d' % (i, j), f, '%d of %d are processed' % (got[0], n))
            rr = len(reads.get((i, j), ()))
            o = [x for x in rounds if contains(x, lambda y: y == ('fld', fileof(i, j), 'ifc'))]
            req(rr == got[1] == sum(rounds[x] for x in o), 'rounds of file %d.%d' % (i, j), f, '%d reads and %d writes where a process with more traces has %d' % (rr, got[1], sum(rounds[x] for x in o)))


def added(ctx):
    f = [g for g in fns(ctx, N + 'add', 1) if 'ReadInterface' in g['ps'][0]['t']]
    ctx.need(len(f) == 1, 'one function adds a file')
    f = f[0]
    fi = S(f['ps'][0]['n'])
    args = []

    def dec(e, o, a):
        args.append(a)
        return ('agg', 'exseis::utils::Contiguous_decomposition', (('global_offset', S('first')), ('local_size', C(3))))
    e = ctx.summary(f, prim=opaque(), mpi_ok=True, unroll=6, model={U + 'block_decomposition': dec})
    nt, ns, inc = (('call', RI + x, (fi,)) for x in ('readNt', 'readNs', 'readInc'))
    cm = ('fld', ('fld', T, 'piol'), 'comm')
    RK = [('call', P + 'CommunicatorInterface::' + x, (cm,)) for x in ('getNumRank', 'getRank')]
    alt = [('fld', T, 'numRank'), ('fld', T, 'rank')]
    ctx.req(len(args) == 1 and args[0][0] == nt and args[0][1] in (RK[0], alt[0]) and args[0][2] in (RK[1], alt[1]), 'R1', 'block', f, 'the traces of this process are not its block of the traces of the file')
    key = ('agg', 'std::pair', (('first', ns), ('second', inc)))
    ins = [x for x in e.events if x.kind == 'std' and last(x.name) in ('emplace_back', 'push_back')]
    to = {}
    for x in ins:
        ctx.need(pcv(x) == TRUE, 'whether a file is added')
        o = x.obj
        if o == ('fld', T, 'file') or o == ('f', TD, 'file'):
            to.setdefault('file', []).append(x)
        elif contains(o, lambda y: y == ('f', TD, 'fmap') or y == ('fld', T, 'fmap')):
            to.setdefault('fmap', []).append(x)
            ctx.req(contains(o, lambda y: y == key), 'R1', 'kind', x, 'the file is put with files of another number of samples or interval')
    if not ctx.req(all(len(to.get(k, ())) == 1 for k in ('file', 'fmap')), 'R1', 'lists', f, 'the file is not put once into each list of files'):
        return
    a, b = to['file'][0].args[0], to['fmap'][0].args[0]
    ctx.req(a == b or contains(b, lambda y: y == a) and contains(b, lambda y: y == ('arr', ('f', TD, 'file'))), 'R1', 'lists', to['fmap'][0], 'the lists get different files')
    l = b[1][1] if b[0] == 'p' and b[1][0] == 'addr' and b[2] == C(0) else e.res(('d', b), e.final)
    ctx.req(contains(e.rd(('f', l, 'ifc'), e.final), lambda y: y == fi), 'R1', 'file', f, 'the file is not kept')
    off = ('ld', ('map', ('f', TD, 'offmap')), key)
    for x, base, what in (('ilst', S('first'), 'read'), ('olst', add(S('first'), off), 'written')):
        n = e.sizeof(('f', l, x), e.final)
        arr = e.arrof(('f', l, x), e.final)
        got = [e.rd(('i', arr, C(t)), e.final) for t in range(3)]
        ctx.req(n == C(3), 'R1', 'number of traces ' + what, f, 'is %s instead of the size of the block' % show(n)[:80])
        for t in range(3):
            ctx.req(same(got[t], add(base, C(t))), 'R1', 'place trace %d is %s' % (t, what), f, 'is ' + show(got[t])[:150])
    now = e.rd(('i', ('map', ('f', TD, 'offmap')), key), e.final)
    ctx.req(same(now, add(off, nt)), 'R1', 'next file', f, 'its traces are placed from %s' % show(now)[:150])
    g = [x for x in fns(ctx, N + 'add', 1) if x is not f]
    for h in g:
        e = ctx.summary(h, prim=opaque('add'), mpi_ok=True)
        ad = calls(e, 'add')
        if not ctx.req(len(ad) == 1, 'R1', 'pattern', h, 'files found are not added'):
            continue
        x = ad[0]
        L = x.loops[-1] if x.loops else None
        mf = [y for y in e.events if y.kind == 'call' and y.res == x.args[0]]
        ok = L is not None and L.trip is not None and (L.trip[0] == 'fld' and L.trip[-1] == 'gl_pathc' or L.trip[0] == 'out') and not L.breaks
        ctx.req(ok, 'R1', 'pattern: all', x, 'not every file found is looked at')
        ok = mf and last(mf[0].name) == 'makeFile' and contains(mf[0].args[1], lambda y: L is not None and y[0] == 'ld' and y[-1] == ('k', L.id))
        ctx.req(ok, 'R1', 'pattern: each', x, 'does not add the file found')


def whole(ctx):
    I = [S('inc0'), S('inc1')]
    J = [S('inc0'), S('inc0')]
    lay = [('%d and %d traces' % a, ((a[0],), (a[1],)), (2, 1), I, ((7,), (7,))) for a in ((7, 2), (0, 7), (3, 6))]
    lay += [('files of %d and %d' % a, (a,), (2,), I[:1], ((7, 7),)) for a in ((7, 7), (4, 0), (1, 3))]
    lay += [('one kind and another interval', ((1, 2), (2, 1)), (2, 2), I, ((2, 2), (2, 2))), ('one kind and another length', ((1,), (2,)), (1, 2), J, ((2,), (2,)))]
    ctx.pmap(single, lay)
    ctx.pmap(gathers, [(n, r, fl) for n, r, fl in ((0, 2, 1), (1, 2, 1), (3, 1, 1), (4, 2, 1), (5, 2, 1), (5, 3, 1), (3, 2, 2))])


CI = [P + c + '::' for c in ('CommunicatorInterface', 'CommunicatorMPI')]
DV = U + 'Distributed_vector<' + P + 'Gather_info>::'
FILES = ('arr', ('fld', T, 'file'))


def comm(**kw):
    return {c + k: v for c in CI for k, v in kw.items()}


def gather_run(ctx, f, N_, R, r, nf, maxima, record, ops):
    env = size(('f', TD, 'file'), nf)
    env[('f', TD, 'rank')] = C(r)
    env[('f', TD, 'numRank')] = C(R)
    tok = {'offset': [], 'sum': []}
    cnt = [0]

    def fresh(nm):
        def m(e, obj, args):
            tok[nm].append((args[0], S('%s %d' % (nm, len(tok[nm])))))
            return tok[nm][-1][1]
        return m

    def most(e, obj, args):
        if not isc(args[0]):
            record.append(None)
            cnt[0] += 1
            return C(0)
        record.append(args[0][1])
        cnt[0] += 1
        return C(maxima[cnt[0] - 1]) if maxima is not None and cnt[0] <= len(maxima) and maxima[cnt[0] - 1] is not None else args[0]

    def info(e, obj, args):
        return ('agg', P + 'Gather_info', (('num_traces', C(args[0][1] + 2)), ('inline', S('il%d' % args[0][1])), ('crossline', S('xl%d' % args[0][1])))) if args and isc(args[0]) else None

    def psize(e, obj, args):
        if obj is not None and obj[0] == 'p' and obj[1][0] == 'addr' and obj[1][1][0] == 'new':
            v = e.cur.env.get(obj[1][1]) if getattr(e, 'cur', None) is not None else None
            ev = [x for x in e.events if x.kind == 'call' and x.name.startswith('new ') and x.res == obj] or [x for x in e.events if x.kind == 'call' and x.name.startswith('new ') and x.seq == obj[1][1][2] - 1]
            return ev[-1].args[1] if ev and len(ev[-1].args) > 1 else None

    def snap(e, st, ev):
        if last(ev.name) == 'calcFunc' and len(ev.args) > 3:
            return block_at(e, st, ev.args[3])
    model = {F + 'OpOpt::check': has(ops), DV + 'size': C(N_), DV + 'operator[]': info, P + 'Param::size': psize, RI + 'readNs': C(2)}
    model.update(comm(offset=fresh('offset'), sum=fresh('sum'), max=most, getRank=C(r), getNumRank=C(R)))
    e = ctx.summary(f, prim=lambda q, g: not (q.startswith(F) or 'decomposition' in q.lower()) or last(q) in ('calcFunc', 'drop', 'add', 'check', 'makeState'), mpi_ok=True, unroll=14, model=model, env=env,
                    args=[it(0), it(len(ops))], ctors=True, snap=snap)
    return e, tok


def gathers(ctx, job):
    n, R, nf = job
    f = one(ctx, N + 'startGather', 2)
    ops = ('G', 'G')
    inst = '%d gathers on %d processes%s' % (n, R, ', %d files' % nf if nf > 1 else '')

    def req(c, what, ev, msg):
        return ctx.req(c, 'R7', '%s: %s' % (inst, what), ev or f, msg)
    rec = []
    for r in range(R):
        rec.append([])
        gather_run(ctx, f, n, R, r, nf, None, rec[-1], ops)
    maxima = [max((x for x in t if x is not None), default=None) for t in itertools.zip_longest(*rec)]
    seqs, given = [], {}
    for r in range(R):
        e, tok = gather_run(ctx, f, n, R, r, nf, maxima, [], ops)
        evs = certain(ctx, calls(e, 'makeState', 'makeFile', 'offset', 'sum', 'readTrace', 'writeTrace', 'calcFunc', 'writeNs', 'writeInc'))
        evs = [x for x in evs if not (last(x.name) == 'calcFunc' and len(x.args) < 3)]
        seqs.append([last(x.name) for x in evs if last(x.name) in ('makeFile', 'offset', 'sum', 'readTrace', 'writeTrace')])
        names, st = [], []
        out, fi, rd, blk, i, sums = None, -1, None, None, 0, ([], [])
        for x in evs:
            q = last(x.name)
            if q == 'makeState':
                v = x.args[0]
                ctx.need(v[0] == 'vec' and isc(v[2]) and v[3] is not None and v[3][0] == 'list' and all(isc(y) for y in v[3][1]) if v[0] == 'vec' and v[2] != C(0) else True, 'the gathers of a process')
                g = tuple(y[1] for y in v[3][1]) if v[0] == 'vec' and v[2] != C(0) else ()
                k = which(x.obj, len(ops))
                st.append((k, g))
            elif q == 'makeFile':
                names.append(x.args[1])
                out, fi, i, sums = x.res, fi + 1, 0, ([], [])
                if not req([k for k, g in st] == list(range(len(ops))) and len({g for k, g in st}) == 1, 'state', x, 'the operations are not told the gathers of the process once'):
                    return
                mine, st = st[0][1], []
                given.setdefault((fi, r), mine)
            elif q in ('writeNs', 'writeInc'):
                req(blk is not None and contains(x.args[0], lambda y: y == blk.res) and x.obj == out, q, x, 'is not that of the gather worked on')
            elif q == 'readTrace':
                rd = x
                blk = None
                if not req(contains(x.obj, lambda y: y == ('ld', FILES, C(fi))), 'reading', x, 'reads another file'):
                    return
                cnt = x.args[1]
                if not req(isc(cnt), 'reading', x, 'reads %s traces' % show(cnt)[:80]):
                    return
                if cnt[1] == 0:
                    req(i >= len(mine), 'extra rounds', x, 'no traces are read for a gather')
                    continue
                if not req(i < len(mine) and cnt[1] == mine[i] + 2, 'reading', x, 'reads %d traces for gather %s' % (cnt[1], mine[i] if i < len(mine) else None)):
                    return
                offs = [t for a, t in tok['offset'] if a == cnt]
                want = offs[fi] if fi < len(offs) else C(-1)
                for c in sums[0]:
                    t = [t for a, t in tok['sum'] if a == c]
                    want = add(want, t[fi] if fi < len(t) else C(-1))
                req(same(x.args[0], want), 'place of gather %d of process %d' % (i, r), x, 'is read from ' + show(x.args[0])[:100])
                sums[0].append(cnt)
            elif q == 'calcFunc':
                blk = x
                if not req(x.args[0] == it(0) and x.args[1] == it(len(ops)) and x.args[2] == OPT['Gather'], 'operations', x, 'a gather does not go through the operations of the stage'):
                    return
                if rd is None or rd.args[1] == C(0):
                    continue
                m = x.mem
                req(m.get('ns') == C(2) and contains(m.get('inc', NULL), lambda y: y[0] == 'call' and last(y[1]) == 'readInc' and contains(y, lambda z: z == ('ld', FILES, C(fi)))), 'samples', x, 'the operations get another number of samples or interval')
                req(m.get('gNum') == C(i), 'number', x, 'the operations get number %s for gather %d' % (show(m.get('gNum', NULL))[:60], i))
                req(m.get('prm') == rd.args[3], 'headers', x, 'the operations do not get the headers read')
                req(m.get('trc') == [('outel', rd.name, 2, rd.seq, C(k)) for k in range(2 * rd.args[1][1])], 'samples read', x, 'the operations do not get the samples read')
            elif q == 'writeTrace':
                if not req(blk is not None and x.obj == out, 'writing', x, 'writes a gather not worked on'):
                    return
                if rd.args[1] == C(0):
                    req(x.args[1] == C(0), 'extra rounds', x, 'writes traces')
                    continue
                o = x.args[1]
                ok = o[0] in ('call', 'res') and last(o[1]) == 'size' and contains(o, lambda y: y == blk.res)
                req(ok and contains(x.args[2], lambda y: y == blk.res) and contains(x.args[3], lambda y: y == blk.res), 'what is written', x, 'is not what the operations left')
                offs = [t for a, t in tok['offset'] if a == o]
                if not req(len(offs) == 1, 'writing', x, 'the place of the gather is not that after the gathers of the processes before'):
                    return
                want = offs[0]
                for c in sums[1]:
                    t = [t for a, t in tok['sum'] if a == c]
                    want = add(want, t[0] if len(t) == 1 else C(-1))
                req(same(x.args[0], want), 'place of result %d of process %d' % (i, r), x, 'is written at ' + show(x.args[0])[:100])
                sums[1].append(o)
                i += 1
                blk = None
        req(fi == nf - 1, 'files', f, 'works on %d of %d files' % (fi + 1, nf))
        req(len(set(names)) == len(names), 'names', f, 'gathers of different kinds are written to the same file')
        for k in range(nf):
            req(i == len(given.get((k, r), ())), 'gathers', f, '%d of %d gathers of process %d are written' % (i, len(given.get((k, r), ())), r))
        v = e.ret
        req(v[0] == 'vec' and v[2] == C(nf) and v[3][0] == 'list' and list(v[3][1]) == names, 'result', f, 'does not return the names of the files written')
    req(all(q == seqs[0] for q in seqs), 'rounds', f, 'processes take part in different numbers of rounds')
    for k in range(nf):
        flat = [g for t in itertools.zip_longest(*[given.get((k, r), ()) for r in range(R)]) for g in t if g is not None]
        req(flat == list(range(n)), 'shares', f, 'the gathers in the order they are written are %s' % flat)


def order(ctx):
    """gathers are looked for in the traces in their order"""
    f = one(ctx, N + 'startGather', 2)
    for nf in (1, 2):
        e, tok = gather_run(ctx, f, 1, 1, 0, nf, None, [], ('G', 'G')) if nf > 1 else order_run(ctx, f)
        cf = [x for x in calls(e, 'calcFunc') if len(x.args) == 2]
        if not ctx.req(len(cf) == 1, 'R7', 'order of %d files' % nf, f, 'the traces are not put in order first'):
            continue
        c = pcv(cf[0])
        if nf == 1:
            d = list(atoms(c, lambda z: z[0] == 'call' and last(z[1]) in ('operator!=', 'operator==')))
            ok = len(d) == 1 and contains(d[0], lambda y: y[0] == 'fld' and y[-1] == 'ilst') and contains(d[0], lambda y: y[0] == 'fld' and y[-1] == 'olst')
            c = [refold(subst(c, {d[0]: C(b)})) for b in (0, 1)] if ok else []
            if ok and last(d[0][1]) == 'operator==':
                c.reverse()
            ok = ok and c == [FALSE, TRUE]
        else:
            ok = c == TRUE
        ctx.req(ok, 'R7', 'order of %d files' % nf, cf[0], 'the traces are put in order when %s' % show(pcv(cf[0]))[:120])
        q = [x for x in e.events if x.kind == 'call' and last(x.name) in ('drop', 'add', 'getIlXlGathers') and x.seq > cf[0].seq]
        ok = [last(x.name) for x in q[:2]] == ['drop', 'add'] and q[1].loops and contains(q[1].args[0], lambda y: y == ('ld', ('arr', cf[0].res), ('k', q[1].loops[-1].id))) and same(q[1].loops[-1].trip, ('size', cf[0].res))
        ctx.req(ok and any(last(x.name) == 'getIlXlGathers' for x in q), 'R7', 'order of %d files: files' % nf, f, 'the gathers are not looked for in the files just written')


def order_run(ctx, f):
    env = size(('f', TD, 'file'), 1)
    return ctx.summary(f, prim=opaque('calcFunc', 'drop', 'add', 'check'), mpi_ok=True, unroll=14, env=env, args=[it(0), it(1)],
                       model={**comm(max=lambda e, o, a: a[0]), F + 'OpOpt::check': has(('G',))}), None


def gather_next(ctx):
    """operations after gathers work on the files of the gathers"""
    f = one(ctx, N + 'startGather', 2)
    for nf in (1, 2):
        e, tok = gather_run(ctx, f, 2, 1, 0, nf, None, [], ('G', 'U'))
        mk = certain(ctx, calls(e, 'makeFile'))
        q = [x for x in certain(ctx, calls(e, 'drop', 'add', 'makeFile')) if x.seq > (mk[-1].seq if mk else 0)]
        ok = [last(x.name) for x in q] == ['drop'] + ['add'] * nf and [x.args[0] for x in q[1:]] == [x.args[1] for x in mk]
        ctx.req(ok, 'R7', 'operations after gathers, %d files' % nf, q[0] if q else f, 'do not work on all files just written')
        ctx.req(e.ret[0] == 'vec' and e.ret[2] == C(0), 'R7', 'operations after gathers, %d files: result' % nf, f, 'are not applied: %s is returned' % show(e.ret)[:80])
        own = ('fld', T, 'outfix')
        ctx.req(not any(contains(x.args[1], lambda y: y == own) for x in mk), 'R7', 'operations after gathers, %d files: names' % nf, f, 'the gathers are written under the name of the output')


def headers(ctx):
    """headers for the operations on whole subsets"""
    f = one(ctx, F + 'Cache::getCache')
    d = S(f['ps'][1]['n'])
    rule = S(f['ps'][0]['n'])
    qa = ('arr', d)
    lens = (2, 3, 1)
    env = {('f', ('d', d), '#size'): C(len(lens))}
    for j, m in enumerate(lens):
        env[('f', ('f', ('d', ('ld', qa, C(j))), 'ilst'), '#size')] = C(m)
    e = ctx.summary(f, prim=opaque(), mpi_ok=True, unroll=8, env=env, args=[None, ('LOC', ('d', d))], ctors=True)
    rd = calls(e, 'readParamNonContiguous')
    if not ctx.req(len(rd) == len(lens), 'R5', 'headers', f, 'the headers of a file are read %d times' % len(rd)):
        return
    prm = rd[0].args[2]
    k = 0
    off = [x for x in calls(e, 'offset')]
    ctx.req(len(off) == 1 and off[0].args[0] == C(sum(lens)), 'R5', 'headers: offset', f, 'the numbers of the traces do not start after those of the processes before')
    for j, m in enumerate(lens):
        x = rd[j]
        fl = ('ld', qa, C(j))
        ok = contains(x.obj, lambda y: y == fl) and x.args[0] == C(m) and x.args[1] == ('p', ('arr', ('fld', fl, 'ilst')), C(0)) and x.args[2] == prm and x.args[3] == C(k)
        ctx.req(ok, 'R5', 'headers of file %d' % j, x, 'are not those of its traces, after those of the files before')
        k += m
    en = ctx.db().enums.get(P + 'Meta') or ctx.db().enums.get('exseis_Meta') or {}
    st = {}
    for x in calls(e, 'setPrm'):
        if isc(x.args[0]) and isc(x.args[1]) and x.args[3] == prm:
            ctx.need(pcv(x) == pcv(rd[0]), 'whether the number of a trace is set')
            st[(x.args[0][1], x.args[1])] = x
    vals = {}
    for (t, m), x in st.items():
        vals.setdefault(m, {})[t] = x.args[2]
    full = [v for v in vals.values() if len(v) == sum(lens)]
    ok = off and any(all(same(v[t], add(off[0].res, C(t))) for t in v) for v in full)
    ctx.req(ok, 'R5', 'headers: numbers', f, 'the traces are not numbered in their order')
    new = [x for x in e.events if x.kind == 'call' and x.name.startswith('new ') and last(x.name) == 'Param']
    ctx.req(len(new) == 1 and new[0].args[0] == rule and new[0].args[1] == C(sum(lens)), 'R5', 'headers: space', f, 'the headers are not all those the rules ask for')
    c = pcv(rd[0])
    A = sorted(atoms(c, lambda z: z[0] == '=='), key=str)
    cl = {}
    for a in A:
        fl = atoms(a, lambda z: z[0] == 'fld' and z[-1] in ('prm', 'block', 'rule') and contains(z, lambda y: y[0] == 'call' and 'find' in y[1]))
        nm = 'prm' if any(z[-1] == 'prm' for z in fl) else 'rule' if any(z[-1] == 'rule' for z in fl) else 'block' if fl else 'end' if contains(a, lambda y: y[0] == 'size') else None
        cl[a] = nm
    for a in A:
        if cl[a] in ('prm', 'block', 'end'):
            ctx.req(assume(c, a, 1) == TRUE or refold(assume(c, a, 1)) == TRUE or cl[a] == 'prm' and all_true(assume(c, a, 1), [z for z in A if z != a]), 'R5', 'headers: kept %s' % cl[a], rd[0], 'headers that were not read are taken as read')
    for g in fns(ctx, F + 'Cache::cachePrm'):
        e = ctx.summary(g, prim=opaque('getCache'), mpi_ok=True)
        gc = calls(e, 'getCache')
        ctx.req(len(gc) == 1 and gc[0].args[0] == S(g['ps'][0]['n']) and gc[0].args[1] in (S(g['ps'][1]['n']), ('d', S(g['ps'][1]['n']))) and e.ret == gc[0].res, 'R5', 'headers: rules', g, 'are read with other rules or for other files')


def all_true(c, A):
    for bits in itertools.product((0, 1), repeat=min(len(A), 6)):
        v = c
        for a, b in zip(A, bits):
            v = assume(v, a, b)
        if refold(v) not in (TRUE,):
            return False
    return True


def queued(ctx, e, f, inst):
    """the operation put at the end of the queue: (options, rule, state, what it does)"""
    put = [x for x in e.events if x.kind == 'std' and last(x.name.split('(')[0]) in ('emplace_back', 'push_back') and contains(x.obj, lambda y: y in (('fld', T, 'func'), ('f', TD, 'func')))]
    other = [x for x in e.events if x.kind == 'std' and contains(x.obj or NULL, lambda y: y in (('fld', T, 'func'), ('f', TD, 'func'))) and last(x.name) in ('emplace_front', 'push_front', 'insert', 'emplace', 'clear', 'pop_back', 'pop_front', 'erase') and (not put or x.seq < put[-1].seq)]
    if not ctx.req(len(put) == 1 and pcv(put[0]) == TRUE and not put[0].loops and not other, 'R2', inst, f, 'is not queued once at the end'):
        return None
    mk = [x for x in e.events if x.kind == 'call' and x.name.startswith('new ') and '::Op<' in x.name and contains(put[0].args[0], lambda y: y[0] == 'new' and y[1] == x.name[4:])]
    ctx.need(len(mk) == 1 and len(mk[0].args) == 4, 'the operation queued by ' + inst)
    o, rule, state, fn = mk[0].args
    lst = [v for v in atoms(o, lambda z: z[0] == 'vec') if v[3] is not None and v[3][0] == 'list']
    ctx.need(len(lst) == 1 and all(isc(x) for x in lst[0][3][1]), 'the options of ' + inst)
    return {INV.get(x) for x in lst[0][3][1]}, rule, state, fn, put[0]


def body(ctx, fn, args, **kw):
    ctx.need(fn[0] == 'lam' and fn[1] in ctx.db().lam, 'what an operation does')
    g = ctx.db().lam[fn[1]]
    return g, ctx.summary(g, args=args, cap={k: v for k, v in fn[2]}, **kw)


def operations(ctx):
    """what users queue"""
    pt = lambda *names: (lambda q, g: not q.startswith(F) or last(q) in names)
    b = S('block')
    size_ = ('call', P + 'Param::size', (('fld', b, 'prm'),))
    ns = ('fld', b, 'ns')
    trc = ('arr', ('fld', b, 'trc'))
    for nm, prim_ in (('taper', U + 'taper'), ('AGC', U + 'AGC'), ('temporalFilter', P + 'temporalFilter')):
        for f in {g['usr']: g for g in fns(ctx, N + nm)}.values():
            inst = '%s(%d)' % (nm, len(f['ps']))
            e = ctx.summary(f, prim=pt(), mpi_ok=True, ndebug=True)
            q = queued(ctx, e, f, inst)
            if q is None:
                continue
            opts, rule, state, fn, put = q
            if not ctx.req(opts & set(LEVELS) == {'SingleTrace'}, 'R2', inst + ': kind', put, 'is not done trace by trace but as %s' % ', '.join(sorted(opts & set(LEVELS)))):
                continue
            g, b_ = body(ctx, fn, [b], prim=pt(), mpi_ok=True)
            cs = [x for x in b_.events if x.kind == 'call' and x.name == prim_]
            if not ctx.req(len(cs) == 1 and pcv(cs[0]) == TRUE, 'R2', inst + ': what is done', g, 'is not applied to the traces'):
                continue
            x = cs[0]
            own = [S(p['n']) for p in f['ps']]
            if nm != 'temporalFilter':
                L = x.loops[-1] if len(x.loops) == 1 else None
                ok = L is not None and L.trip is not None and same(L.trip, size_) and not L.breaks
                ctx.req(ok, 'R2', inst + ': traces', x, 'is not applied once to each trace')
                if ok:
                    want = [ns, ('p', trc, mul(('k', L.id), ns))] + own
                    ctx.req(len(x.args) == len(want) and all(same(a, w) if w[0] != 'p' else a[0] == 'p' and a[1] == w[1] and same(a[2], w[2]) for a, w in zip(x.args, want)), 'R2', inst + ': arguments', x,
                            'a trace is given as %s' % ', '.join(show(a)[:40] for a in x.args))
            else:
                ps = {p['n']: S(p['n']) for p in f['ps']}
                want = [size_, ns, ('p', trc, C(0))]
                ok = len(x.loops) == 0 and len(x.args) >= 3 and same(x.args[0], size_) and x.args[1] == ns and x.args[2] == want[2]
                ctx.req(ok, 'R2', inst + ': traces', x, 'is not applied to all traces')
                k = len(own)
                ctx.need(k in (7, 8), 'the parameters of ' + inst)
                at_ = {'rate': (3, own[3]), 'type': (4, own[0]), 'domain': (5, own[1]), 'padding': (6, own[2]), 'window': (7, own[k - 2]), 'centre': (8, own[k - 1]), 'corners': (9, own[k - 3])}
                if k == 8:
                    at_['order'] = (10, own[4])
                for what, (p, v) in at_.items():
                    a = x.args[p] if p < len(x.args) else NULL
                    ctx.req(a == v or what == 'corners' and a[0] == 'vec' and a[3] is not None and a[3] == ('list', (v, C(0))), 'R2', '%s: %s' % (inst, what), x, 'is %s' % show(a)[:60])
                if k == 7:
                    dflt = x.args[10] if len(x.args) > 10 else None
                    ctx.req(dflt is None or isc(dflt), 'R2', inst + ': order', x, 'is %s' % show(dflt)[:60] if dflt else '')
    angles(ctx, pt)
    sorts(ctx, pt)
    output(ctx, pt)


def sorts(ctx, pt):
    b = S('block')
    fs = {g['usr']: g for g in fns(ctx, N + 'sort')}.values()
    for f in fs:
        t = [p['t'] for p in f['ps']]
        e = ctx.summary(f, prim=pt('sort'), mpi_ok=True)
        if len(t) == 2:
            inst = 'sort'
            q = queued(ctx, e, f, inst)
            if q is None:
                continue
            opts, rule, state, fn, put = q
            ctx.req(opts & set(LEVELS) == {'SubSetOnly'} and 'NeedMeta' in opts and 'NeedTrcVal' not in opts, 'R2', 'sort: kind', put, 'does not get the headers of all traces')
            ctx.req(rule == S(f['ps'][0]['n']), 'R2', 'sort: rules', put, 'gets the headers of other rules')
            g, b_ = body(ctx, fn, [b], prim=pt(), mpi_ok=True)
            cs = [x for x in b_.events if x.kind == 'call' and x.name == P + 'sort']
            if not ctx.req(len(cs) == 1, 'R2', 'sort: what is done', g, 'the traces are not sorted'):
                continue
            x = cs[0]
            c = pcv(x)
            mn = [a for a in atoms(c, lambda z: z[0] in ('res', 'call') and last(z[1]) == 'min')]
            big = subst(c, {m: C(1000) for m in mn})
            ctx.req(refold(big) == TRUE, 'R2', 'sort: when', x, 'traces are sorted only if %s' % show(c)[:100])
            v = b_.ret
            big = refold(subst(v, {m: C(1000) for m in mn}))
            if big[0] == 'ite' and isc(big[1]):
                big = big[2] if big[1] == TRUE else big[3]
            ctx.req(big == x.res, 'R2', 'sort: order', g, 'the order found is not returned: %s' % show(v)[:100])
            ctx.req(contains(x.args[1], lambda y: y == ('fld', b, 'prm')) and x.args[2] == S(f['ps'][1]['n']), 'R2', 'sort: arguments', x, 'sorts with %s' % show(x.args[2])[:60])
        else:
            cs = [x for x in e.events if x.kind == 'call' and x.name == N + 'sort']
            a = S(f['ps'][0]['n'])
            if not ctx.req(len(cs) == 1 and pcv(cs[0]) == TRUE, 'R2', 'sort by ' + t[0].split('::')[-1][:20], f, 'nothing is queued'):
                continue
            x = cs[0]
            cmp_ = x.args[-1]
            ok = cmp_ == a if 'function' in t[0] else cmp_[0] in ('res', 'call') and last(cmp_[1]) == 'getComp' and a in cmp_[3 if cmp_[0] == 'res' else 2]
            ctx.req(ok, 'R2', 'sort by ' + t[0].split('::')[-1][:20], x, 'sorts with %s' % show(cmp_)[:60])
            if len(x.args) == 2:
                ru = [z for z in e.events if z.kind == 'call' and z.name == 'new ' + P + 'Rule']
                ad = [z for z in calls(e, 'addRule') if contains(z.obj, lambda y: y == ('fld', T, 'rule'))]
                ctx.req(len(ad) >= 1, 'R2', 'sort: headers kept', f, 'the headers sorted by are not written with the traces')


def output(ctx, pt):
    f = one(ctx, N + 'output')
    e = ctx.summary(f, prim=pt('calcFunc'), mpi_ok=True,
                    snap=lambda e, st, ev: {'outfix': e.rd(('f', TD, 'outfix'), st)} if last(ev.name) == 'calcFunc' else None)
    q = queued(ctx, e, f, 'writing')
    nm = S(f['ps'][0]['n'])
    cf = certain(ctx, calls(e, 'calcFunc'))
    if ctx.req(len(cf) == 1 and len(cf[0].args) == 2, 'R8', 'output', f, 'the operations are worked off %d times' % len(cf)):
        x = cf[0]
        fa = ('arr', ('f', TD, 'func'))
        ok = x.args[0] == ('p', fa, C(0)) and x.args[1][0] == 'p' and x.args[1][1] == fa and x.args[1][2][0] == 'size'
        ctx.req(ok, 'R8', 'output: operations', x, 'not all operations are worked off')
        ctx.req(x.mem.get('outfix') == nm, 'R8', 'output: name', x, 'the output is written under the name %s' % show(x.mem.get('outfix'))[:60])
        ctx.req(e.ret == x.res, 'R8', 'output: result', f, 'does not return what was written')
        if q is not None:
            ctx.req(q[0] & set(LEVELS) == {'SingleTrace'}, 'R8', 'output: written', q[4], 'a sort would not be written')
            ctx.req(q[4].seq < x.seq, 'R8', 'output: written', x, 'the operations are worked off before writing is queued')
            g, b = body(ctx, q[3], [S('block')], prim=pt(), mpi_ok=True)
            ctx.req(not [y for y in b.events if y.kind in ('store', 'copy', 'fill', 'call')], 'R8', 'output: traces', g, 'writing changes the traces')
        cl = [y for y in e.events if y.kind == 'std' and last(y.name) == 'clear' and y.seq > x.seq]
        ctx.req(any('list' in y.name for y in cl), 'R8', 'output: done', f, 'operations that were applied stay queued')
        ctx.req(e.rd(('f', TD, 'outfix'), e.final) != nm, 'R8', 'output: once', f, 'the output is written again at the end')
    for d in fns(ctx, N + '~Set'):
        e = ctx.summary(d, prim=pt('output'), mpi_ok=True)
        o = calls(e, 'output')
        own = ('fld', T, 'outfix')
        c = pcv(o[0]) if len(o) == 1 else FALSE
        sz = [a for a in atoms(c, lambda z: z == ('size', own))]
        ok = len(o) == 1 and o[0].args[0] == own and sz and refold(subst(c, {('size', own): C(0)})) == FALSE and refold(subst(c, {('size', own): C(5)})) == TRUE
        ctx.req(ok, 'R8', 'end of a set', d, 'the output asked for at the start is not written exactly if there is one')
    g = one(ctx, N + 'text')
    e = ctx.summary(g, prim=pt(), mpi_ok=True)
    ctx.req(e.rd(('f', TD, 'outmsg'), e.final) == S(g['ps'][0]['n']), 'R8', 'text', g, 'the text is not kept for the output')
    g = one(ctx, N + 'drop')
    e = ctx.summary(g, prim=pt(), mpi_ok=True)
    gone = {k for k in ('file', 'fmap', 'offmap') for x in e.events if x.kind == 'std' and contains(x.obj or NULL, lambda y: y in (('fld', T, k), ('f', TD, k))) and (last(x.name) == 'clear' or last(x.name) == 'resize' and x.args[0] == C(0))}
    ctx.req(gone == {'file', 'fmap', 'offmap'}, 'R8', 'drop', g, 'keeps %s' % ', '.join({'file', 'fmap', 'offmap'} - gone))


def angles(ctx, pt):
    """gathers by angle: samples of the gather at the offset of the angle, under the velocity of the gather"""
    f = one(ctx, N + 'toAngle')
    e = ctx.summary(f, prim=pt(), mpi_ok=True, ctors=True)
    q = queued(ctx, e, f, 'angles')
    if q is None:
        return
    opts, rule, state, fn, put = q
    ctx.req(opts & set(LEVELS) == {'Gather'}, 'R2', 'angles: kind', put, 'is not done gather by gather')
    own = [S(p['n']) for p in f['ps']]
    mk = [x for x in e.events if x.kind == 'call' and last(x.name) in ('RadonGatherState', 'ctor') and 'RadonGatherState' in x.name]
    ctx.req(len(mk) == 1 and list(mk[0].args[1:]) == own and contains(state, lambda y: y[0] == 'new' and y[1].endswith('RadonGatherState')), 'R2', 'angles: arguments', put, 'works with other arguments')
    cap = {k: S('state') if contains(v, lambda y: y[0] == 'new') else v for k, v in fn[2]}
    s_, i_, o_ = S('state'), S('in'), S('out')
    ctx.need(S('state') in cap.values(), 'the state of the gathers')
    g, b = body(ctx, ('lam', fn[1], tuple(cap.items())), [i_, o_], prim=pt(), mpi_ok=True)
    sf = lambda n: ('fld', s_, n)
    ns, sz = ('fld', i_, 'ns'), ('call', P + 'Param::size', (('fld', i_, 'prm'),))
    st = [x for x in b.events if x.kind == 'store' and x.obj[0] == 'i' and contains(x.obj[1], lambda y: y in (('fld', o_, 'trc'), ('f', ('d', o_), 'trc')))]
    if ctx.req(len(st) == 1 and len(st[0].loops) == 2 and not any(l.breaks for l in st[0].loops), 'R2', 'angles: samples', g, 'not every sample of every angle is set'):
        x = st[0]
        L = {('ns' if same(l.trip, ns) else 'angle' if same(l.trip, sf('oGSz')) else '?'): ('k', l.id) for l in x.loops}
        if ctx.req(set(L) == {'ns', 'angle'}, 'R2', 'angles: samples', x, 'not every sample of every angle is set'):
            z, j = L['ns'], L['angle']
            ctx.req(same(x.obj[2], add(mul(j, ns), z)), 'R2', 'angles: place', x, 'a sample is set at %s' % show(x.obj[2])[:80])
            v = x.args[0]
            ok = v[0] == 'ld' and v[1] == ('arr', ('fld', i_, 'trc'))
            D = [y for y in atoms(v, lambda y: y[0] == '/') if contains(y, lambda w: w[0] == 'call' and 'round' in w[1])] if ok else []
            D = [y for y in D if same(v[2], add(mul(y, ns), z))]
            if ctx.req(len(D) == 1, 'R2', 'angles: time', x, 'a sample is not one of the same time of a trace of the gather: %s' % show(v)[:100]):
                k = D[0]
                c = pcv(x)
                lo = [a for a in atoms(c, lambda y: y[0] in ('<', '==')) if contains(a, lambda y: y == k)]
                up = any(assume(c, a, 0) == FALSE for a in lo if a == LT(k, sz))
                dn = any(assume(c, a, 0) == FALSE for a in lo if a == LT(C(0), k)) or any(assume(c, a, 1) == FALSE for a in lo if a == LT(k, C(0)))
                ctx.req(up and dn, 'R2', 'angles: range', x, 'takes samples from beyond the traces of the gather')
                vm = [y for y in atoms(k, lambda y: y[0] == 'ld' and y[1] == ('arr', sf('vtrc')))]
                w = sub(vm[0][2], mul(sf('vNs'), ('fld', i_, 'gNum'))) if len(vm) == 1 else NULL
                ok = w[0] == 'min' and contains(w, lambda y: y == sub(sf('vNs'), C(1))) and contains(w, lambda y: y == z) and contains(w, lambda y: y == sf('vInc')) and contains(w, lambda y: y == ('fld', i_, 'inc')) and not contains(w, lambda y: y == j)
                ctx.req(ok, 'R2', 'angles: velocity', x, 'does not use the velocity of the gather at the time of the sample: %s' % show(w)[:100])
                cs = [y for y in atoms(k, lambda y: y[0] == 'call' and last(y[1]).rstrip('f') == 'cos')]
                ok = len(cs) == 1 and contains(cs[0], lambda y: y == j) and contains(cs[0], lambda y: y == sf('oInc')) and not contains(cs[0], lambda y: y == z)
                dv = [y for y in atoms(k, lambda y: y[0] == 'f/') if cs and y[2] == cs[0]]
                ctx.req(ok and dv and contains(dv[0][1], lambda y: vm and y == vm[0]) and k[2] == sf('vBin'), 'R2', 'angles: offset', x, 'the trace of an angle is %s' % show(k)[:120])
    en = ctx.db().enums.get(P + 'Meta') or {'c': []}
    sp = calls(b, 'setPrm')
    for nm in ('il', 'xl'):
        m = [x for x in sp if len(x.loops) == 1 and x.args[0] == ('k', x.loops[0].id) and same(x.loops[0].trip, sf('oGSz')) and x.args[2] == ('ld', ('arr', sf(nm)), ('fld', i_, 'gNum'))]
        ctx.req(len(m) == 1, 'R2', 'angles: ' + nm, g, 'the traces of the result do not get the %s of the gather' % ('inline' if nm == 'il' else 'crossline'))
    ctx.req(len({x.args[1] for x in sp}) == 2, 'R2', 'angles: headers', g, 'inline and crossline are not both set')
    fin = lambda n: [x.args[0] for x in b.events if x.kind == 'store' and x.obj in (('f', ('d', o_), n),)]
    ctx.req(fin('ns')[-1:] == [ns], 'R2', 'angles: number of samples', g, 'is not that of the gather')
    ctx.req(fin('inc')[-1:] == [sf('oInc')], 'R2', 'angles: interval', g, 'is not the step of the angles')
    h = one(ctx, F + 'RadonGatherState::makeState')
    of, ga = S(h['ps'][0]['n']), S(h['ps'][1]['n'])

    def info(e, obj, args):
        return ('agg', P + 'Gather_info', (('num_traces', ('call', 'n', (args[0],))), ('inline_', ('call', 'il', (args[0],))), ('crossline', ('call', 'xl', (args[0],))))) if args else None
    e = ctx.summary(h, prim=pt(), mpi_ok=True, unroll=4, env={('f', ('d', of), '#size'): C(2)}, args=[('LOC', ('d', of)), None], model={DV + 'operator[]': info})
    for nm in ('il', 'xl'):
        l = ('f', TD, nm)
        for i in range(2):
            v = e.rd(('i', e.arrof(l, e.final), C(i)), e.final)
            ctx.req(v == ('call', nm, (('ld', ('arr', of), C(i)),)), 'R2', 'gathers: %s %d' % (nm, i), h, 'is %s' % show(v)[:80])
    rm = [x for x in e.events if x.kind == 'call' and last(x.name) == 'readModel']
    vt = e.rd(('f', TD, 'vtrc'), e.final)
    ok = len(rm) == 1 and rm[0].args[0] == C(2) and rm[0].args[1] == ('p', ('arr', of), C(0)) and contains(vt, lambda y: y == rm[0].res)
    ctx.req(ok, 'R2', 'gathers: velocity', h, 'the velocities kept are not those of the gathers of the process')
    for nm, q in (('vNs', 'readNs'), ('vInc', 'readInc')):
        v = e.rd(('f', TD, nm), e.final)
        ctx.req(v[0] in ('call', 'res') and last(v[1]) == q, 'R2', 'gathers: ' + nm, h, 'is %s' % show(v)[:80])
