"""One-sided access.  The distributed vector and the coordinate windows are summarised: size and unit of every window, owner and
position of every element, access rights and epochs of every transfer, range checks, and completion before use."""
from an.spec import *
from an.db import walk
from checks.common import LOG

FLOOR = 40
N = 'exseis::utils::'


def uncast(v):
    while v is not None and v[0] == 'cast':
        v = v[-1]
    return v


def isprim(q, g):
    return LOG(q, g) or q.split('::')[-1] in ('block_decomposition', 'block_decomposition_location')


def check(ctx):
    ctx.rule('R1', 'a window exposes exactly the bytes of its elements and is addressed in elements')
    ctx.rule('R2', 'element i of a distributed vector is accessed on its owner, at its position, with its whole size')
    ctx.rule('R3', 'access outside the vector does nothing')
    ctx.rule('R4', 'a vector set by all ranks is complete before it is returned')
    ctx.rule('R5', 'remote coordinates are fetched, sent and received field by field from the matching field')
    db = ctx.db()
    models = sorted({f['cls'] for f in db.fns if f.get('body') and (f.get('cls') or '').startswith(N + 'MPI_Distributed_vector<') and f['cls'].endswith('::Model')})
    ctx.need(len(models) >= 1, 'instances of the distributed vector')
    for cls in models:
        T = cls[cls.index('<') + 1:cls.rindex('>')]
        inst = lambda s: 'vector of %s: %s' % (T.split('::')[-1], s)
        ms = {f['nm']: f for f in db.fns if f.get('body') and f.get('cls') == cls}
        c = ms['Model']
        e = ctx.summary(c, prim=isprim, mpi_ok=True)
        this = ('d', S('this'))
        fld = lambda n: e.rd(('f', this, n), e.final)
        P = [S(p['n']) for p in c['ps']]
        w = [x for x in e.events if x.kind == 'call' and x.name.startswith('MPI_Win_')]
        if not ctx.req(len(w) == 1 and w[0].name == 'MPI_Win_allocate' and pcv(w[0]) == TRUE, 'R1', inst('window'), w[0] if w else c, 'must allocate one window'):
            continue
        w = w[0]
        unit = w.args[1]
        ctx.req(isc(unit) and unit[1] > 1 and (T != 'double' or unit[1] == 8), 'R1', inst('unit'), w, 'displacement unit %s' % show(unit))
        dec = [x for x in e.events if x.kind == 'call' and x.name.endswith('block_decomposition')]
        ok = ctx.req(len(dec) == 1, 'R1', inst('decomposition'), c, 'the local size must come from the block decomposition')
        if ok:
            a = [uncast(v) for v in dec[0].args]
            ok = a[0] == P[0] and a[1][0] == a[2][0] == 'out' and a[1][1] == 'MPI_Comm_size' and a[2][1] == 'MPI_Comm_rank'
            ctx.req(ok, 'R1', inst('decomposition arguments'), dec[0], 'decomposes %s over %s at %s' % tuple(show(v) for v in a))
            z = uncast(w.args[0])
            sz = [t for t in atoms(z, lambda t: t[0] == 'fld' and t[2] == 'local_size')]
            ctx.req(len(sz) == 1 and isc(unit) and same(z, mul(sz[0], unit)), 'R1', inst('bytes'), w, 'the window has %s bytes for local_size elements of %s bytes' % (show(z), show(unit)))
        cm = {x.args[0] for x in e.events if x.kind == 'call' and x.name.startswith('MPI_Comm_')} | {w.args[3]}
        ctx.req(cm == {P[1]}, 'R1', inst('communicator'), w, 'built on %s' % ', '.join(show(v) for v in cm))
        gs = ctx.summary(ms['size'])
        ctx.req(gs.ret is not None and gs.ret[0] == 'fld' and uncast(e.rd(('f', this, gs.ret[2]), e.final)) == P[0], 'R3', inst('size'), ms['size'], 'size() is not the size given')
        ctx.req(fld('comm') == P[1], 'R2', inst('communicator kept'), c, 'keeps %s' % show(fld('comm')))
        outs = {v[2]: n for n in ('win', 'data') for v in [fld(n)] if v[0] == 'out' and v[1] == 'MPI_Win_allocate'}
        ctx.req(outs == {4: 'data', 5: 'win'}, 'R1', inst('handles kept'), c, 'window and memory are not kept')
        gsz = gs.ret
        for op in ('set', 'get'):
            f = [f for f in ctx.db(('lib',), False).fns if f.get('body') and f.get('cls') == cls and f['nm'] == op][0]
            ea = ctx.summary(f, prim=isprim, mpi_ok=True, ndebug=False)
            for x in ea.events:
                if x.kind == 'call' and x.name.startswith('__assert'):
                    i = S(f['ps'][0]['n'])
                    rk = atoms(pcv(x), lambda z: z[0] == 'out' and z[1] == 'MPI_Comm_rank')
                    v = subst(pcv(x), {z: C(0) for z in rk})
                    v = assume(v, LT(i, gsz), 1)
                    ctx.req(v == FALSE or not rk, 'R2', inst(op + ' assertion'), x, 'an assertion fails on rank 0')
        for op in ('set', 'get'):
            f = ms[op]
            e = ctx.summary(f, prim=isprim, mpi_ok=True)
            i = S(f['ps'][0]['n'])
            ev = [x for x in e.events if x.kind in ('call', 'store', 'copy', 'fill')]
            inside = LT(i, gsz)
            eff = [x for x in ev if not x.name.startswith('MPI_Comm_') and not x.name.endswith('block_decomposition_location')]
            for x in eff:
                ctx.req(implies(pcv(x), inside), 'R3', inst('%s %s inside' % (op, x.name.split('::')[-1])), x, '%s happens under %s, not only for an index inside' % (x.name, show(pcv(x))))
            loc = [x for x in ev if x.name.endswith('block_decomposition_location')]
            if not ctx.req(len(loc) == 1, 'R2', inst(op + ' location'), f, 'the owner must come from the block decomposition'):
                continue
            a = [uncast(v) for v in loc[0].args]
            ctx.req(a[0] == gsz and a[1][0] == 'out' and a[1][1] == 'MPI_Comm_size' and a[2] == i, 'R2', inst(op + ' location arguments'), loc[0], 'locates %s' % ', '.join(show(v) for v in a))
            cms = [x for x in ev if x.name.startswith('MPI_Comm_')]
            ctx.req(all(x.args[0] == ('fld', S('this'), 'comm') for x in cms), 'R2', inst(op + ' communicator'), cms[0] if cms else f, 'asks another communicator')
            isown = lambda v: uncast(v)[0] == 'fld' and uncast(v)[2] == 'rank' and repr(loc[0].res or loc[0].name)[:40] is not None and contains(v, lambda z: z[0] in ('call', 'res') and z[1].endswith('block_decomposition_location'))
            ispos = lambda v: uncast(v)[0] == 'fld' and uncast(v)[2] == 'local_index' and contains(v, lambda z: z[0] in ('call', 'res') and z[1].endswith('block_decomposition_location'))
            tr = [x for x in ev if x.name in ('MPI_Put', 'MPI_Get')]
            if not ctx.req(len(tr) == 1 and tr[0].name == ('MPI_Put' if op == 'set' else 'MPI_Get'), 'R2', inst(op + ' transfer'), tr[0] if tr else f, 'one %s expected' % ('MPI_Put' if op == 'set' else 'MPI_Get')):
                continue
            t = tr[0]
            own = [z for z in atoms(pcv(t), lambda z: z[0] == '==') if any(isown(v) for v in z[1:]) and contains(z, lambda y: y[0] == 'out' and y[1] == 'MPI_Comm_rank')]
            ctx.req(len(own) == 1 and same(pcv(t), AND(inside, NOT(own[0]))), 'R2', inst(op + ' remote'), t, 'the transfer happens under %s' % show(pcv(t)))
            one = lambda n, ty: isc(n) and atoms(ty, lambda z: z[0] == 'g') == {('g', 'ompi_mpi_byte')} and n == unit
            ctx.req(one(t.args[1], t.args[2]) and one(t.args[5], t.args[6]), 'R2', inst(op + ' amount'), t, 'transfers %s as %s' % (show(t.args[1]), show(t.args[2])))
            ctx.req(isown(t.args[3]), 'R2', inst(op + ' target'), t, 'target rank %s' % show(t.args[3]))
            ctx.req(ispos(t.args[4]), 'R2', inst(op + ' position'), t, 'target position %s' % show(t.args[4]))
            ctx.req(t.args[7] == ('fld', S('this'), 'win'), 'R2', inst(op + ' window'), t, 'window %s' % show(t.args[7]))
            lk = [x for x in ev if x.name == 'MPI_Win_lock']
            ul = [x for x in ev if x.name == 'MPI_Win_unlock']
            if ctx.req(len(lk) == 1 and len(ul) == 1, 'R2', inst(op + ' epoch'), t, 'must be inside one access epoch'):
                ctx.req(op == 'get' or lk[0].args[0] == C(1), 'R2', inst(op + ' exclusive'), lk[0], 'setting needs an exclusive lock')
                ctx.req(lk[0].args[2] == C(0), 'R2', inst(op + ' conflicts'), lk[0], 'promises that no other rank holds a conflicting lock')
                ctx.req(lk[0].seq < t.seq < ul[0].seq and isown(lk[0].args[1]) and isown(ul[0].args[0]), 'R2', inst(op + ' epoch order'), lk[0], 'lock, transfer and unlock must follow on the owner')
            src = t.args[0]

            def at(z):
                ix = [y for y in atoms(z, lambda y: y[0] in ('ld', 'i', 'p') and len(y) > 2 and contains(y[1], lambda w: w == ('fld', S('this'), 'data')))]
                return bool(ix) and all(ispos(y[2]) for y in ix)
            if op == 'set':
                val = S(f['ps'][1]['n'])
                ctx.req(src == val or src[0] == 'p' and src[2] == C(0) and val in (src[1], src[1][1] if src[1][0] == 'addr' and len(src[1]) > 1 else None) or src[0] == 'p' and contains(src, lambda z: z == val or z == ('d', val)), 'R2', inst('set value'), t, 'sends %s' % show(src))
                st = [x for x in ev if x.kind == 'store' or x.kind == 'call' and x.name.split('::')[-1] == 'operator=' or x.kind == 'copy']
                ok = ctx.req(len(st) == 1 and same(pcv(st[0]), AND(inside, own[0] if own else FALSE)), 'R2', inst('set local'), st[0] if st else f, 'one local store on the owner expected')
                if ok:
                    tgt = st[0].obj if st[0].obj is not None else st[0].args
                    ctx.req(at(tgt), 'R2', inst('set local position'), st[0], 'stores at %s' % show(tgt))
                    ctx.req(contains(st[0].args, lambda z: z == val), 'R2', inst('set local value'), st[0], 'stores %s' % showev(st[0])[:80])
            else:
                r = e.ret
                v = assume(r, inside, 1)
                if own:
                    a, b = assume(v, own[0], 1), assume(v, own[0], 0)
                    ctx.req(a[0] in ('ld', 'agg', 'fld') and at(a), 'R2', inst('get local value'), f, 'returns %s' % show(a))
                    ctx.req(b[0] == 'out' and b[1] == 'MPI_Get', 'R2', inst('get remote value'), f, 'returns %s' % show(b))
    from checks.fwd import forward
    for f in [f for f in db.fns if f.get('body') and f.get('cls') == N + 'Distributed_vector' and f['nm'] in ('get', 'set', 'size', 'operator[]')]:
        e = ctx.summary(f, prim=lambda q, g: 'Concept' in q or 'Model' in q)
        forward(ctx, 'R2', f, e, 'get' if f['nm'] == 'operator[]' else f['nm'], None, [S(p['n']) for p in f['ps']], f['nm'] != 'set', f['fn'].replace(N, ''))
    # R4: whoever fills a vector waits for everybody before handing it out
    fill = [f for f in db.fns if f.get('body') and 'Distributed_vector' not in f['fn'] and any(n.get('k') == 'ctor' and 'MPI_Distributed_vector' in str(n.get('cls')) and not n.get('move') and not n.get('copy') for n in walk(f['body']))]
    fill = [f for f in fill if any(n.get('k') == 'call' and n.get('nm') == 'set' and 'Distributed_vector' in str(n.get('cls')) for n in walk(f['body']))]
    ctx.need(len(fill) >= 1, 'functions filling a distributed vector')
    for f in fill:
        e = ctx.summary(f, prim=lambda q, g: LOG(q, g) or 'Distributed_vector' in q or 'ommunicator' in q or 'getPrm' in q)
        sets = [x for x in e.events if x.kind == 'call' and x.name.endswith('::set')]
        bar = [x for x in e.events if x.kind == 'call' and x.name.split('::')[-1] in ('barrier', 'MPI_Barrier', 'MPI_Win_fence') and pcv(x) == TRUE and not x.loops]
        ctx.req(sets and bar and max(x.seq for x in bar) > max(x.seq for x in sets), 'R4', f['fn'].split('::')[-1] + ' complete', sets[-1] if sets else f, 'the vector is returned before all ranks have set their elements')
    coords(ctx)


def coords(ctx):
    db = ctx.db(('lib', 'util'))
    F = 'exseis::PIOL::FOURD::'
    by = {}
    for n in ('createCoordsWin', 'getCoordsWin', 'sendCrd', 'recvCrd'):
        f = [f for f in db.fns if f['fn'] == F + n and f.get('body')]
        ctx.need(len(f) == 1, n)
        by[n] = (f[0], ctx.summary(f[0], groups=('lib', 'util'), mpi_ok=True))

    def slot(v):
        v = uncast(v)
        if v[0] == 'p' and isc(v[2]):
            return v[2][1]
        if v[0] == 'arr':
            return 0
        if v[0] in ('ld',) and isc(v[2]):
            return v[2][1]
        return None
    size = {'ompi_mpi_float': 4, 'ompi_mpi_double': 8, 'ompi_mpi_unsigned_long': 8, 'ompi_mpi_long_long_int': 8, 'ompi_mpi_long': 8, 'ompi_mpi_int': 4}
    tyname = lambda v: next(iter(atoms(v, lambda z: z[0] == 'g')), ('g', '?'))[1]
    f, e = by['createCoordsWin']
    crd = S(f['ps'][0]['n'])
    wins = {}
    conds_ = {}
    for x in e.events:
        if x.kind != 'call' or x.name != 'MPI_Win_create':
            continue
        b = x.args[0]
        k = slot(x.args[5])
        if not ctx.req(b[0] == 'fld' and b[1] == crd and k is not None and k not in wins, 'R5', 'window %s' % k, x, 'window of %s as %s' % (show(b), show(x.args[5]))):
            continue
        wins[k] = (b[2], x.args[2])
        conds_[b[2]] = pcv(x)
        ctx.req(isc(x.args[2]) and same(uncast(x.args[1]), mul(('fld', crd, 'sz'), x.args[2])), 'R1', 'coordinates %s' % b[2], x, 'the window has %s bytes for sz elements of %s bytes' % (show(x.args[1]), show(x.args[2])))
    ctx.need(len(wins) >= 5, 'coordinate windows')
    f, e = by['getCoordsWin']
    lr, sz = S(f['ps'][0]['n']), S(f['ps'][1]['n'])
    got = {}
    for x in e.events:
        if x.kind != 'call' or x.name != 'MPI_Get':
            continue
        b, k = x.args[0], slot(x.args[7])
        nm = b[2] if b[0] == 'fld' else show(b)
        w = wins.get(k)
        got[nm] = pcv(x)
        ctx.req(w is not None and w[0] == nm, 'R5', 'get ' + nm, x, '%s is fetched from the window of %s' % (nm, w[0] if w else 'nothing'))
        t1, t2 = tyname(x.args[2]), tyname(x.args[6])
        ctx.req(t1 == t2 and w is not None and C(size.get(t1, 0)) == w[1], 'R5', 'get %s type' % nm, x, 'fetched as %s/%s, element size %s' % (t1, t2, show(w[1]) if w else ''))
        ctx.req(uncast(x.args[3]) == lr and x.args[4] == C(0), 'R5', 'get %s source' % nm, x, 'fetched from rank %s position %s' % (show(x.args[3]), show(x.args[4])))
        n1, n2 = uncast(x.args[1]), uncast(x.args[5])
        ok = lambda n: n == sz or n[0] == 'fld' and n[2] == 'sz' and n[1] == b[1]
        ctx.req(ok(n1) and ok(n2), 'R5', 'get %s count' % nm, x, 'fetches %s of %s' % (show(n1), show(n2)))
    nw = [x for x in e.events if x.kind == 'call' and x.name == 'new ' + F + 'Coords']
    ctx.req(len(nw) == 1 and nw[0].args[0] == sz, 'R5', 'get room', nw[0] if nw else f, 'makes room for %s' % (show(nw[0].args[0]) if nw else 'nothing'))
    for nm, c in conds_.items():
        ix = S(by['createCoordsWin'][0]['ps'][1]['n'])
        ctx.req(nm in got and same(subst(got[nm], {S(f['ps'][3]['n']): ix}), c), 'R5', 'get %s condition' % nm, f, '%s is exposed under %s but fetched under %s' % (nm, show(c), show(got.get(nm, FALSE))))
    msg = {}
    for n, op, other in (('sendCrd', 'MPI_Isend', 'dest'), ('recvCrd', 'MPI_Irecv', 'source')):
        f, e = by[n]
        peer = S(f['ps'][0]['n'])
        ix = S(f['ps'][2]['n'])
        m = {}
        slots = set()
        for x in e.events:
            if x.kind != 'call' or x.name != op:
                continue
            b = x.args[0]
            nm = b[2] if b[0] == 'fld' else show(b)
            k = slot(x.args[6])
            ctx.req(k is not None and (k, ) not in slots, 'R5', '%s %s request' % (n, nm), x, 'request %s is used twice' % k)
            slots.add((k, ))
            ctx.req(uncast(x.args[3]) == peer, 'R5', '%s %s peer' % (n, nm), x, 'exchanges with %s' % show(x.args[3]))
            c = uncast(x.args[1])
            ctx.req(c[0] == 'fld' and c[2] == 'sz' and c[1] == b[1], 'R5', '%s %s count' % (n, nm), x, 'transfers %s elements' % show(c))
            ctx.req(nm not in m and isc(x.args[4]), 'R5', '%s %s once' % (n, nm), x, '%s is transferred twice' % nm)
            m[nm] = (x.args[4], tyname(x.args[2]), subst(pcv(x), {ix: S('ixline')}), x.args[5])
        ctx.req(len({v[0] for v in m.values()}) == len(m), 'R5', n + ' tags', f, 'two fields share a tag')
        msg[n] = m
    f = by['recvCrd'][0]
    for nm in sorted(set(msg['sendCrd']) | set(msg['recvCrd'])):
        ctx.req(msg['sendCrd'].get(nm) == msg['recvCrd'].get(nm), 'R5', 'exchange ' + nm, f, '%s is sent as %s but received as %s' % (nm, msg['sendCrd'].get(nm), msg['recvCrd'].get(nm)))
