"""MPI resources are released exactly once and file views never outlive the operation that set them.  Each library operation
that creates a datatype or sets a view, each owner of a file, info or window handle, and each remote access epoch is summarised
(operations succeeding) and the pairing is decided on the path conditions and the order of the events."""
from an.spec import *
from an.db import walk
from checks.common import LOG

FLOOR = 45
N = 'exseis::PIOL::'


def basic(v):
    """a predefined datatype"""
    return bool(atoms(v, lambda z: z[0] == 'g' and str(z[1]).startswith('ompi_mpi_'))) and not atoms(v, lambda z: z[0] == 'out')


def once(ctx, rule, inst, where, made, rel, what):
    """made and rel are lists of events: under every path made exactly as often as released"""
    tot = OR(*[pcv(x) for x in rel])
    ok = same(tot, OR(*[pcv(x) for x in made])) and all(same(AND(pcv(a), pcv(b)), FALSE) for i, a in enumerate(rel) for b in rel[:i]) and all([l.id for l in x.loops] == [l.id for l in made[0].loops] for x in rel) and all(x.seq > m.seq for x in rel for m in made if not same(AND(pcv(x), pcv(m)), FALSE))
    return ctx.req(ok and rel, rule, inst, rel[0] if rel else where, what)


def check(ctx):
    ctx.rule('R1', 'a datatype made for an operation is committed before use and freed exactly once afterwards')
    ctx.rule('R2', 'a view set for an operation is set before the transfer and reset to the plain view of the same file after it')
    ctx.rule('R3', 'an owner releases its handle exactly when it holds one')
    ctx.rule('R4', 'handle owners are not copied')
    ctx.rule('R5', 'remote access epochs are opened and closed around the transfer on the same target')
    db = ctx.db()
    this = ('d', S('this'))
    fns = [f for f in db.fns if f.get('body')]
    n = 0
    for f in fns:
        if '(anonymous class)' in f['fn'] or 'DataMPIIO' not in f['file'] and not any(str(x.get('fn')).startswith('MPI_Type_create') for x in walk(f['body'])):
            continue
        e = ctx.summary(f, prim=lambda q, g: LOG(q, g) or q.endswith(('comm::gather', 'CommunicatorMPI::gather', 'getComm')), mpi_ok=True)
        ev = [x for x in e.events if x.kind == 'call']
        made = [x for x in ev if x.name.startswith('MPI_Type_create') or x.name in ('MPI_Type_contiguous', 'MPI_Type_vector', 'MPI_Type_indexed', 'MPI_Type_dup')]
        views = [x for x in ev if x.name == 'MPI_File_set_view']
        name = f['fn'].replace(N, '')
        xf = [x for x in ev if x.name.startswith(('MPI_File_read', 'MPI_File_write')) or x.name == '<indirect>']
        for m in made:
            h = m.args[-1]
            if not (h and contains(h, lambda z: z[0] == 'v')):
                continue   # handed to the caller, judged there
            n += 1
            inst = '%s %s' % (name, m.name)
            com = [x for x in ev if x.name == 'MPI_Type_commit' and x.args[0] == h and [l.id for l in x.loops] == [l.id for l in m.loops]]
            fre = [x for x in ev if x.name == 'MPI_Type_free' and x.args[0] == h]
            once(ctx, 'R1', inst + ' committed', m, [m], com, 'the datatype is not committed exactly once')
            once(ctx, 'R1', inst + ' freed', m, [m], fre, 'the datatype is not freed exactly once on every path')
            use = [x for x in views if not basic(x.args[3]) and com and x.args[3] == ('out', 'MPI_Type_commit', 0, com[0].seq)]
            use = use or [x for x in views if not basic(x.args[3]) and [l.id for l in x.loops] == [l.id for l in m.loops]]
            ctx.req(use and com and fre and all(com[0].seq < u.seq < fre[0].seq for u in use), 'R1', inst + ' used while valid', m, 'the datatype is used before its commit or after its release')
            for u in use:
                rs = [x for x in views if basic(x.args[3]) and basic(x.args[2]) and x.args[1] == C(0) and x.seq > u.seq and [l.id for l in x.loops] == [l.id for l in u.loops]]
                once(ctx, 'R2', inst + ' view reset', u, [u], rs[:1], 'the view is not reset to the plain one on every path')
                if rs:
                    ctx.req(rs[0].args[0] == u.args[0], 'R2', inst + ' view reset file', rs[0], 'resets the view of %s, set on %s' % (show(rs[0].args[0]), show(u.args[0])))
                    mine = [x for x in xf if u.seq < x.seq < rs[0].seq]
                    ctx.req(mine, 'R2', inst + ' transfer inside', u, 'no transfer happens while the view is set')
                    ctx.req(all(x.args[0] == u.args[0] for x in mine), 'R2', inst + ' transfer file', u, 'the transfer uses another file than the view')
        if views and not made and name.split('::')[-1] not in ('strideView', 'randBlockView'):
            for v in views:
                ctx.req(basic(v.args[3]), 'R2', name + ' view', v, 'leaves a view with a derived type')
    ctx.need(n >= 6, 'datatypes made for an operation (%d)' % n)
    # R3 file and info of DataMPIIO
    nul = lambda s: ('p', ('addr', ('g', s)), C(0))
    for c, fld, fn, nn in ((N + 'DataMPIIO', 'file', 'MPI_File_close', 'ompi_mpi_file_null'), (N + 'DataMPIIO', 'info', 'MPI_Info_free', 'ompi_mpi_info_null'), (N + 'DataMPIIO::Opt', 'info', 'MPI_Info_free', 'ompi_mpi_info_null')):
        f = ctx.fn(c + '::~' + c.split('::')[-1])
        e = ctx.summary(f, prim=LOG, mpi_ok=True)
        r = [x for x in e.events if x.kind == 'call' and x.name == fn]
        cond = None
        if r:
            fl = [z for z in atoms(OR(*[pcv(x) for x in r]), lambda z: z[0] == 'fld' and z[2] == fld)]
            cond = NOT(EQ(nul(nn), fl[0])) if len(fl) == 1 else None
        ctx.req(len(r) == 1 and cond is not None and same(pcv(r[0]), cond) and repr(fld) in repr(r[0].args[0]), 'R3', c.split('::')[-1] + ' ' + fld, r[0] if r else f, 'the handle must be released exactly when it is held')
    f = ctx.fn(N + 'DataMPIIO::Init')
    e = ctx.summary(f, prim=LOG, mpi_ok=True)
    for fld, mk, nn in (('file', 'MPI_File_open', 'ompi_mpi_file_null'), ('info', 'MPI_Info_dup', 'ompi_mpi_info_null')):
        v = e.rd(('f', this, fld), e.final)
        ms = [x for x in e.events if x.kind == 'call' and x.name == mk]
        lv = []

        def lf(v, c):
            if v[0] == 'ite':
                lf(v[2], AND(c, v[1])); lf(v[3], AND(c, NOT(v[1])))
            else:
                lv.append((c, v))
        lf(v, TRUE)
        ok = len(ms) == 1 and all(x == nul(nn) and same(AND(c, pcv(ms[0])), FALSE) or x[0] == 'out' and x[1] == mk and implies(c, pcv(ms[0])) for c, x in lv)
        ctx.req(ok, 'R3', 'DataMPIIO::Init ' + fld, f, 'after construction the handle is %s' % show(v))
        st = [x for x in e.events if x.kind == 'store' and x.obj == ('f', this, fld) and ms and x.seq > ms[0].seq and not same(AND(pcv(x), pcv(ms[0])), FALSE)]
        ctx.req(not st, 'R3', 'DataMPIIO::Init %s kept' % fld, st[0] if st else f, 'overwrites a held handle')
    o = [f for f in fns if f['fn'] == N + 'DataMPIIO::Opt::Opt' and not f['ps']][0]
    e = ctx.summary(o, mpi_ok=True)
    v = e.rd(('f', this, 'info'), e.final)
    ctx.req(v == nul('ompi_mpi_info_null') or v[0] == 'out' and v[1] == 'MPI_Info_create', 'R3', 'Opt info', o, 'info starts as %s' % show(v))
    # nothing else closes or frees what these own
    for f in fns:
        for x in walk(f['body']):
            if x.get('k') == 'call' and x.get('fn') in ('MPI_File_close', 'MPI_Info_free', 'MPI_Win_free', 'MPI_Comm_free'):
                ctx.req(f.get('isdtor') or '~' in f['fn'], 'R3', '%s in %s' % (x['fn'], f['fn'].replace(N, '')), (f['file'], x['l'], f['fn']), 'an owned handle is released outside the destructor of its owner')
    # R4
    for f in fns:
        for x in walk([f['body'], f.get('inits')]):
            c = x.get('cls') or ''
            if x.get('k') == 'ctor' and (c in (N + 'DataMPIIO', N + 'DataMPIIO::Opt') or 'Distributed_vector' in c and c.endswith('Model')):
                a = x.get('a') or []
                ctx.req(not (len(a) == 1 and isinstance(a[0], dict) and not a[0].get('tmp') and cvstrip(unref(a[0].get('t', ''))) == c), 'R4', '%s in %s' % (c.replace(N, ''), f['fn'].replace(N, '')), (f['file'], x.get('l', f['line']), f['fn']), 'copies the owner of an MPI handle')
    # R3, R5 distributed vector
    for f in fns:
        if 'Distributed_vector' not in f['fn'] or '::Model::' not in f['fn']:
            continue
        nm = f['fn'].split('::')[-1]
        e = ctx.summary(f, mpi_ok=True)
        ev = [x for x in e.events if x.kind == 'call']
        inst = f['fn'].split('vector')[-1]
        if nm == 'Model':
            a = [x for x in ev if x.name.startswith('MPI_Win_')]
            ctx.req(len(a) == 1 and pcv(a[0]) == TRUE and "'win'" in repr(a[0].args[-1]), 'R3', inst + ' window', f, 'the window must be made exactly once')
        elif nm == '~Model':
            a = [x for x in ev if x.name == 'MPI_Win_free']
            ctx.req(len(a) == 1 and "'win'" in repr(a[0].args[0]), 'R3', inst + ' window', f, 'the window must be freed exactly once')
        elif nm in ('set', 'get'):
            l = [x for x in ev if x.name == 'MPI_Win_lock']
            u = [x for x in ev if x.name == 'MPI_Win_unlock']
            t = [x for x in ev if x.name in ('MPI_Put', 'MPI_Get', 'MPI_Rput', 'MPI_Rget', 'MPI_Accumulate')]
            ctx.req(len(t) == 1, 'R5', inst + ' transfer', f, 'must perform one remote access')
            if len(t) == 1 and once(ctx, 'R5', inst + ' epoch', f, l or t, u, 'lock and unlock do not pair'):
                ctx.req(l and l[0].seq < t[0].seq < u[0].seq and same(pcv(l[0]), pcv(t[0])), 'R5', inst + ' order', t[0], 'the access is outside its epoch')
                tr = t[0].args[3]
                ctx.req(l and l[0].args[1] == tr and u[0].args[0] == tr and l[0].args[3] == t[0].args[-1] and u[0].args[1] == t[0].args[-1], 'R5', inst + ' target', t[0], 'epoch and access use different targets or windows')
                if nm == 'set':
                    ctx.req(l and l[0].args[0] == C(1) or l and 'EXCL' in str(l[0].args[0]), 'R5', inst + ' exclusive', l[0] if l else f, 'writing needs an exclusive lock')
