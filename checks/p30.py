"""Collective operations compute what they are named for.  Each operation of the MPI communicator is summarised (MPI
operations succeeding) and the reduction operator, contribution, element type, count, communicator and returned value are
compared with its meaning; rank and size come from the communicator itself; wrappers forward to the operation of their name."""
from an.spec import *
from checks.common import LOG
from checks.fwd import forward

FLOOR = 50
N = 'exseis::PIOL::'
CI = N + 'CommunicatorMPI::'


def deref(v):
    """the location a pointer value addresses"""
    if v[0] == 'addr':
        return v[1]
    if v[0] == 'p' and isc(v[2]) and v[2][1] == 0:
        return deref(v[1])
    return None


def glob(v, n):
    return atoms(v, lambda z: z[0] == 'g') == {('g', n)}


def check(ctx):
    ctx.rule('R1', 'sum, max and min reduce the contribution of every rank with the operator of their name and return the result')
    ctx.rule('R2', 'offset is the sum of the contributions of the lower ranks, zero on rank 0')
    ctx.rule('R3', 'gather returns the contributions of all ranks in rank order')
    ctx.rule('R4', 'rank and size are those of the communicator; a barrier waits on it')
    ctx.rule('R5', 'the public wrappers perform the operation of their name')
    this = ('d', S('this'))
    fld = lambda n: e.rd(('f', this, n), {})
    comm = None
    db = ctx.db()
    # R4
    g = ctx.fn(CI + 'getComm')
    eg = ctx.summary(g)
    comm = eg.ret
    ctx.req(comm is not None and comm[0] == 'fld' and comm[1] == S('this'), 'R4', 'getComm', g, 'returns %s' % (show(comm) if comm else 'nothing'))
    gf = {}
    for n in ('getRank', 'getNumRank'):
        f = ctx.fn(N + 'CommunicatorInterface::' + n)
        r = ctx.summary(f).ret
        if ctx.req(r is not None and r[0] == 'fld' and r[1] == S('this'), 'R4', n, f, 'returns %s' % (show(r) if r else 'nothing')):
            gf[n] = r[2]
    f = ctx.fn(CI + 'CommunicatorMPI')
    e = ctx.summary(f, prim=LOG, mpi_ok=True)
    opt = S(f['ps'][1]['n'])
    c0 = e.rd(('f', this, comm[2]), e.final)
    ctx.req(c0 is not None and c0[0] == 'fld' and c0[1] == opt, 'R4', 'communicator kept', f, 'the communicator kept is %s' % show(c0))
    for n, op in (('getRank', 'MPI_Comm_rank'), ('getNumRank', 'MPI_Comm_size')):
        x = [x for x in e.events if x.kind == 'call' and x.name == op]
        if ctx.req(len(x) == 1 and pcv(x[0]) == TRUE and x[0].args[0] == c0, 'R4', op, x[0] if x else f, '%s must be asked once of the communicator kept' % op) and n in gf:
            v = e.rd(('f', this, gf[n]), e.final)
            ctx.req(v[0] == 'out' and v[1] == op, 'R4', n + ' value', f, '%s returns %s' % (n, show(v)))
    f = ctx.fn(CI + 'barrier')
    e = ctx.summary(f, prim=LOG, mpi_ok=True)
    x = [x for x in e.events if x.kind == 'call']
    ctx.req(len(x) == 1 and x[0].name == 'MPI_Barrier' and x[0].args[0] == comm and pcv(x[0]) == TRUE and not x[0].loops, 'R4', 'barrier', f, 'barrier performs %s' % ', '.join(showev(y)[:80] for y in x))
    # R1, R2
    prim = lambda q, g: LOG(q, g) or q.endswith('getNumRank') or q.endswith('getRank')
    for n, op in (('sum', 'sum'), ('max', 'max'), ('min', 'min'), ('offset', 'sum')):
        rule = 'R2' if n == 'offset' else 'R1'
        f = ctx.fn(CI + n)
        e = ctx.summary(f, prim=prim, mpi_ok=True)
        val = S(f['ps'][0]['n'])
        x = [x for x in e.events if x.kind == 'call' and x.name.startswith('MPI_')]
        want = 'MPI_Exscan' if n == 'offset' else 'MPI_Allreduce'
        if not ctx.req(len(x) == 1 and x[0].name == want and pcv(x[0]) == TRUE and not x[0].loops, rule, n + ' operation', x[0] if x else f, '%s performs %s' % (n, ', '.join(y.name for y in x) or 'nothing')):
            continue
        x = x[0]
        inpl = x.args[0][0] == 'ptrc' or isc(x.args[0])
        d = x.mem.get(('s', 1 if inpl else 0))
        ctx.req(d is not None and same(d, val), rule, n + ' contribution', x, 'contributes %s' % (show(d) if d else show(x.args[0])))
        ctx.req(same(x.args[2], C(1)), rule, n + ' count', x, 'reduces %s elements' % show(x.args[2]))
        ctx.req(glob(x.args[3], 'ompi_mpi_unsigned_long'), rule, n + ' type', x, 'as %s' % show(x.args[3]))
        ctx.req(glob(x.args[4], 'ompi_mpi_op_' + op), rule, n + ' operator', x, 'with %s' % show(x.args[4]))
        ctx.req(x.args[5] == comm, rule, n + ' communicator', x, 'on %s' % show(x.args[5]))
        o = lambda v: v[0] == 'out' and v[1] == want
        r = e.ret
        if n == 'offset':
            at = [z for z in atoms(r, lambda z: (z[0] == 'fld' or z[0] == 'call') and z[1] in (S('this'), N + 'CommunicatorInterface::getRank'))]
            rk = at[0] if len(at) == 1 else None
            ok = rk is not None and (rk[0] == 'call' or rk[2] == gf.get('getRank'))
            ctx.req(ok and same(subst(r, {rk: C(0)}), C(0)), rule, 'offset on rank 0', f, 'returns %s on rank 0' % show(r))
            if rk is not None:
                k = S('k')
                r = assume(subst(r, {rk: ADD(k, C(1))}), {GE(k, C(0)): True}) if False else subst(r, {rk: C(3)})
        ctx.req(o(r), rule, n + ' result', f, 'returns %s' % show(r))
    # R3
    gs = [f for f in db.find(CI + 'gather') if f.get('body')]
    ctx.need(len(gs) >= 4, 'gather overloads')
    T = {'long long': 'ompi_mpi_long_long_int', 'unsigned long': 'ompi_mpi_unsigned_long', 'float': 'ompi_mpi_float', 'double': 'ompi_mpi_double', 'long': 'ompi_mpi_long', 'int': 'ompi_mpi_int', 'char': 'ompi_mpi_char', 'unsigned char': 'ompi_mpi_unsigned_char'}
    for f in gs:
        pt = f['pt'][0]
        single = 'vector' not in pt
        t = pt.split('<')[1].split(',')[0] if not single else pt.replace('const ', '').replace(' &', '')
        inst = 'gather ' + t + (' value' if single else '')
        e = ctx.summary(f, prim=lambda q, g: prim(q, g) or g is not f and g is not None and q.endswith('::gather') and 'MPIGather' not in q and 'vector' in str(g.get('pt')), mpi_ok=True)
        p = S(f['ps'][0]['n'])
        if single and not any(x.name == 'MPI_Allgather' for x in e.events if x.kind == 'call'):
            x = [x for x in e.events if x.kind == 'call' and x.name.endswith('::gather')]
            if ctx.req(len(x) == 1 and pcv(x[0]) == TRUE and x[0].obj == S('this'), 'R3', inst + ' forwards', f, 'must gather the one value'):
                a = x[0].args[0]
                ctx.req(a[0] == 'vec' and a[2] == C(1) and contains(a[3], lambda z: z == p), 'R3', inst + ' list', x[0], 'gathers %s' % show(a))
                ctx.req(e.ret == x[0].res or e.ret[0] == 'call' and e.ret[1] == x[0].name, 'R3', inst + ' result', f, 'returns %s' % show(e.ret))
            continue
        x = [x for x in e.events if x.kind == 'call' and x.name.startswith('MPI_')]
        if not ctx.req(len(x) == 1 and x[0].name == 'MPI_Allgather' and pcv(x[0]) == TRUE and not x[0].loops, 'R3', inst + ' operation', x[0] if x else f, 'performs %s' % ', '.join(y.name for y in x)):
            continue
        x = x[0]
        n = ('size', p)
        cnt = lambda v: v[-1] if v[0] == 'cast' else v
        src = x.args[0]
        ctx.req(src == ('arr', p) or src[0] == 'p' and src[1] == ('arr', p) and src[2] == C(0), 'R3', inst + ' contribution', x, 'contributes %s' % show(src))
        for i, w in ((1, 'sent'), (4, 'received')):
            ctx.req(same(cnt(x.args[i]), n), 'R3', '%s %s' % (inst, w), x, '%s elements %s per rank' % (show(x.args[i]), w))
        for i in (2, 5):
            ctx.req(glob(x.args[i], T[t]), 'R3', '%s type %d' % (inst, i), x, 'as %s' % show(x.args[i]))
        ctx.req(x.args[6] == comm, 'R3', inst + ' communicator', x, 'on %s' % show(x.args[6]))
        r = e.ret
        ok = r is not None and r[0] == 'vec' and (r[1] == x.args[3] or x.args[3][0] == 'p' and x.args[3][1] == r[1] and x.args[3][2] == C(0))
        ctx.req(ok, 'R3', inst + ' result', f, 'returns %s' % (show(r) if r else 'nothing'))
        if ok:
            nr = [z for z in atoms(r[2], lambda z: z[0] in ('call', 'fld'))]
            ctx.req(len(nr) == 1 and (nr[0][0] == 'call' and nr[0][1].endswith('getNumRank') or nr[0][0] == 'fld' and nr[0][2] == gf.get('getNumRank')) and same(r[2], mul(nr[0], n)), 'R3', inst + ' length', f, 'the result has %s elements' % show(r[2]))
            ctx.req(r[3][0] == 'fillv' and r[3][3][0] == 'outel' and r[3][3][1] == 'MPI_Allgather' or r[3][0] == 'outel', 'R3', inst + ' unchanged', f, 'the gathered values are changed: %s' % show(r[3]))
    # R5
    for q, tgt, sz in (('ExSeis::getRank', 'getRank', 0), ('ExSeis::getNumRank', 'getNumRank', 0), ('ExSeis::barrier', 'barrier', 0), ('ExSeis::max', 'max', 1)):
        f = ctx.fn(N + q)
        e = ctx.summary(f, prim=lambda q, g: LOG(q, g) or 'Communicator' in q)
        x = [x for x in e.events if x.kind == 'call' and x.name.split('::')[-1] == tgt]
        forward(ctx, 'R5', f, e, tgt, None, [S(p['n']) for p in f['ps']], sz or tgt.startswith('get'), q)
