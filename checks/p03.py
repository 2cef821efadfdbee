"""Collective matching.  For every function through which ranks communicate, the sequence of collective operations is
extracted from its summary as a regular expression of (operation, gate, trip count).  A gate or trip count may only
depend on values that are equal on all ranks (reductions, file-wide parameters, configuration); local counts, offsets,
buffer contents and the rank itself are rank-variant.  Two adjacent loops with the same body are one loop whose trip
count is the sum, which is how padding (own chunks + (largest - own) empty calls) is recognised as uniform."""
from an.spec import *

FLOOR = 60
MPI = set('MPI_Allreduce MPI_Allgather MPI_Allgatherv MPI_Exscan MPI_Scan MPI_Barrier MPI_Bcast MPI_Reduce MPI_Gather MPI_Gatherv MPI_Scatter MPI_Scatterv '
          'MPI_Alltoall MPI_Alltoallv MPI_File_open MPI_File_close MPI_File_set_view MPI_File_set_size MPI_File_preallocate MPI_File_sync MPI_File_read_at_all MPI_File_write_at_all '
          'MPI_File_read_all MPI_File_write_all MPI_Win_create MPI_Win_allocate MPI_Win_free MPI_Win_fence MPI_Comm_split MPI_Comm_dup MPI_Comm_create MPI_Comm_free MPI_Finalize'.split())
COMM = {'gather', 'sum', 'max', 'min', 'offset', 'barrier'}
DATA = {'read', 'write', 'setFileSz'}
OBJ = {'readHO', 'writeHO', 'readDO', 'writeDO', 'readDOMD', 'writeDOMD', 'readDODF', 'writeDODF', 'setFileSz'}
FILE = {'readTrace', 'readTraceNonContiguous', 'readTraceNonMonotonic', 'readParam', 'readParamNonContiguous', 'writeTrace', 'writeTraceNonContiguous',
        'writeParam', 'writeParamNonContiguous'}
REDUCE = {'gather', 'sum', 'max', 'min', 'MPI_Allreduce', 'MPI_Allgather'}


def collname(x):
    if x.kind != 'call':
        return None
    n = x.name
    if n in MPI:
        return n
    p = n.split('::')
    cls, m = (p[-2] if len(p) > 1 else ''), p[-1]
    if cls.startswith('Communicator') and m in COMM:
        return 'comm.' + m
    if cls.startswith('Data') and m in DATA:
        return 'data.' + m
    if cls.startswith('Object') and m in OBJ:
        return 'obj.' + m
    if n.startswith('exseis::Flow::Set::') and m in SETOPS:
        return 'set.' + m
    if cls in ('ReadInterface', 'WriteInterface', 'ReadSEGY', 'WriteSEGY', 'ReadDirect', 'WriteDirect') and m in FILE:
        return 'file.' + m
    return None


def unld(a):
    return subst(a, {b: ('uniform', 'y') for b in atoms(a, lambda b: b[0] == 'ld' and contains(b[1], lambda z: z[0] == 'uniform'))})


class Checker:
    def __init__(self, ctx, variant):
        self.ctx = ctx
        self.variant = variant     # pred on atoms
        self.map = {}
        self.uni = set()       # collectives whose results are equal on all ranks
        self.n = 0

    def isvar(self, v):
        v = subst(v, self.map) if self.map else v
        if self.uni:
            v = subst(v, {a: ('uniform', 'o') for a in atoms(v, lambda a: a[0] in ('out', 'outel') and (a[1], a[-1]) in self.uni)})
        v = subst(v, {a: ('uniform', 'x') for a in atoms(v, lambda a: a[0] in ('ld', 'size', 'red') and contains(a, lambda b: b[0] == 'uniform') and not contains(unld(a), self.variant))})
        for c in conds(v):
            # the gate may mention a rank-variant condition without depending on it
            if contains(c, self.variant) and same(assume(v, c, 1), assume(v, c, 0)):
                v = assume(v, c, 1)
        return contains(v, self.variant)

    def tree(self, evs, depth=0):
        items, i = [], 0
        while i < len(evs):
            x = evs[i]
            if len(x.loops) > depth:
                l = x.loops[depth]
                j = i
                while j < len(evs) and len(evs[j].loops) > depth and evs[j].loops[depth] is l:
                    j += 1
                items.append(('loop', l, evs[i:j], self.tree(evs[i:j], depth + 1), x))
                i = j
            else:
                items.append(('op', x))
                i += 1
        return items

    def canon(self, items, known, out):
        """-> list of (kind, sig..); appends problems to out"""
        res = []
        for it in items:
            if it[0] == 'op':
                x = it[1]
                nm = collname(x)
                c = self.gate(x, known)
                if c == FALSE:
                    continue
                if nm.split('.')[-1] in REDUCE and x.res is not None and not isc(x.res):
                    self.n += 1
                    self.map[x.res] = ('uniform', 'r')
                if nm in ('MPI_Allreduce', 'MPI_Allgather', 'MPI_Bcast') and not self.isvar(c):
                    self.uni.add((nm, x.seq))
                    self.map[('out', nm, 1, x.seq)] = ('uniform', 'r')
                res.append(('op', nm, c, x))
            else:
                _, l, evs, sub_, x = it
                m0 = dict(self.map)
                body = self.canon(sub_, known + [NOT(EQ(l.trip, C(0))), LT(C(0), l.trip)], out)
                if not body:
                    continue
                t = subst(l.trip, self.map)
                if t == C(0):
                    continue
                g = self.loopgate(evs, known, l)
                if res and res[-1][0] == 'loop' and self.sig(res[-1][3]) == self.sig(body) and same(res[-1][2], g):
                    res[-1] = ('loop', add(res[-1][1], t), g, body, x)
                elif res and res[-1][0] == 'loop' and self.sig(res[-1][3]) == self.sig(body) and not self.isvar(g):
                    res[-1] = ('loop', add(res[-1][1], ITE(g, t, C(0))), res[-1][2], body, x)
                else:
                    res.append(('loop', t, g, body, x))
        return self.merge(self.alternatives(res))

    def merge(self, res):
        """adjacent executions of one operation under exclusive gates are one execution"""
        out = []
        for b in res:
            if b[0] == 'op' and out and out[-1][0] == 'op' and out[-1][1] == b[1] and same(AND(out[-1][2], b[2]), FALSE):
                out[-1] = ('op', b[1], OR(out[-1][2], b[2]), b[3])
            else:
                out.append(b)
        return out

    def alternatives(self, res, depth=0):
        """a rank-variant condition under which both outcomes execute the same sequence does not matter"""
        vs = []
        for b in res:
            for v in ([b[2]] if b[0] == 'op' else []):
                if self.isvar(v):
                    vs += [c for c in conds(v) if c not in vs and self.isvar(c)]
        for c in vs[:4] if depth < 4 else []:
            a, b = (self.alternatives(self.under(res, c, t), depth + 1) for t in (1, 0))
            if self.sig(self.merge(a)) == self.sig(self.merge(b)):
                return a
        return res

    def under(self, res, c, t):
        out = []
        for b in res:
            if b[0] == 'op':
                g = assume(b[2], c, t)
                if g == FALSE:
                    continue
                out.append(('op', b[1], g, b[3]))
            else:
                n = assume(b[1], c, t)
                body = self.under(b[3], c, t)
                if n != C(0) and body:
                    out.append(('loop', n, b[2], body, b[4]))
        return out

    def gate(self, x, known):
        c = AND(*[p for p in x.pc if subst(p, self.map) not in [subst(k, self.map) for k in known]])
        return subst(c, self.map)

    def loopgate(self, evs, known, l):
        return TRUE

    def sig(self, body):
        out = []
        for b in body:
            if b[0] == 'op':
                out.append(('op', b[1], show(b[2])))
            else:
                out.append(('loop', show(b[1]), self.sig(b[3])))
        return tuple(out)

    def verify(self, body, rule, inst, fn):
        for b in body:
            if b[0] == 'op':
                self.ctx.req(not self.isvar(b[2]), rule, '%s %s' % (inst, b[1]), b[3],
                             'collective %s is executed only when %s, which can differ between ranks' % (b[1], show(b[2])))
            else:
                self.ctx.req(not self.isvar(b[1]), rule, '%s loop' % inst, b[4], 'collectives in a loop of %s iterations, which can differ between ranks' % show(b[1]))
                self.verify(b[3], rule, inst, fn)

    def run(self, evs, rule, inst, fn, need=True):
        ev = [x for x in evs if collname(x)]
        if need and not ev:
            raise self.ctx.Broken('no collective below ' + fn['fn'])
        c = self.canon(self.tree(ev), [], [])
        self.verify(c, rule, inst, fn)
        return c


def variant_syms(*names):
    base = {S(n) for n in names}
    base |= {('p', S(n), C(0)) for n in names}

    def f(v):
        if v in base:
            return True
        if v[0] in ('ld', 'outel', 'out'):
            return True
        if v[0] in ('call', 'res') and isinstance(v[1], str) and (v[1].endswith('::getRank') or v[1].endswith('::offset') or v[1] in ('MPI_Comm_rank', 'MPI_Exscan')):
            return True
        return False
    return f


def nolog(q, f):
    return 'Logger' in q or 'MPI_error' in q


def check(ctx):
    from an.db import Broken
    ctx.Broken = Broken
    ctx.rule('R1', 'collectives of the data layer are executed equally often and in the same order by every rank whatever its local request')
    ctx.rule('R2', 'collectives of the object layer')
    ctx.rule('R3', 'collectives of the file layer')
    ctx.rule('R4', 'each communicator operation is exactly one unconditional MPI collective')
    ctx.rule('R5', 'collectives of the operations and of the workflow layer')
    from checks import p02
    for rw, kind, f in p02.forms(ctx):
        e, evs = p02.mpi_events(ctx, f, kind)
        allev = e.events
        var = {'contiguous': ['offset', 'sz', 'd'], 'strided': ['offset', 'nb', 'd'], 'listed': ['offset', 'sz', 'd']}[kind]
        c = Checker(ctx, variant_syms(*var)).run(allev, 'R1', '%s/%s' % (rw, kind), f)
        ctx.need(c, 'no collectives')
    for q in ('Init', 'setFileSz', '~DataMPIIO'):
        f = ctx.fn('exseis::PIOL::DataMPIIO::' + q)
        e = ctx.summary(f, prim=nolog, mpi_ok=True)
        Checker(ctx, variant_syms()).run(e.events, 'R1', q, f)
    O = 'exseis::PIOL::ObjectSEGY::'
    for rw in ('read', 'write'):
        for what in ('DO', 'DOMD', 'DODF', 'HO'):
            for f in ctx.db().find(O + rw + what):
                a = [S('buf')] if what == 'HO' else [S('offset'), S('ns'), S('sz'), S('d')]
                e = ctx.summary(f, args=a)
                c = Checker(ctx, variant_syms('buf', 'offset', 'sz', 'd'))
                # the buffer pointer may be null on some ranks: both branches must transfer
                c.run(e.events, 'R2', rw + what + ('[list]' if what != 'HO' and isptr(f['pt'][0]) else ''), f)
    P = 'exseis::PIOL::'
    for f in ctx.db().find(P + 'ReadSEGY::readTrace') + ctx.db().find(P + 'WriteSEGY::writeTrace'):
        e = ctx.summary(f, args=[S('offset'), S('sz'), S('trc'), S('prm'), S('skip')], prim=nolog)
        filelayer(ctx, e, f)
    for n in ('ReadSEGY::readTraceNonContiguous', 'WriteSEGY::writeTraceNonContiguous', 'ReadSEGY::readTraceNonMonotonic'):
        f = ctx.fn(P + n)
        e = ctx.summary(f, args=[S('sz'), S('offset'), S('trc'), S('prm'), S('skip')], prim=nolog, devirt={'exseis::PIOL::ReadInterface': 'exseis::PIOL::ReadSEGY', 'exseis::PIOL::WriteInterface': 'exseis::PIOL::WriteSEGY'})
        filelayer(ctx, e, f)
    from checks.common import reader_ctor, writer_dtor
    for g in (reader_ctor, writer_dtor):
        e, f = g(ctx)
        filelayer(ctx, e, f)
    comm(ctx)
    operations(ctx)


def filelayer(ctx, e, f):
    c = Checker(ctx, variant_file)
    c.run(e.events, 'R3', f['fn'].split('PIOL::')[-1], f)


def variant_file(v):
    if v in (S('offset'), S('sz'), S('skip')):
        return True
    if v[0] in ('ld', 'outel') and not (v[0] == 'outel' and 'readHO' in str(v[1])):
        return True
    if v[0] == 'out' and 'readHO' not in str(v[1]):
        return True
    if v[0] in ('call', 'res') and isinstance(v[1], str) and (v[1].endswith('::getRank') or v[1].endswith('::offset')):
        return True
    # the writer trace count is local until it has been reduced
    if v == ('fld', S('this'), 'nt'):
        return True
    return False


def comm(ctx):
    K_ = 'exseis::PIOL::CommunicatorMPI::'
    n = 0
    for q in sorted(ctx.db().byq):
        if q.startswith(K_) and q[len(K_):] in ('sum', 'max', 'min', 'offset', 'gather', 'barrier'):
            for f in ctx.db().byq[q]:
                e = ctx.summary(f, prim=nolog, mpi_ok=True)
                ops = [x for x in e.events if collname(x)]
                inst = q[len(K_):] + str(f['pt'])
                ctx.req(len(ops) == 1 and not ops[0].pc and not ops[0].loops, 'R4', inst, ops[0] if ops else f,
                        'must execute exactly one collective unconditionally, executes %s' % [(x.name, [show(c) for c in x.pc]) for x in ops])
                n += 1
    ctx.need(n >= 10, 'communicator operations')


SETOPS = {'output', 'getMinMax', 'calcFunc', 'calcFuncS', 'startSingle', 'startGather', 'startSubset'}
LAYERS = ('src/DataMPIIO.cc', 'src/ObjectSEGY.cc', 'src/ReadSEGY.cc', 'src/WriteSEGY.cc', 'src/CommunicatorMPI.cc')


def ranky(fn):
    """values that differ between ranks in the operations / workflow layer: the rank itself, an exclusive scan, and the
    local counts and offsets an operation is given"""
    loc = set()
    if '/operations/' in fn['file'] or fn['file'].endswith(('src/minmax.cc', 'src/sort.cc', 'src/gather.cc')):
        loc = {S(p['n']) for p in fn['ps'] if p['n'] and p['t'].replace('const ', '') in ('unsigned long', 'size_t', 'long', 'int')}

    def f(v):
        if v in loc:
            return True
        if v[0] in ('call', 'res') and isinstance(v[1], str) and (v[1].endswith('::getRank') or v[1].endswith('::offset') or v[1] == 'MPI_Comm_rank'):
            return True
        if v[0] == 'out' and v[1] in ('MPI_Comm_rank', 'MPI_Exscan'):
            return True
        return v[0] == 'call' and isinstance(v[1], str) and v[1] == 'exseis::PIOL::Param::size'
    return f


def operations(ctx):
    """every function of the operations, of the workflow layer and of the utilities that reaches a collective"""
    db = ctx.db(('lib', 'util'))
    fs = [f for f in db.fns if not f.get('lambda') and f.get('body') and db.rel(f['file']) not in LAYERS and 'C_bindings' not in f['file']]
    # the most expensive summaries first
    fs.sort(key=lambda f: -(f['end'] - f['line']) if f['nm'] == 'main' or 'Set' in f['fn'] else 0)
    n = sum(ctx.pmap(operation, fs))
    ctx.need(n >= 40, 'operations that communicate (%d)' % n)


def operation(ctx, f):
    def prim(q, g):
        return (nolog(q, g) or any(q.endswith('::' + x) for x in FILE)
                or (g is not None and g is not f and q.startswith('exseis::Flow::Set::') and q.split('::')[-1] in SETOPS))
    e = ctx.summary(f, prim=prim, groups=('lib', 'util'), mpi_ok=True)
    if not any(collname(x) for x in e.events):
        return 0
    Checker(ctx, ranky(f)).run(e.events, 'R5', f['fn'].replace('exseis::', '').replace('PIOL::', ''), f)
    return 1
