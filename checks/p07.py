"""Files are opened as what they are used for, and reading never changes a file.  The open flags are evaluated for every file
mode; every construction chain from the public classes down to the MPI-IO layer must select the mode of its direction, the
caller's file name and the layer below it; from every reading operation (and destructor) no operation that writes, resizes or
deletes a file is reachable in the call graph with all overrides."""
from an.spec import *
from an.callgraph import Graph
from checks.common import LOG

FLOOR = 60
N = 'exseis::PIOL::'
CREATE, RDONLY, WRONLY, RDWR, DELC, UNIQ, EXCL, APPEND, SEQ = (1 << i for i in range(9))
WRITES = ('MPI_File_write', 'MPI_File_iwrite', 'MPI_File_set_size', 'MPI_File_preallocate', 'MPI_File_delete', 'MPI_File_set_atomicity')
OSW = ('unlink', 'remove', 'rename', 'truncate', 'ftruncate', 'fwrite', 'fopen', 'system', 'open', 'creat')


def check(ctx):
    ctx.rule('R1', 'the open flags of each file mode allow its use, create exactly what is written, and never delete or truncate')
    ctx.rule('R2', 'construction chains pick the mode of their direction, the given name, and the layer below')
    ctx.rule('R3', 'no reading operation can reach an operation that changes a file')
    ctx.rule('R4', 'no library operation deletes or replaces a file')
    db = ctx.db()
    en = {c['n']: int(c['v']) for c in db.enums[N + 'FileMode']['c']}
    ctx.need({'Read', 'Write', 'ReadWrite'} <= set(en), 'file modes')
    f = ctx.fn(N + 'DataMPIIO::Init')
    e = ctx.summary(f, prim=LOG, mpi_ok=True)
    x = [x for x in e.events if x.kind == 'call' and x.name == 'MPI_File_open']
    ctx.need(len(x) == 1, 'MPI_File_open')
    x = x[0]
    ctx.req(pcv(x) == TRUE, 'R1', 'opened', x, 'the file is opened only under %s' % show(pcv(x)))
    this = ('d', S('this'))
    mode = S(f['ps'][1]['n'])
    nm = x.args[1]
    ctx.req(contains(nm, lambda z: z[0] == 'fld' and z[2] == 'name_'), 'R1', 'name', x, 'opens %s' % show(nm))
    acc = RDONLY | WRONLY | RDWR
    want = {'Read': (RDONLY, 0), 'Write': (WRONLY, CREATE), 'ReadWrite': (RDWR, CREATE)}
    for m, (a, c) in want.items():
        v = subst(x.args[2], {mode: C(en[m])})
        ok = ctx.req(isc(v), 'R1', m + ' flags constant', x, 'flags are %s' % show(v))
        if not ok:
            continue
        v = v[1]
        ctx.req(v & acc == a, 'R1', m + ' access', x, 'access flags 0x%x' % (v & acc))
        ctx.req(v & CREATE == c, 'R1', m + ' create', x, 'creation flag 0x%x' % (v & CREATE))
        ctx.req(v & (DELC | EXCL | APPEND | SEQ) == 0, 'R1', m + ' other flags', x, 'flags 0x%x delete, refuse or append' % v)
    h = e.rd(('f', this, 'file'), e.final)
    ctx.req(h[0] == 'out' and h[1] == 'MPI_File_open', 'R1', 'handle kept', f, 'the handle kept is %s' % show(h))
    g = ctx.fn(N + 'DataMPIIO::isFileNull')
    eg = ctx.summary(g)
    fl = list(atoms(eg.ret, lambda z: z[0] == 'fld' and z[2] == 'file')) if eg.ret else []
    nl = atoms(eg.ret, lambda z: z == ('g', 'ompi_mpi_file_null')) if eg.ret else []
    ctx.req(len(fl) == 1 and nl and same(eg.ret, EQ(('p', ('addr', ('g', 'ompi_mpi_file_null')), C(0)), fl[0])), 'R1', 'isFileNull', g, 'returns %s' % show(eg.ret))
    # R2
    def chain(f, m):
        inst = f['fn'].split('::')[-1] + (' with options ' + f['pt'][-1].split('::')[2] if len(f['ps']) > 2 else '')
        e = ctx.summary(f, prim=lambda q, g: LOG(q, g) or g is not None and (g['nm'] if 'nm' in g else q.split('::')[-1]) in ('DataMPIIO', 'ObjectSEGY', 'ReadSEGY', 'WriteSEGY', 'ReadSEGYModel'))
        P = [S(p['n']) for p in f['ps']]
        nw = [x for x in e.events if x.kind == 'call' and x.name.startswith('new ')]
        d = [x for x in nw if x.name.endswith('::DataMPIIO')]
        o = [x for x in nw if x.name.endswith('::ObjectSEGY')]
        fl = [x for x in nw if x not in d + o and x.name.split('::')[-1] in ('ReadSEGY', 'WriteSEGY', 'ReadSEGYModel')]
        ctx.req(len(d) == 1 and pcv(d[0]) == TRUE, 'R2', inst + ' data layer', f, 'must open the file exactly once')
        if len(d) == 1:
            d = d[0]
            modes = [a for a in d.args[2:] if isc(a)]
            if len(P) > 2 and f['fn'].endswith('makeDefaultObj'):
                ctx.req(d.args[-1] == P[2], 'R2', inst + ' mode', d, 'opened in mode %s' % show(d.args[-1]))
            else:
                ctx.req(isc(d.args[-1]) and d.args[-1][1] == en[m], 'R2', inst + ' mode', d, 'opened in mode %s' % show(d.args[-1]))
            ctx.req(d.args[0] == P[0] and d.args[1] == P[1], 'R2', inst + ' name', d, 'opened as %s' % show(d.args[1]))
            if len(d.args) > 3 and len(P) > 4:
                ctx.req(d.args[2] in P, 'R2', inst + ' options', d, 'options %s' % show(d.args[2]))
            ctx.req(len(o) == 1 and o[0].args[0] == P[0] and o[0].args[1] == P[1] and d.res in o[0].args, 'R2', inst + ' object layer', f, 'the object layer must be built on the opened file')
            if fl or not f['fn'].endswith('makeDefaultObj'):
                ctx.req(len(fl) == 1 and len(o) == 1 and fl[0].args[0] == P[0] and fl[0].args[1] == P[1] and o[0].res in fl[0].args and (fl[0].name.split('::')[-1].startswith(m)), 'R2', inst + ' file layer', f, 'the file layer must be built on the object layer')
                if f['fn'].split('::')[-1] in ('ReadDirect', 'WriteDirect') and fl:
                    v = e.rd(('f', this, 'file'), e.final)
                    ctx.req(v == fl[0].res, 'R2', inst + ' kept', f, 'keeps %s' % show(v))
    n = 0
    for f in db.fns:
        if not f.get('body'):
            continue
        if f['fn'] == N + 'ReadDirect::ReadDirect' and len(f['ps']) >= 2:
            chain(f, 'Read'); n += 1
        elif f['fn'] == N + 'WriteDirect::WriteDirect' and len(f['ps']) >= 2:
            chain(f, 'Write'); n += 1
        elif f['fn'] == N + 'makeDefaultObj':
            chain(f, ''); n += 1
        elif f['fn'] == N + 'makeFile':
            chain(f, 'Read' if 'Read' in f['ret'] else 'Write'); n += 1
    ctx.need(n >= 6, 'construction chains (%d)' % n)
    for f in [f for f in db.fns if f['fn'] == N + 'DataMPIIO::DataMPIIO' and f.get('body')]:
        e = ctx.summary(f, prim=lambda q, g: LOG(q, g) or q.endswith('DataMPIIO::Init'))
        x = [x for x in e.events if x.kind == 'call' and x.name.endswith('DataMPIIO::Init')]
        ctx.req(len(x) == 1 and pcv(x[0]) == TRUE and x[0].args[-1] == S(f['ps'][-1]['n']) and (len(f['ps']) < 4 or x[0].args[0] == S(f['ps'][2]['n'])), 'R2', 'DataMPIIO constructor %d' % len(f['ps']), f, 'does not open with its own mode and options')
        v = e.rd(('f', this, 'name_'), e.final)
    # R3
    G = Graph(db)
    roots = []
    for c in ('ReadDirect', 'ReadSEGY', 'ReadSEGYModel', 'ReadModel', 'ReadInterface'):
        roots += [f for f in db.fns if f['fn'].startswith(N + c + '::') and f.get('body') and not f['fn'].split('::')[-1].startswith('operator')]
    for c in ('ObjectSEGY', 'ObjectInterface', 'DataMPIIO', 'DataInterface'):
        roots += [f for f in db.fns if f['fn'].startswith(N + c + '::') and f.get('body') and (f['fn'].split('::')[-1].startswith(('read', 'getFileSz', '~', c)))]
    ctx.need(len(roots) >= 40, 'reading operations (%d)' % len(roots))
    for r in roots:
        seen = G.reach([r])
        bad = [k for k in seen if isinstance(seen[k][0], str) and (seen[k][0].startswith(WRITES) or seen[k][0].split('::')[-1] in OSW and '::' not in seen[k][0])]
        ctx.req(not bad, 'R3', r['fn'].replace(N, ''), r, 'can reach %s' % (G.path(seen, bad[0]) if bad else ''))
        ctx.fns.add('%s (%s)' % (r['fn'], db.loc(r)))
    # R4
    for f in db.fns:
        if not f.get('body'):
            continue
        bad = [g for g, n in G.edges(f) if isinstance(g, str) and (g.startswith('MPI_File_delete') or g in ('unlink', 'remove', 'rename', 'truncate', 'ftruncate', 'system'))]
        if bad or 'MPIIO' in f['fn']:
            ctx.req(not bad, 'R4', f['fn'].replace(N, ''), f, 'calls %s' % (bad[0] if bad else ''))
