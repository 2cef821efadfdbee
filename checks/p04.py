"""Communicator confinement.  Every communicator handed to an MPI operation by the library must be the one its library object
was created on: the value is traced back through accessors, options and constructors; the world and self communicators may
appear only as the default the user can override."""
from an.spec import *
from an.db import walk
from checks.common import LOG

FLOOR = 40
N = 'exseis::PIOL::'


def leaves(v):
    return leaves(v[2]) + leaves(v[3]) if v[0] == 'ite' else [v]


def bad_comm(v, own):
    for l in leaves(v):
        if l[0] == 'call' and l[1].endswith('CommunicatorMPI::getComm'):
            continue
        if l in own:
            continue
        return l
    return None


def check(ctx):
    ctx.rule('R1', 'the communicator of every MPI operation is the one of the library object (or of the file options)')
    ctx.rule('R2', 'the communicator given at construction is stored and returned unchanged')
    ctx.rule('R3', 'the world and self communicators appear only as overridable defaults')
    ctx.rule('R4', 'files opened with default options use the communicator of the library object')
    db = ctx.db()
    this = ('d', S('this'))
    fns = [f for f in db.fns if f.get('body')]
    nops = 0
    for f in fns:
        if '(anonymous class)' in f['fn'] or f['fn'].endswith('getComm'):
            continue
        if not any(n.get('k') == 'call' and (n.get('fn') or '').startswith('MPI_') or 'ompi_communicator_t' in str(n.get('pt', '')) for n in walk(f['body'])) and 'CommunicatorMPI' not in f['fn']:
            continue
        e = ctx.summary(f, prim=lambda q, g: LOG(q, g) or q.endswith(('CommunicatorMPI::getComm', 'comm::gather', 'CommunicatorMPI::gather', 'CommunicatorMPI::sum', 'CommunicatorMPI::offset')) or 'param_utils' in q)
        own = []
        c = f['fn'].rsplit('::', 1)[0]
        if c.endswith('CommunicatorMPI'):
            own += [('fld', ('d', S('this')), 'comm'), ('fld', S('this'), 'comm')]
            own += [e.rd(('f', this, 'comm'), e.final)] if f['fn'].endswith('CommunicatorMPI::CommunicatorMPI') else []
        if 'Distributed_vector' in c:
            own += [('fld', ('d', S('this')), 'comm'), ('fld', S('this'), 'comm')] + [S(p['n']) for p, t in zip(f['ps'], f['pt']) if 'ompi_communicator_t' in t]
        if f['fn'].endswith('DataMPIIO::Init'):
            own += [('fld', ('d', S('opt')), 'fcomm'), ('fld', S('opt'), 'fcomm')]
        if f['fn'].split('::')[-1] == 'DataMPIIO':
            own += [('fld', ('d', S('opt')), 'fcomm'), ('fld', S('opt'), 'fcomm')]
        for x in e.events:
            if x.kind != 'call' or not x.name.startswith('MPI_'):
                continue
            pt = x.node.get('pt') or []
            for i, t in enumerate(pt):
                if 'ompi_communicator_t' not in t or i >= len(x.args):
                    continue
                nops += 1
                b = bad_comm(x.args[i], own)
                ctx.req(b is None, 'R1', '%s in %s' % (x.name, f['fn'].split('::')[-1]), x, 'runs on %s' % (show(b) if b else ''))
    ctx.need(nops >= 15, 'MPI operations with a communicator (%d)' % nops)
    # R2
    g = ctx.fn(N + 'CommunicatorMPI::getComm')
    e = ctx.summary(g)
    ctx.req(e.ret is not None and e.ret[0] == 'fld', 'R2', 'getComm', g, 'does not return the stored communicator')
    fld = e.ret[2] if e.ret and e.ret[0] == 'fld' else 'comm'
    for f in [f for f in fns if f['fn'] == N + 'CommunicatorMPI::CommunicatorMPI' and len(f['ps']) == 2]:
        e = ctx.summary(f, prim=LOG)
        v = e.rd(('f', this, fld), e.final)
        o = S(f['ps'][1]['n'])
        ctx.req(v[0] == 'fld' and o in (v[1], v[1][1] if len(v[1]) > 1 else None) and v[2] == 'comm', 'R2', 'CommunicatorMPI constructor', f, 'keeps %s' % show(v))
    f = [f for f in fns if f['fn'] == N + 'ExSeisPIOL::ExSeisPIOL' and len(f['ps']) == 2]
    ctx.need(f, 'ExSeisPIOL constructor')
    e = ctx.summary(f[0], prim=LOG)
    x = [x for x in e.events if x.kind == 'call' and x.name.endswith('new exseis::PIOL::CommunicatorMPI')]
    ctx.req(len(x) == 1 and x[0].args[1] == S(f[0]['ps'][1]['n']), 'R2', 'ExSeisPIOL constructor', f[0], 'does not pass its communicator options on')
    f = [f for f in fns if f['fn'] == N + 'ExSeis::ExSeis']
    ctx.need(f, 'ExSeis constructor')
    e = ctx.summary(f[0], prim=LOG)
    x = [x for x in e.events if x.kind == 'call' and 'ExSeisPIOL' in x.name and len(x.args) > 1]
    ctx.req(x and contains(x[0].args[1], lambda z: z == S(f[0]['ps'][1]['n'])), 'R2', 'ExSeis constructor', f[0], 'does not pass its communicator on')
    for f in [f for f in fns if f['fn'] == N + 'ExSeis::New' and len(f['ps']) >= 2]:
        e = ctx.summary(f, prim=lambda q, g: 'ExSeis::ExSeis' in q)
        P = [S(p['n']) for p in f['ps']]
        x = [x for x in e.events if x.kind == 'call' and x.name.endswith('ExSeis') and len(x.args) > 1]
        ctx.req(x and list(x[0].args[:2]) == P[:2], 'R2', 'ExSeis::New', f, 'does not pass its communicator on')
    wr = [f['fn'] for f in fns for n in walk(f['body']) if n.get('k') == 'as' and isinstance(n.get('a'), dict) and n['a'].get('n') == fld and 'ompi_communicator_t' in str(n['a'].get('t', '')) and 'CommunicatorMPI' in f['fn']]
    ctx.req(not wr, 'R2', 'communicator never replaced', (g['file'], g['line'], wr[0] if wr else g['fn']), 'the communicator of a library object is reassigned')
    # R3
    for f in fns:
        w = [n for n in walk(f['body']) if 'ompi_mpi_comm_world' in str(n.get('n', '')) + str(n.get('nm', '')) or 'ompi_mpi_comm_self' in str(n.get('n', '')) + str(n.get('nm', ''))]
        ctx.req(not w or f['fn'] == 'PIOL_ExSeis_new', 'R3', f['fn'].split('::')[-1], f, 'names the world or self communicator')
    # R4
    o = [f for f in fns if f['fn'] == N + 'DataMPIIO::Opt::Opt' and not f['ps']]
    ctx.need(o, 'default file options')
    eo = ctx.summary(o[0])
    dv = eo.rd(('f', this, 'fcomm'), eo.final)
    f = ctx.fn(N + 'DataMPIIO::Init')
    e = ctx.summary(f, prim=lambda q, g: LOG(q, g) or q.endswith('CommunicatorMPI::getComm'))
    x = [x for x in e.events if x.kind == 'call' and x.name == 'MPI_File_open']
    ctx.need(len(x) == 1, 'MPI_File_open')
    v = subst(x[0].args[0], {('fld', S('opt'), 'fcomm'): dv, ('fld', ('d', S('opt')), 'fcomm'): dv})
    ctx.req(v[0] == 'call' and v[1].endswith('CommunicatorMPI::getComm'), 'R4', 'default options', x[0], 'a file opened with default options uses %s' % show(v))
