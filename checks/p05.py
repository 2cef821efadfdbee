"""Failed MPI operations are recorded.  Every library function outside the distributed vector that performs a fallible MPI
operation (file, view, datatype, point-to-point, collective data exchange), directly or through an I/O function pointer, is
summarised; on every path on which the operation reports a failure, an Error must be recorded before the function returns, or
the function must return a failure, in which case its callers carry the same obligation."""
from an.spec import *
from an.db import walk
from checks.common import LOG

FLOOR = 70
CLS = ('MPI_File_', 'MPI_Type_', 'MPI_Info_dup', 'MPI_Isend', 'MPI_Irecv', 'MPI_Send', 'MPI_Recv', 'MPI_Sendrecv', 'MPI_Wait', 'MPI_All', 'MPI_Reduce', 'MPI_Exscan', 'MPI_Scan', 'MPI_Gather', 'MPI_Bcast')


def fallible(q):
    return q.startswith(CLS)


def sites(f):
    for n in walk(f['body']):
        if n.get('k') != 'call':
            continue
        q = n.get('fn') or ''
        if fallible(q) or (q.startswith('std::function<') or not q) and 'ompi_' in q + str({k: v for k, v in n.items() if k != 'a'}):
            yield n


def check(ctx):
    ctx.rule('R1', 'a failing operation is recorded as an Error before the function returns, or reported to the caller')
    ctx.rule('R2', 'a function that reports failures to its caller is called only where they are handled')
    db = ctx.db()
    fns = [f for f in db.fns if f.get('body') and 'Distributed_vector' not in f['fn']]
    work = [f for f in fns if any(True for _ in sites(f))]
    ctx.need(len(work) >= 15, 'functions performing MPI operations')
    done = set()
    reporting = set()
    nsites = 0
    while work:
        f = work.pop(0)
        if f['fkey'] in done:
            continue
        done.add(f['fkey'])
        if '(anonymous class)' in f['fn']:
            # a lambda: its sites are judged in the function that contains and calls it
            if not any(g['file'] == f['file'] and g['line'] <= f['line'] <= g['end'] and g is not f and '(anonymous class)' not in g['fn'] for g in fns):
                ctx.need(False, 'lambda without enclosing function ' + f['fn'])
            work += [g for g in fns if g['file'] == f['file'] and g['line'] <= f['line'] <= g['end'] and '(anonymous class)' not in g['fn']]
            continue
        e = ctx.summary(f, prim=lambda q, g: LOG(q, g) or q.endswith(('comm::gather', 'CommunicatorMPI::gather', 'CommunicatorMPI::getComm')) or 'param_utils' in q or q.split('::')[-1] in ('DataMPIIO::read', 'write', 'read') and g is not f)
        recs = [x for x in e.events if x.kind == 'call' and x.name.endswith('Logger::record') and len(x.args) > 2 and x.args[2] == C(3)]
        reports = False
        rets = [x for x in e.events if x.kind == 'ret' and x.args] if f['ret'] != 'void' else []
        for x in e.events:
            if x.kind != 'call' or not (fallible(x.name) or x.name == '<indirect>'):
                continue
            nsites += 1
            fail = AND(pcv(x), NOT(EQ(C(0), x.res)))
            lv = [l.id for l in x.loops]
            hs = [r for r in recs if r.seq > x.seq and [l.id for l in r.loops][:len(lv)] == lv]
            handled = OR(*[pcv(r) for r in hs])
            # the remaining failures must make the function return a failure
            inst = '%s %s' % (x.name if x.name != '<indirect>' else 'transfer', f['fn'].split('::')[-1])
            if implies(fail, handled):
                ctx.ok('R1', inst)
                continue
            ok = False
            if e.ret is not None and f['ret'] in ('int', 'const int'):
                ok = implies(fail, OR(handled, NOT(EQ(C(0), e.ret))))
                reports = reports or ok
            ctx.req(ok, 'R1', inst, x, 'a failure of %s is neither recorded nor reported' % x.name)
        if reports:
            reporting.add(f['fn'])
            callers = [g for g in fns if any(n.get('k') == 'call' and n.get('usr') == f['usr'] for n in walk(g['body']))]
            byref = [g for g in fns if any(n.get('k') in ('fn', 'fref', 'ref') and n.get('usr') == f['usr'] for n in walk(g['body']))]
            ctx.req(callers or byref or any(str(f['usr']) in str(g['body']) for g in fns), 'R2', f['fn'].split('::')[-1], f, 'nobody receives the failures this function reports')
            work += callers
    ctx.need(nsites >= 30, 'MPI operations (%d)' % nsites)
