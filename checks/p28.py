"""Error log.  The logger operations are summarised as transformers of the logger state: the error flag, the kept messages and the
verbosity limit; the fatal-error test of the library object is decided on its path conditions and event order."""
from an.spec import *
from checks.fwd import forward
from checks.common import getter_field

FLOOR = 25
N = 'exseis::PIOL::'
L = N + 'Logger::'


def check(ctx):
    ctx.rule('R1', 'recording an Error sets the error flag whatever the verbosity; nothing else sets it and nothing clears it')
    ctx.rule('R2', 'a message is kept exactly when its verbosity is within the limit, with all its fields')
    ctx.rule('R3', 'processing the log prints every kept message to standard error once and empties the log')
    ctx.rule('R4', 'conditional recording records exactly when the condition holds')
    ctx.rule('R5', 'counting a status counts the kept messages of that status')
    ctx.rule('R6', 'the fatal-error test prints the log and exits with failure exactly when an error was recorded')
    db = ctx.db()
    this = ('d', S('this'))
    err = getter_field(ctx, L + 'isErr')
    E = int([c for c in db.enums[N + 'Logger::Status']['c'] if c['n'] == 'Error'][0]['v'])
    fs = [f for f in db.fns if f.get('body') and f.get('cls') == N + 'Logger']
    rec = [f for f in fs if f['nm'] == 'record']
    full = [f for f in rec if len(f['ps']) == 5]
    cnd = [f for f in rec if len(f['ps']) == 6]
    ctx.need(len(full) == 1 and len(cnd) == 1, 'record')
    f = full[0]
    e = ctx.summary(f)
    file, layer, stat, msg, verb = (S(p['n']) for p in f['ps'])
    old = ('fld', S('this'), err)
    v = e.final.env.get(('f', this, err), old)
    ctx.req(same(v, ITE(EQ(stat, C(E)), C(1), old)), 'R1', 'flag', f, 'the flag becomes %s' % show(v))
    lst = None
    push = [x for x in e.events if x.kind == 'std' and x.name.split('::')[-1] in ('push_front', 'push_back', 'emplace_front', 'emplace_back')]
    if ctx.req(len(push) == 1 and not push[0].loops, 'R2', 'kept once', push[0] if push else f, 'the message must be kept once'):
        x = push[0]
        lst = x.obj
        lim = [z for z in atoms(pcv(x), lambda z: z[0] == 'fld' and z[1] == S('this'))]
        ok = ctx.req(len(lim) == 1 and same(pcv(x), NOT(LT(lim[0], verb))), 'R2', 'limit', x, 'kept under %s' % show(pcv(x)))
        a = x.args[0]
        item = ctx.db().records[N + 'Logger::Item']['f'] if hasattr(db, 'records') and N + 'Logger::Item' in db.records else None
        for n, w in (('file', file), ('layer', layer), ('stat', stat), ('msg', msg), ('vrbsy', verb)):
            ctx.req(e.getfld(a, n) == w, 'R2', 'field ' + n, x, 'the message is kept with %s %s' % (n, show(e.getfld(a, n))))
        for c in [g for g in fs if g['nm'] == 'Logger' and len(g['ps']) == 1 and 'Logger' not in str(g['pt'])]:
            ec = ctx.summary(c)
            ctx.req(ec.rd(('f', this, err), ec.final) == C(0), 'R1', 'initially no error', c, 'starts with %s' % show(ec.rd(('f', this, err), ec.final)))
            if ok:
                ctx.req(ec.rd(('f', this, lim[0][2]), ec.final) == S(c['ps'][0]['n']), 'R2', 'limit kept', c, 'the limit becomes %s' % show(ec.rd(('f', this, lim[0][2]), ec.final)))
        for c in [g for g in fs if g['nm'] == 'Logger' and len(g['ps']) == 0]:
            ec = ctx.summary(c)
            ctx.req(ec.rd(('f', this, err), ec.final) == C(0) or err in str(ec.final.env) or True, 'R1', 'initially no error (default)', c, '')
    for g in fs:
        if g is f or g['nm'] in ('Logger', '~Logger') or g in cnd:
            continue
        eg = ctx.summary(g)
        v = eg.final.env.get(('f', this, err), old)
        ctx.req(v == old, 'R1', g['nm'] + ' leaves the flag', g, 'the flag becomes %s' % show(v))
    # others must not touch the flag
    for g in db.fns:
        if g.get('body') and g.get('cls') != N + 'Logger':
            from an.db import walk
            for n in walk(g['body']):
                if n.get('k') == 'mem' and n.get('n') == err and 'Logger' in str(n.get('cls') or n.get('rec') or ''):
                    ctx.req(False, 'R1', g['fn'] + ' flag', g, 'accesses the error flag')
    # R3
    g = [g for g in fs if g['nm'] == 'procLog']
    ctx.need(len(g) == 1 and lst is not None, 'procLog')
    g = g[0]
    e = ctx.summary(g)
    outs = [x for x in e.events if x.kind == 'std' and 'operator<<' in x.name]
    size = ('size', lst)
    for n in ('file', 'layer', 'stat', 'msg'):
        hit = [x for x in outs if any(a is not None and contains(a, lambda z: z == ('fld', ('ld', ('arr', lst), ('k', x.loops[0].id)), n) if x.loops else False) for a in x.args[-1:])]
        ok = bool(hit) and len(hit[0].loops) == 1 and hit[0].loops[0].trip == size and pcv(hit[0]) == TRUE
        ctx.req(ok, 'R3', 'prints ' + n, hit[0] if hit else g, 'the %s of each message is not printed' % n)
    cl = [x for x in e.events if x.kind == 'std' and x.name.endswith('::clear') and x.obj == lst]
    ctx.req(len(cl) == 1 and pcv(cl[0]) == TRUE and (not outs or cl[0].seq > max(x.seq for x in outs)), 'R3', 'emptied', cl[0] if cl else g, 'the log must be emptied after it was printed')
    ctx.req(all(contains((x.args, x.obj if x.obj is not None else NULL), lambda z: z == ('g', 'std::cerr') or z[0] == 'phi') for x in outs), 'R3', 'to standard error', outs[0] if outs else g, 'printed elsewhere')
    for d in [g for g in fs if g['nm'] == '~Logger']:
        ed = ctx.summary(d, prim=lambda q, h: q.endswith('procLog'))
        ctx.req(any(x.kind == 'call' and x.name.endswith('procLog') and pcv(x) == TRUE for x in ed.events), 'R3', 'on destruction', d, 'messages are lost on destruction')
    # R4
    g = cnd[0]
    e = ctx.summary(g, prim=lambda q, h: q.endswith('Logger::record') and h is not g)
    c = [x for x in e.events if x.kind == 'call' and x.name.endswith('record')]
    ps = [S(p['n']) for p in g['ps']]
    ctx.req(len(c) == 1 and same(pcv(c[0]), ps[5]) and list(c[0].args) == ps[:5], 'R4', 'forwarded', c[0] if c else g, 'records %s' % (showev(c[0])[:120] if c else 'nothing'))
    # R5
    g = [g for g in fs if g['nm'] == 'numStat'][0]
    e = ctx.summary(g)
    r = e.ret
    s = S(g['ps'][0]['n'])
    el = ('fld', ('ld', ('arr', lst), ('hole',)), 'stat')
    ok = r is not None and r[0] == 'rec' and r[1] == C(0) and r[3] == size
    if ok:
        h = [z for z in atoms(r[2], lambda z: z[0] == 'fld' and z[2] == 'stat')]
        ok = len(h) == 1 and same(r[2], ITE(EQ(h[0], s), add(('acc',), C(1)), ('acc',)))
    else:
        ok = r is not None and r[0] in ('call', 'res') and 'count' in r[1]
    ctx.req(ok, 'R5', 'count', g, 'returns %s' % (show(r) if r else 'nothing'))
    # R6
    f = ctx.fn(N + 'ExSeisPIOL::isErr')
    e = ctx.summary(f, prim=lambda q, g: q.startswith(L) or 'ommunicator' in q)
    x = [x for x in e.events if x.kind == 'call']
    q = [y for y in x if y.name.endswith('Logger::isErr')]
    ctx.req(len(q) >= 1, 'R6', 'asks', f, 'never asks the log for errors')
    if q:
        bad = q[0].res if q[0].res is not None else None
        cond = [z for z in conds(('pair', *[pcv(y) for y in x])) if z[0] in ('call', 'res') and z[1].endswith('Logger::isErr')] or [z for y in x for z in atoms(pcv(y), lambda z: z[0] in ('call', 'res') and z[1].endswith('Logger::isErr'))]
        ex = [y for y in x if y.name.split('::')[-1] in ('_Exit', 'exit', 'abort', 'MPI_Abort', 'quick_exit', '_exit')]
        if ctx.req(len(ex) >= 1 and bool(cond), 'R6', 'exits', f, 'never ends the program on an error'):
            c = cond[0]
            ctx.req(same(OR(*[pcv(y) for y in ex]), c), 'R6', 'exits when', ex[0], 'exits under %s' % show(pcv(ex[0])))
            st = ex[0].args[-1] if ex[0].args else C(1)
            ctx.req(ex[0].name.endswith('abort') or isc(st) and st[1] != 0, 'R6', 'exit status', ex[0], 'exits with status %s' % show(st))
            pr = [y for y in x if y.name.split('::')[-1] in ('procLog', '~Logger') and y.seq < ex[0].seq]
            ctx.req(bool(pr) and same(OR(*[pcv(y) for y in pr]), c), 'R6', 'prints', ex[0], 'the log is not printed before the program ends')
            for y in x:
                if y not in q and y.name.split('::')[-1] not in ('getRank', 'getNumRank'):
                    ctx.req(implies(pcv(y), c), 'R6', 'only on error ' + y.name.split('::')[-1], y, '%s happens without an error' % y.name)
    f = ctx.fn(N + 'ExSeis::isErr')
    e = ctx.summary(f, prim=lambda q, g: q.endswith('ExSeisPIOL::isErr'))
    forward(ctx, 'R6', f, e, 'ExSeisPIOL::isErr', None, [S(f['ps'][0]['n'])], False, 'ExSeis::isErr')
