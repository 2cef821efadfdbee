"""The exchange sort.  One step of the sort loop is executed abstractly, for each position of a process among its neighbours and small
block sizes, on tokens that stand for the traces of the block (no values): which traces are sent, received and sorted where, and which are
kept.  The step has to be the odd-even transposition step (lower end to the left neighbour, sort, upper end to the right neighbour, sort),
both sides of every message have to agree, and the loop has to end exactly when no process saw a change."""
import itertools
from checks.common import *

FLOOR = 60
N = 'exseis::PIOL::'
CI, CM = N + 'CommunicatorInterface::', N + 'CommunicatorMPI::'
CPY, GET = N + 'param_utils::cpyPrm', N + 'param_utils::getPrm'
#        processes, traces of each process
CASES = (((3, 2), 2), ((8, 9, 8), 8), ((3,), 3), ((2, 5, 4, 7), 2))


def check(ctx):
    ctx.rule('R1', 'each process starts with its own traces in order')
    ctx.rule('R2', 'a step sends the lower traces to the process before, sorts, sends the upper ones to the process after, and sorts')
    ctx.rule('R3', 'both sides of a message agree, and data is used only once it has arrived')
    ctx.rule('R4', 'the steps end exactly when no trace of any process moved, and the result is the sorted block')
    ctx.rule('R5', 'at least one trace and at most half of a block is exchanged')
    ctx.rule('R6', 'the order is returned as the trace numbers, or as the place of each trace in the order')
    ctx.db()
    P = [f for f in ctx.db().fns if f.get('body') and f['fn'] == N + 'sortP']
    L = [f for f in ctx.db().fns if f.get('body') and f['fn'] == N + 'sort' and len(f['ps']) == 2 and 'vector' in f['ps'][1]['t']]
    A = [f for f in ctx.db().fns if f.get('body') and f['fn'] == N + 'sort' and len(f['ps']) == 4 and 'Param' in f['ps'][1]['t']]
    ctx.need(len(P) == len(L) == len(A) == 1, 'the sorts of traces and of numbers')
    per = slots(ctx)
    items = [(k, lnts, mn, r) for k in (0, 1) for lnts, mn in CASES for r in range(len(lnts))]
    out = ctx.pmap(lambda c, it: Sim(c, (P, L)[it[0]][0], it, per).run(), items)
    msgs = {}
    for it, m in zip(items, out):
        msgs[it] = m
    for k, lnts, mn in sorted({it[:3] for it in items}):
        for a in range(len(lnts)):
            for b in (a - 1, a + 1):
                if not 0 <= b < len(lnts):
                    continue
                ma, mb = msgs[(k, lnts, mn, a)], msgs[(k, lnts, mn, b)]
                if ma is None or mb is None:
                    continue
                s = [m[2:] for m in ma if m[0] == 'send' and m[1] == b]
                r = [m[2:] for m in mb if m[0] == 'recv' and m[1] == a]
                for t in sorted({m[0] for m in s + r}, key=str):
                    x, y = [m[1:] for m in s if m[0] == t], [m[1:] for m in r if m[0] == t]
                    ctx.req(x == y, 'R3', '%s: messages from %d to %d of %d, tag %s' % (('traces', 'numbers')[k], a, b, len(lnts), t), (P, L)[k][0], 'sends %s, but %s are expected' % (x, y))
                ctx.req(s, 'R3', '%s: %d sends to %d of %d' % (('traces', 'numbers')[k], a, b, len(lnts)), (P, L)[k][0], 'sends nothing')
    for k in (0, 1):
        amount(ctx, (P, L)[k][0], k)
    returned(ctx, A[0], P[0], L[0])


def slots(ctx):
    """bytes of one trace in each array of a parameter block, per rule"""
    f = [g for g in ctx.db().fns if g.get('body') and g['fn'] == N + 'Param::Param' and len(g['ps']) == 2]
    ctx.need(len(f) == 1, 'the constructor of parameter blocks')
    f = f[0]
    e = ctx.summary(f)
    rec = ctx.db().recs[N + 'Param']
    per = {}
    for fd in rec['fields']:
        if not fd['t'].startswith('std::vector<'):
            continue
        n = e.sizeof(('f', ('d', S('this')), fd['n']), e.final)
        t = fd['t'][len('std::vector<'):].rstrip('>').split(',')[0].strip()
        w = {'exseis::utils::Floating_point': 8, 'exseis::utils::Integer': 8, 'double': 8, 'long': 8, 'long long': 8, 'short': 2, 'int16_t': 2, 'size_t': 8, 'unsigned long': 8, 'unsigned char': 1}.get(t)
        ctx.need(w is not None, 'the type of ' + fd['n'] + ': ' + t)
        one = subst(n, {S(f['ps'][1]['n']): C(1)})
        ctx.need(same(n, mul(S(f['ps'][1]['n']), one)), 'the size of %s: %s' % (fd['n'], show(n)))
        per[fd['n']] = (mul(C(w), one), S(f['ps'][0]['n']))
    ctx.need(len(per) >= 5, 'the arrays of a parameter block')
    return per


class Stop1(Exception):
    pass


class Sim:
    def __init__(self, ctx, f, it, per):
        self.ctx, self.f, self.per = ctx, f, per
        self.k, self.lnts, self.mn, self.rank = it
        self.num, self.lnt = len(self.lnts), self.lnts[self.rank]
        self.name = '%s: process %d of %d with %d' % (('traces', 'numbers')[self.k], self.rank, self.num, self.lnt)
        self.slots, self.sorts, self.arrs, self.pending, self.msgs = {}, {}, {}, {}, []
        self.fields = tuple(sorted(per)) if self.k == 0 else ('',)

    def req(self, c, rule, inst, w, msg):
        if not self.ctx.req(c, rule, self.name + ': ' + inst, w, msg):
            raise Stop1()

    def run(self):
        try:
            return self.go()
        except Stop1:
            return None

    def go(self):
        f, ctx = self.f, self.ctx
        ps = [S(p['n']) for p in f['ps']]
        md = {CI + 'getRank': C(self.rank), CI + 'getNumRank': C(self.num), CM + 'getRank': C(self.rank), CM + 'getNumRank': C(self.num),
              CI + 'min': C(self.mn), CM + 'min': C(self.mn), CI + 'offset': S('the offset'), CM + 'offset': S('the offset')}
        self.prm = ps[1]
        kw = dict(prim=lambda q, g: q in md or q in (CPY, GET) or q.split('::')[-1] in ('record', 'getComm'), mpi_ok=True, unroll=40, model=md, generic_while=True, ctors=True, pure=[CPY])
        if self.k == 0:
            e = ctx.summary(f, env={('f', ('d', ps[1]), 'sz'): C(self.lnt)}, **kw)
            for j in range(self.lnt):
                self.put(ps[1], j, ('in', j))
        else:
            e = ctx.summary(f, args=[ps[0], ('vec', ('arr', ps[1]), C(self.lnt), None)], **kw)
        self.e = e
        self.comp = ps[2] if len(ps) > 2 else None
        self.loop = None
        self.old = None
        self.reduce = None
        ended = False
        for ev in e.events:
            if ev.loops and self.loop is None:
                self.begin(ev)
                self.loop = ev.loops[0]
            if not ev.loops and self.loop is not None and not ended:
                ended = True
                self.end(ev)
            self.event(ev)
        if self.num == 1:
            self.req(self.loop is None, 'R4', 'alone', self.f, 'a single process enters the exchange')
        else:
            self.req(self.loop is not None, 'R2', 'exchange', self.f, 'never exchanges')
            if not ended:
                self.end(None)
        self.result()
        return self.msgs

    # ---- tokens
    def put(self, obj, i, t):
        for fl in self.fields:
            self.slots[(obj, fl, i)] = t

    def get(self, obj, i, w, check=True):
        if check:
            for p in self.pending.values():
                if p['dir'] == 'recv' and p['obj'] == obj and p['off'] <= i < p['off'] + p['n']:
                    self.req(False, 'R3', 'arrived', w, 'uses received data before it has arrived')
        ts = {self.slots.get((obj, fl, i)) for fl in self.fields}
        return ts.pop() if len(ts) == 1 else ('mixed',)

    def idx(self, v):
        return v[1] if isc(v) else None

    def index(self, v, obj, w):
        """the token of the trace whose index a sort of indices returned"""
        if v is not None and v[0] == 'outel' and v[1].split('<')[0] in ('std::sort', 'std::stable_sort') and isc(v[4]):
            s = self.sorts.get(v[3])
            if s is None or s['kind'] != 'index' or s['obj'] != obj:
                self.req(False, 'R2', 'order', w, 'takes traces of another block in the order of this one')
            now = tuple(self.get(obj, i, w) for i in s['idx'])
            self.req(now == s['tokens'], 'R2', 'order', w, 'takes traces in an order that was found before they were moved')
            self.req(0 <= v[4][1] < len(s['idx']), 'R2', 'order', w, 'takes trace %d of %d' % (v[4][1], len(s['idx'])))
            return ('srt', v[3], v[4][1])
        return None

    def obj(self, p):
        if p is None:
            return None
        if p[0] == 'p' and p[1][0] == 'addr' and p[2] == C(0):
            return p[1][1]
        if p[0] == 'p' and p[1] == self.prm and p[2] == C(0):
            return self.prm
        return p

    def name_of(self, t):
        if t is None:
            return 'nothing'
        if t[0] == 'srt':
            return '%s of sort at line %d' % (t[2], self.sorts[t[1]]['line'])
        return ' '.join(str(x) for x in t)

    # ---- events
    def event(self, ev):
        n = ev.name.split('<')[0]
        if ev.kind == 'fill':
            v, num = ev.args[2], self.idx(ev.args[1])
            if num is not None and ev.args[0][0] == 'p':
                for t in range(num):
                    self.arrs[(ev.args[0][1], t)] = subst(v, {HOLE: C(t)})
        elif ev.kind == 'call' and n == CPY:
            if pcv(ev) == FALSE:
                return
            self.always(ev)
            i, s, j, d = ev.args
            s, d, jj = self.obj(s), self.obj(d), self.idx(j)
            self.ctx.need(jj is not None, 'the place of a copied trace: ' + show(j))
            t = self.index(i, s, ev) if not isc(i) else self.get(s, i[1], ev)
            self.ctx.need(t is not None or isc(i), 'the copied trace: ' + show(i))
            for p in self.pending.values():
                if p['dir'] == 'send' and p['obj'] == d and p['off'] <= jj < p['off'] + p['n']:
                    self.req(False, 'R3', 'sent', ev, 'changes data that is still being sent')
            self.put(d, jj, t)
        elif ev.kind == 'call' and n == GET:
            self.pairs = getattr(self, 'pairs', {})
            if isc(ev.args[0]) and ev.res is not None:
                self.pairs[ev.res] = (self.get(self.obj(ev.args[2]), ev.args[0][1], ev), ev.args[1])
        elif ev.kind == 'assign':
            d, s = self.obj(ev.obj), self.obj(ev.args[0])
            if self.k == 1:
                d, s = ('arr', d), ('arr', s)
            for (o, fl, i), t in list(self.slots.items()):
                if o == d:
                    del self.slots[(o, fl, i)]
            for (o, fl, i), t in list(self.slots.items()):
                if o == s:
                    self.slots[(d, fl, i)] = t
        elif ev.kind == 'copy' and self.k == 1 and ev.args[0][0] == 'p' and isc(ev.args[1]) and ev.args[2][0] == 'p':
            s, d = ev.args[0], ev.args[2]
            if isc(s[2]) and isc(d[2]):
                ts = [self.get(s[1], s[2][1] + t, ev) for t in range(ev.args[1][1])]
                for t, x in enumerate(ts):
                    self.put(d[1], d[2][1] + t, x)
        elif ev.kind == 'store' and self.k == 1:
            self.stored(ev)
        elif ev.kind == 'store' and ev.obj[0] == 'i' and isc(ev.obj[2]):
            self.arrs[(ev.obj[1], ev.obj[2][1])] = ev.args[0]
        elif ev.kind == 'std' and n in ('std::sort', 'std::stable_sort'):
            self.always(ev)
            self.sorted(ev)
        elif ev.kind == 'std' and n in ('std::operator!=', 'std::operator==') and self.k == 1:
            self.pairs = getattr(self, 'pairs', {})
            self.pairs[('call', n, tuple(ev.args))] = tuple(self.value(a, ev) for a in ev.args)
        elif n in ('MPI_Isend', 'MPI_Irecv', 'MPI_Send', 'MPI_Recv'):
            self.always(ev)
            self.message(ev, 'send' if 'end' in n else 'recv', n[4] == 'I')
        elif n == 'MPI_Wait':
            q = ev.mem.get('q')
            self.ctx.need(q is not None, 'the request waited for')
            if pcv(ev) == TRUE and q[0] == 'out':
                self.pending.pop(q[3], None)
        elif n == 'MPI_Waitall':
            self.pending.clear()
        elif n in ('MPI_Allreduce',):
            self.req(self.reduce is None, 'R4', 'one reduction', ev, 'reduces more than once')
            self.reduce = ev
            if self.old is not None:
                self.after = {j: self.get(self.work, j, ev) for j in range(self.lnt)}

    def always(self, ev):
        self.ctx.need(pcv(ev) == TRUE, 'whether %s:%d happens: %s' % (ev.file.split('/')[-1], ev.line, show(pcv(ev))[:150]))

    def value(self, v, w):
        """the token of an array element"""
        if v[0] == 'outel' and v[1].split('<')[0] in ('std::sort', 'std::stable_sort') and isc(v[4]):
            return ('srt', v[3], v[4][1])
        if v[0] == 'ld' and isc(v[2]):
            return self.get(v[1], v[2][1], w)
        if v[0] in ('upd', 'agg') and self.init_pair(v):
            return ('in', self.init_pair(v) - 1)
        return None

    def init_pair(self, v):
        d = dict(v[2])
        for j in range(self.lnt):
            x = d.get('first', NULL)
            mine = x[0] == 'ld' and x[2] == C(j) and x[1][0] == 'arr' and (x[1][1] == self.prm or x[1][1][0] == 'v' and x[1][1][2] == self.f['ps'][1]['id'])
            if mine and same(d.get('second', NULL), add(S('the offset'), C(j))):
                return j + 1
        return 0

    def stored(self, ev):
        l = ev.obj
        if l[0] == 'i' and isc(l[2]):
            t = self.value(ev.args[0], ev)
            self.put(l[1], l[2][1], t)
        elif l[0] == 'f' and l[1][0] == 'i' and isc(l[1][2]) and l[2] in ('first', 'second'):
            j = l[1][2][1]
            self.halves = getattr(self, 'halves', {})
            h = self.halves.setdefault((l[1][1], j), {})
            h[l[2]] = ev.args[0]
            if len(h) == 2:
                k = self.init_pair(('upd', NULL, tuple(sorted(h.items()))))
                self.put(l[1][1], j, ('in', k - 1) if k else ('changed', j))
        # the list handed back
        if l[0] == 'i' and isc(l[2]):
            v = ev.args[0]
            if v[0] == 'fld' and v[2] == 'second' and v[1][0] in ('ld', 'outel'):
                self.put(l[1], l[2][1], ('place', self.value(v[1], ev)))

    def sorted(self, ev):
        a, b = ev.args[:2]
        self.ctx.need(a[0] == 'p' and b[0] == 'p' and a[1] == b[1] and isc(a[2]) and isc(b[2]), 'the range sorted: %s' % ', '.join(show(x) for x in ev.args[:2]))
        lo, hi = a[2][1], b[2][1]
        cmp = ev.args[2] if len(ev.args) > 2 else None
        if self.k == 0:
            ix = [self.idx(self.arrs.get((a[1], t), NULL)) for t in range(lo, hi)]
            self.ctx.need(None not in ix, 'the indices sorted')
            obj = self.comparator(cmp, ev)
            ts = tuple(self.get(obj, i, ev) for i in ix)
            self.sorts[ev.seq] = {'kind': 'index', 'obj': obj, 'idx': ix, 'tokens': ts, 'line': ev.line}
            self.req(None not in ts and ('mixed',) not in ts and len(set(ts)) == len(ts), 'R2', 'sort at line %d' % 0, ev, 'sorts %s' % ', '.join(self.name_of(t) for t in ts))
        else:
            if cmp is not None and cmp != NULL:
                self.lexicographic(cmp, ev)
            ts = tuple(self.get(a[1], i, ev) for i in range(lo, hi))
            self.req(None not in ts and len(set(ts)) == len(ts), 'R2', 'sort', ev, 'sorts %s' % ', '.join(self.name_of(t) for t in ts))
            self.sorts[ev.seq] = {'kind': 'direct', 'obj': a[1], 'idx': list(range(lo, hi)), 'tokens': ts, 'line': ev.line}
            for t in range(lo, hi):
                self.put(a[1], t, ('srt', ev.seq, t - lo))

    def comparator(self, c, ev):
        self.ctx.need(c is not None and c[0] == 'lam', 'the comparison of the sort')
        g = self.ctx.db().lam[c[1]]
        e = _engine(self.ctx)
        x, y = S('x'), S('y')
        e.run(g, [x, y], cap={k: v for k, v in c[2]})
        v = e.ret
        ok = v is not None and v[0] == 'res' and v[1] == '<indirect>'
        I = [z for z in e.events if z.kind == 'call' and z.name == '<indirect>']
        self.req(ok and len(I) == 1 and I[0].obj == self.comp, 'R1', 'comparison', ev, 'does not sort with the comparison given, but %s' % show(v))
        A = [z[1] if z[0] == 'd' else z for z in I[0].args]
        self.req(len(A) == 3 and tuple(A[1:]) == (x, y), 'R1', 'comparison arguments', ev, 'compares %s' % ', '.join(show(z) for z in A))
        return self.obj(A[0])

    def lexicographic(self, c, ev):
        self.ctx.need(c[0] == 'lam', 'the comparison of numbers')
        self.ctx.need(False, 'the comparison of numbers')

    def message(self, ev, d, nonblocking):
        buf, n, typ, peer, tag = ev.args[:5]
        self.ctx.need(isc(peer) and isc(tag), 'the other process and tag of a message')
        n = self.strip(n)
        self.ctx.need('char' in show(typ) or 'byte' in show(typ), 'the unit of a message: ' + show(typ))
        if self.k == 0:
            self.ctx.need(buf[0] == 'p' and buf[1][0] == 'arr' and buf[1][1][0] == 'f' and buf[2] == C(0), 'the buffer of a message: ' + show(buf))
            obj, fl = buf[1][1][1], buf[1][1][2]
            one, r = self.per[fl]
            rr = ('fld', self.prm, 'r')
            cnt = [c for c in range(0, 64) if any(same(n, mul(C(c), subst(one, {r: x}))) for x in (rr,))]
            self.req(cnt, 'R3', 'amount of ' + fl, ev, 'transfers %s bytes of %s' % (show(n), fl))
            cnt, off = cnt[0], 0
        else:
            self.ctx.need(buf[0] == 'p' and isc(buf[2]) and isc(n), 'the buffer of a message: ' + show(buf))
            obj, fl, off = buf[1], '', buf[2][1]
            self.req(n[1] % 16 == 0, 'R3', 'amount', ev, 'transfers %d bytes of numbers of 16' % n[1])
            cnt = n[1] // 16
        x = sum(1 for m in self.msgs if m[0] == d and m[1] == peer[1] and m[3] == fl)
        self.msgs.append((d, peer[1], tag[1], fl, show(n)))
        if d == 'send':
            ts = [self.slots.get((obj, fl, off + t)) for t in range(cnt)]
            self.sent = getattr(self, 'sent', {})
            self.sent.setdefault((peer[1], fl), []).append((ts, ev))
        else:
            for t in range(cnt):
                self.slots[(obj, fl, off + t)] = ('from', peer[1], x, t)
        if nonblocking:
            self.pending[ev.seq] = {'dir': d, 'obj': obj, 'off': off, 'n': cnt, 'ev': ev}

    def strip(self, v):
        while v[0] == 'cast':
            v = v[2]
        return v

    # ---- the loop
    def begin(self, ev):
        """find the block that holds the sorted traces"""
        own = {('srt', s, k) for s in self.sorts for k in range(self.lnt)}
        c = [o for o in {o for o, _, _ in self.slots} if all((self.get(o, j, ev, False) or ('',))[0] == 'srt' and self.get(o, j, ev, False)[2] == j for j in range(self.lnt))]
        c = [o for o in c if any(self.touch(o))]
        self.req(len(c) == 1, 'R1', 'start', ev, 'the exchange does not start with the sorted traces')
        self.work = c[0]
        s = self.sorts[self.get(self.work, 0, ev, False)[1]]
        self.req(set(s['tokens']) == {('in', j) for j in range(self.lnt)}, 'R1', 'all traces', ev, 'sorts %d of %d traces first' % (len(s['tokens']), self.lnt))
        for o, fl, i in list(self.slots):
            if o != self.prm:
                del self.slots[(o, fl, i)]
        for j in range(self.lnt):
            self.put(self.work, j, ('own', j))
        self.old = True
        self.pairs = {}
        self.sorts0 = dict(self.sorts)

    def touch(self, o):
        """is the block used in the exchange?"""
        for ev in self.e.events:
            if ev.loops and ev.kind == 'call' and ev.name == CPY and o in (self.obj(ev.args[1]), self.obj(ev.args[3])):
                yield True
            if ev.loops and ev.name.startswith('MPI_I') and ev.args[0][0] == 'p' and (ev.args[0][1] == o or ev.args[0][1] == ('arr', ('f', o, 't'))):
                yield True

    def end(self, ev):
        w = self.reduce or self.f
        r, last, lnt = self.rank, self.num - 1, self.lnt
        self.req(not self.pending, 'R3', 'all messages complete', [p['ev'] for p in self.pending.values()][0] if self.pending else w, 'does not wait for a message')
        sent = getattr(self, 'sent', {})
        for peer in (r - 1, r + 1):
            for fl in self.fields:
                n = len(sent.get((peer, fl), ()))
                self.req(n == (1 if 0 <= peer <= last else 0), 'R2', 'messages to %s' % ('the left' if peer < r else 'the right'), w, 'sends %d messages of %s in a step' % (n, fl))
        extra = [k for k in sent if k[0] not in (r - 1, r + 1)]
        self.req(not extra, 'R2', 'neighbours only', w, 'sends to process %s' % (extra and extra[0][0]))
        # lower end
        x = None
        if r > 0:
            ts = [sent[(r - 1, fl)][0] for fl in self.fields]
            x = len(ts[0][0])
            for t, e2 in ts:
                self.req(t == [('own', j) for j in range(len(t))] and len(t) == x, 'R2', 'lower end', e2, 'sends %s to the left' % ', '.join(self.name_of(y) for y in t))
        if r < last:
            ts = [sent[(r + 1, fl)][0] for fl in self.fields]
            x2 = len(ts[0][0])
            self.req(x is None or x == x2, 'R2', 'amounts', ts[0][1], 'sends %s traces to one side and %s to the other' % (x, x2))
            x = x2
        self.req(x >= 1 and 2 * x <= self.mn, 'R5', 'amount', w, 'exchanges %d of %d traces' % (x, self.mn))
        s1 = {('own', j) for j in range(x if r > 0 else 0, lnt)} | ({('from', r + 1, 0, t) for t in range(x)} if r < last else set())
        fin = [self.after[j] for j in range(lnt)]
        ss = {t[1] for t in fin if t and t[0] == 'srt'}
        self.req(len(ss) == 1 and fin == [('srt', min(ss), j) for j in range(lnt)], 'R2', 'sorted block', w, 'ends a step with %s' % ', '.join(self.name_of(t) for t in fin))
        two = self.sorts[min(ss)]
        one = {t[1] for t in two['tokens'] if t[0] == 'srt'}
        self.req(len(one) == 1, 'R2', 'two sorts', w, 'the block kept is made of %s' % ', '.join(self.name_of(t) for t in two['tokens']))
        o = self.sorts[min(one)]
        self.req(set(o['tokens']) == s1, 'R2', 'first sort', (self.e.events[0].file, o['line'], self.f['fn']), 'sorts %s' % ', '.join(sorted(self.name_of(t) for t in o['tokens'])))
        n1 = len(o['tokens'])
        k1 = n1 - (x if r < last else 0)
        want = {('srt', min(one), t) for t in range(k1)} | ({('from', r - 1, 0, t) for t in range(x)} if r > 0 else set())
        self.req(set(two['tokens']) == want, 'R2', 'second sort', (self.e.events[0].file, two['line'], self.f['fn']), 'sorts %s' % ', '.join(sorted(self.name_of(t) for t in two['tokens'])))
        if r < last:
            for fl in self.fields:
                t, e2 = sent[(r + 1, fl)][0]
                self.req(sorted(t) == [('srt', min(one), y) for y in range(n1 - x, n1)], 'R2', 'upper end', e2, 'sends %s to the right' % ', '.join(self.name_of(y) for y in t))
        self.stops(fin, w)

    def stops(self, fin, w):
        a = self.reduce
        self.req(a is not None, 'R4', 'reduction', self.f, 'does not ask whether other processes changed')
        op = show(a.args[4])
        self.req(any(o in op for o in ('sum', 'max', 'lor', 'bor')), 'R4', 'reduction operation', a, 'combines the changes with %s' % op)
        v = a.mem.get(('s', 0))
        self.ctx.need(v is not None, 'the value reduced')
        L = self.loop
        r = ('out', 'MPI_Allreduce', 1, a.seq)
        ends = [AND(*[c for c in pc if contains(c, lambda z: z == r)]) for pc, _ in L.breaks]
        c = NOT(L.cond) if L.cond is not None else FALSE
        stop = OR(*([c] if c != FALSE else []), *ends)
        at = [z for z in [0, 1, 2] if self.truth(subst(stop, {r: C(z)})) is not (z == 0)]
        self.req(not at, 'R4', 'end', a, 'goes on until %s' % show(stop)[:200])
        m = {}
        for t in atoms(v, lambda z: z[0] == '==' or z[0] == 'call' and z[1] in ('std::operator!=', 'std::operator==')):
            p = self.pairs.get(t) if t[0] == 'call' else (self.pairs.get(t[1]), self.pairs.get(t[2]))
            if p is None or None in p:
                continue
            if t[0] == '==':
                gtn = consts(self.ctx, 'PIOL_META_')['gtn']
                self.req(p[0][1] == p[1][1] == C(gtn), 'R4', 'what moved', a, 'tells traces apart by quantity %s' % show(p[0][1]))
                p = (p[0][0], p[1][0])
            j = [j for j in range(self.lnt) if set(p) == {fin[j], ('own', j)}]
            self.req(j, 'R4', 'change', a, 'compares %s with %s' % tuple(self.name_of(q) for q in p))
            m[t] = j[0]
        self.req(set(m.values()) == set(range(self.lnt)), 'R4', 'all traces compared', a, 'does not look at trace %s' % sorted(set(range(self.lnt)) - set(m.values())))
        for k in [None] + list(range(self.lnt)):
            x = subst(v, {t: C(int((j == k) == (t[0] == 'call' and t[1].endswith('!=')))) for t, j in m.items()})
            x = self.simp(x)
            self.ctx.need(isc(x), 'the change reported: ' + show(x)[:200])
            self.req((x[1] == 0) == (k is None) and x[1] >= 0, 'R4', 'change seen', a, 'reports %s when %s' % (x[1], 'nothing moved' if k is None else 'only trace %d moved' % k))

    def truth(self, c):
        c = self.simp(c)
        return bool(c[1]) if isc(c) else None

    def simp(self, v):
        if v[0] == 'ite':
            c = self.simp(v[1])
            return self.simp(v[2] if c[1] else v[3]) if isc(c) else ITE(c, self.simp(v[2]), self.simp(v[3]))
        if v[0] == 'not':
            return NOT(self.simp(v[1]))
        if v[0] == 'and':
            return AND(*[self.simp(x) for x in v[1]])
        if v[0] == 'or':
            return OR(*[self.simp(x) for x in v[1]])
        return v

    def result(self):
        n = self.lnt
        s0 = None
        if self.k == 0:
            got = [self.get(self.prm, j, self.f) for j in range(n)]
            want = [self.after[j] for j in range(n)] if self.num > 1 else None
        else:
            ret = self.e.ret
            self.ctx.need(ret is not None and ret[0] == 'vec', 'the numbers returned')
            self.req(ret[2] == C(n), 'R4', 'number of results', self.f, 'returns %s numbers' % show(ret[2]))
            fl = ret[3]
            self.ctx.need(fl is not None and fl[0] == 'list', 'the numbers returned')
            got = []
            for v in fl[1]:
                ok = v[0] == 'fld' and v[2] == 'second'
                self.req(ok, 'R6', 'places', self.f, 'returns %s' % show(v))
                got.append(self.value(v[1], self.f))
            want = [self.after[j] for j in range(n)] if self.num > 1 else None
        if want is None:
            ss = {t[1] for t in got if t and t[0] == 'srt'}
            self.req(len(ss) == 1 and got == [('srt', min(ss), j) for j in range(n)] and set(self.sorts[min(ss)]['tokens']) == {('in', j) for j in range(n)}, 'R4', 'result', self.f, 'hands back %s' % ', '.join(self.name_of(t) for t in got))
        else:
            self.req(got == want, 'R4', 'result', self.f, 'hands back %s' % ', '.join(self.name_of(t) for t in got))


def consts(ctx, prefix):
    out = {}
    for e in ctx.db().enums.values():
        for c in e['c']:
            if c['n'].startswith(prefix):
                out[c['n'][len(prefix):]] = int(c['v'])
    return out


def _engine(ctx):
    from an import sym
    return sym.Engine(ctx.db(), lambda q, f: False)


def amount(ctx, f, k):
    """the number of traces exchanged, as a function of the smallest block"""
    md = {CI + 'getRank': C(1), CI + 'getNumRank': C(3), CM + 'getRank': C(1), CM + 'getNumRank': C(3), CI + 'min': S('m'), CM + 'min': S('m')}
    e = ctx.summary(f, prim=lambda q, g: q in md or q in (CPY, GET) or q.split('::')[-1] in ('record', 'getComm', 'offset'), mpi_ok=True, model=md, pure=[CPY])
    w = [x for x in e.events if x.name in ('MPI_Isend', 'MPI_Irecv') and x.loops]
    ctx.need(w, 'the messages')
    if k == 0:
        X = {x.args[1] for x in e.events if x.kind == 'call' and x.name == N + 'Param::ctor' and x.loops and len(x.args) == 2}
    else:
        X = {div(x.args[1][2] if x.args[1][0] == 'cast' else x.args[1], C(16)) for x in w}
    X = {x for x in X if contains(x, lambda z: z == S('m'))}
    ctx.need(len(X) == 1, 'the number of traces exchanged: %s' % ', '.join(show(x) for x in X))
    x = X.pop()
    name = ('traces', 'numbers')[k]
    bad, none = None, []
    for m in list(range(0, 130)) + [1000, 1001, 1002, 1003]:
        v = settle(subst(x, {S('m'): C(m)}))
        ctx.need(isc(v), 'the number of traces exchanged: ' + show(v))
        if not (2 * v[1] <= m):
            bad = bad or (m, v[1])
        if v[1] < 1:
            none.append(m)
    ctx.req(bad is None, 'R5', name + ': at most half', w[0], 'exchanges %s traces when a process has %s' % (bad and bad[1], bad and bad[0]))
    ctx.req(not [m for m in none if m >= 2], 'R5', name + ': at least one', w[0], 'exchanges nothing when a process has %s traces' % [m for m in none if m >= 2])
    ctx.req(not [m for m in none if m < 2], 'R5', name + ': at least one of fewer than two', f, 'exchanges nothing when a process has fewer than two traces')


def settle(v):
    if v[0] == 'ite':
        c = settle(v[1])
        return settle(v[2] if c[1] else v[3]) if isc(c) else v
    return v


def returned(ctx, f, P, L):
    """numbers or places"""
    e = ctx.summary(f, prim=lambda q, g: g is P or g is L or q == GET)
    ps = [S(p['n']) for p in f['ps']]
    X = calls(e, 'sortP')
    ctx.must(X, 'R6', f, 'does not sort the traces')
    ctx.req(len(X) == 1 and tuple(X[0].args) == tuple(ps[:3]), 'R6', 'sorted traces', X[0], 'sorts %s' % ', '.join(show(a) for a in X[0].args))
    G = calls(e, 'getPrm')
    gtn = consts(ctx, 'PIOL_META_')['gtn']
    ctx.req(len(G) == 1 and len(G[0].loops) == 1 and G[0].args[1] == C(gtn) and G[0].args[2] == ps[1] and G[0].args[0] == ('k', G[0].loops[0].id), 'R6', 'numbers', G[0] if G else f, 'takes %s' % ', '.join(show(a) for x in G for a in x.args))
    Y = [y for y in calls(e, 'sort')]
    ctx.req(len(Y) == 1 and pcv(Y[0]) == ps[3], 'R6', 'places', Y[0] if Y else f, 'the places are found %s' % ('when ' + show(pcv(Y[0])) if Y else 'never'))
    R = [r for r in e.events if r.kind == 'ret']
    ctx.need(R or e.ret is not None, 'the result')
