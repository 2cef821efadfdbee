"""Check runner: obligations, violations, known findings, evidence."""
import json, os, sys, time, importlib, traceback
from . import db as _db
from .db import Broken, VERIF, REPO
from . import sym as _sym

EVID = os.environ.get('EXS_EVID', os.path.join(VERIF, 'evidence'))
KF = os.path.join(VERIF, 'known_findings.txt')


class Stop(Exception):
    pass


def known():
    out = {}
    if os.path.exists(KF):
        for l in open(KF):
            l = l.strip()
            if l.startswith('known: '):
                p, k, t = l[7:].split(' | ', 2)
                out[(p.split('=', 1)[1].strip(), k.strip())] = t.strip()
    return out


_JOB = None


def _work(i):
    import threading
    ctx, func, items = _JOB
    ctx.obl, ctx.viol, ctx.fns = [], [], set()
    r = [None, None]

    def go():
        try:
            r[0] = func(ctx, items[i])
        except Broken as x:
            r[1] = str(x)
        except Exception:
            r[1] = traceback.format_exc()
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return ctx.obl, ctx.viol, ctx.fns, r[0], r[1]


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.dbs = {}
        self.obl = []
        self.viol = []
        self.fns = set()
        self.rules = {}
        self.notes = []
        self.assumptions = []

    # ---- program
    def db(self, groups=('lib',), ndebug=True):
        k = (tuple(groups), ndebug)
        if k not in self.dbs:
            self.dbs[k] = _db.DB(groups, ndebug)
        return self.dbs[k]

    def fn(self, q, npar=None, pt=None, groups=('lib',)):
        r = self.db(groups).find(q, npar, pt)
        return r[0]

    def summary(self, f, args=None, prim=lambda q, f: False, devirt=None, groups=('lib',), mpi_ok=False, ndebug=True, unroll=0, model=None, generic_while=False, ctors=False, pure=(), maxrec=2, snap=None, constglob=None, **kw):
        if isinstance(f, str):
            f = self.fn(f, groups=groups)
        self.fns.add('%s (%s)' % (f['fn'], self.db(groups).loc(f)))
        e = _sym.Engine(self.db(groups, ndebug), prim, devirt, mpi_ok=mpi_ok)
        e.unroll, e.model, e.generic_while = unroll, model or {}, generic_while
        e.ctors, e.pure, e.maxrec = ctors, set(pure), maxrec
        e.maxdepth += 3 * (maxrec - 2)
        e.snap = snap
        e.constglob = constglob
        e.run(f, args, **kw)
        return e

    def pmap(self, func, items, jobs=8):
        """func(ctx, item) on every item in forked workers; verdicts are merged in item order, return values (plain data) returned"""
        import multiprocessing as mp
        import threading
        global _JOB
        _JOB = (self, func, items)
        with mp.get_context('fork').Pool(jobs) as pool:
            res = pool.map(_work, range(len(items)), chunksize=1)
        out = []
        for obl, viol, fns, rv, err in res:
            if err:
                raise Broken(err)
            self.obl += obl
            self.viol += viol
            self.fns |= fns
            out.append(rv)
        return out

    # ---- verdicts
    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, inst):
        self.obl.append((rule, inst, True))

    def bad(self, rule, inst, file, line, fn, msg):
        self.obl.append((rule, inst, False))
        rel = os.path.relpath(file, REPO) if file and file.startswith(REPO) else (file or '?')
        self.viol.append({'rule': rule, 'instance': inst, 'file': rel, 'line': line, 'function': fn, 'message': msg,
                          'key': '%s:%s:%s' % (rule, fn.replace('exseis::', ''), inst)})

    def req(self, cond, rule, inst, where, msg):
        """where: function record, event or (file, line, fn)"""
        if cond:
            self.ok(rule, inst)
            return True
        if isinstance(where, dict):
            f, l, n = where['file'], where['line'], where['fn']
        elif isinstance(where, tuple) and hasattr(where, 'kind'):
            f, l, n = where.file, where.line, where.fn
        else:
            f, l, n = where
        self.bad(rule, inst, f, l, n, msg)
        return False

    def must(self, cond, rule, where, msg):
        """something every version that keeps the property has: its absence is a violation, and ends the analysis"""
        if not cond:
            self.req(False, rule, 'required', where, msg)
            raise Stop()

    def need(self, cond, msg):
        if not cond:
            raise Broken(msg)


def run(pid, tier):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    mod = importlib.import_module('checks.' + pid.lower())
    rc = 0
    try:
        try:
            mod.check(ctx)
        except Stop:
            pass
        nob = len(ctx.obl)
        if nob == 0:
            raise Broken('no obligation was generated: the rule has nothing to look at')
        floor = getattr(mod, 'FLOOR', 1)
        if nob < floor:
            raise Broken('only %d obligations (expected at least %d): anchors vanished' % (nob, floor))
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        rc = 2
    kn = known()
    new = []
    seen = set()
    for v in ctx.viol:
        if (pid, v['key']) in kn:
            if v['key'] not in seen:
                print('KNOWN-FINDING: property=%s %s:%s %s: %s' % (pid, v['file'], v['line'], v['function'], kn[(pid, v['key'])]))
            seen.add(v['key'])
        else:
            new.append(v)
    rep = os.path.join(EVID, pid + '.replay.json')
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if new and rc != 2 or (new and rc == 2):
        json.dump(new, open(rep, 'w'), indent=1)
        for v in new:
            print('  %s:%s: [%s] %s (%s): %s' % (v['file'], v['line'], v['rule'], v['function'], v['instance'], v['message']))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        rc = 1
    elif os.path.exists(rep):
        os.unlink(rep)
    byrule = {}
    for r, i, o in ctx.obl:
        x = byrule.setdefault(r, {'rule': ctx.rules.get(r, ''), 'obligations': 0, 'discharged': 0})
        x['obligations'] += 1
        x['discharged'] += bool(o)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': getattr(mod, 'LEVEL', 'other'),
          'wall_s': round(time.time() - t0, 2),
          'coverage': {'explanation': (mod.__doc__ or '').strip(),
                       'obligations': len(ctx.obl), 'discharged': sum(1 for o in ctx.obl if o[2]),
                       'functions_analysed': sorted(ctx.fns), 'rules': byrule,
                       'instances': sorted({'%s: %s' % (r, i) for r, i, _ in ctx.obl})[:400],
                       'units_parsed': sum(len(d.units) for d in ctx.dbs.values()),
                       'functions_in_scope': sum(len(d.fns) for d in ctx.dbs.values()),
                       'exit': rc},
          'assumptions': ctx.assumptions + getattr(mod, 'ASSUME', [])}
    ev['violations'] = [{k: str(v[k]) for k in ('file', 'line', 'function', 'rule', 'message', 'instance')} for v in new] if new else []
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    if rc == 0:
        print('OK property=%s obligations=%d functions=%d known=%d wall=%.1fs' % (pid, len(ctx.obl), len(ctx.fns), len(seen), time.time() - t0))
    return rc
