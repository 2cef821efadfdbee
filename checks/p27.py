"""Assertions change nothing.  In the assertion-enabled program every asserted condition is found; neither the condition nor any
function it calls may write memory that outlives it, perform input or output, or communicate."""
from an.spec import *
from an.db import walk

FLOOR = 60
G = ('lib', 'util')
PURE = ('strlen', 'strcmp', 'strncmp', 'memcmp', 'isnan', 'isfinite', 'isinf', 'isprint', 'isalpha', 'abs', 'fabs', 'fabsf', 'sqrt')


def effects(ctx, db, f, memo):
    """why calling f is not free of effects, or None"""
    k = f['fkey']
    if k in memo:
        return memo[k]
    memo[k] = None
    r = None
    if f.get('cls') and not f.get('static') and (f['usr'].endswith('#1') or f['usr'].endswith('#1#')) and False:
        return None
    e = ctx.summary(f, groups=G, ndebug=False)
    for x in e.events:
        if x.kind in ('store', 'copy', 'fill') and not local(x):
            r = 'writes %s' % showev(x)[:60]
        if x.kind == 'call' and not pure_ext(x.name) and not x.node.get('cm'):
            r = 'calls %s' % x.name
    for l in e.final.env:
        if l and l[0] == 'g':
            r = 'writes %s' % (l[1],)
    memo[k] = r
    return r


def local(x):
    t = x.obj if x.obj is not None else (x.args[0] if x.args else NULL)
    return not contains(t, lambda z: z[0] in ('sym', 'g', 'fld')) if isinstance(t, tuple) and t else False


def pure_ext(n):
    s = n.split('::')[-1]
    return n.startswith('std::') or n.startswith('__') or s in PURE or s.startswith('operator')


def check(ctx):
    ctx.rule('R1', 'asserted conditions are free of effects')
    db = ctx.db(G, False)
    memo = {}
    for f in db.fns:
        if not f.get('body'):
            continue
        for n in walk(f['body']):
            if n.get('k') != 'cond':
                continue
            br = [b for b in (n.get('a'), n.get('b')) if isinstance(b, dict) and any(y.get('k') == 'call' and str(y.get('fn')).startswith('__assert') for y in walk(b))]
            if not br:
                continue
            cond = n['c']
            why = None
            for y in walk(cond):
                k = y.get('k')
                if k in ('as', 'cas'):
                    why = 'an assignment'
                elif k == 'un' and y.get('op') in ('++', '--', 'p++', 'p--'):
                    why = 'an increment or decrement'
                elif k in ('new', 'delete', 'throw'):
                    why = k
                elif k == 'call':
                    q = y.get('fn') or ''
                    g = [h for h in db.fns if h.get('usr') == y.get('usr') and h.get('body')] if y.get('usr') else []
                    if g:
                        if q.startswith('std::'):
                            continue
                        w = effects(ctx, db, g[0], memo)
                        if w:
                            why = 'a call of %s, which %s' % (q, w)
                    elif not (q.startswith('std::') and y.get('nm') not in ('push_back', 'pop_back', 'erase', 'insert', 'clear', 'resize', 'release', 'reset', 'swap', 'sort', 'fill', 'copy', 'exchange', 'getline', 'move') or y.get('cm') or pure_ext(q)):
                        why = 'a call of %s' % (q or 'a function value')
            where = (f['file'], n.get('l', f['line']), f['fn'])
            ctx.req(why is None, 'R1', '%s line %s' % (f['fn'].split('::')[-1], '' if why is None else n.get('l')), where, 'the asserted condition contains %s, which is lost in builds without assertions' % why)
