"""Forwarding obligations: a wrapper performs exactly one operation, the named one, with its own arguments in order."""
from an.spec import *


def unstr(v):
    """a std::string made of a C string is that C string"""
    while v is not None and v and v[0] in ('call', 'inst') and 'basic_string' in str(v[1]) and len(v[2]) == 1:
        v = v[2][0]
    return v


def isres(v, x):
    """v is the value the call x returns"""
    if v is None:
        return False
    if v == x.res:
        return True
    if v[0] in ('res', 'call') and v[1] == x.name:
        a = v[3] if v[0] == 'res' and len(v) > 3 and isinstance(v[3], tuple) and (not v[3] or isinstance(v[3][0], tuple)) else None
        return True
    return False


def leftover(e, used):
    """events with an effect which are not among the used ones"""
    return [x for x in e.events if x not in used and x.kind in ('call', 'store', 'copy', 'fill') and not (x.kind == 'call' and x.name.split('::')[-1] in ('not_null', 'record', 'get'))]


def forward(ctx, rule, f, e, target, recv, args, ret, inst, extra=()):
    """target: qualified-name suffix; recv: value of the receiver or None; args: values, None = any.
    The target must be called exactly once on every path"""
    cs = [x for x in e.events if x.kind == 'call' and (x.name == target or x.name.endswith('::' + target))]
    tot = OR(*[pcv(x) for x in cs])
    ok = ctx.req(cs and same(tot, TRUE) and all(same(AND(pcv(a), pcv(b)), FALSE) for i, a in enumerate(cs) for b in cs[:i]) and not any(x.loops for x in cs), rule, inst + ' called once', cs[0] if cs else f,
                 '%s must be called exactly once on every path; found %d call(s) under %s' % (target, len(cs), show(tot)))
    if not ok:
        return None
    val = lambda k: vmerge([(pcv(x), k(x)) for x in cs])
    if recv is not None:
        ctx.req(same(val(lambda x: x.obj if x.obj is not None else NULL), recv), rule, inst + ' receiver', cs[0], 'the receiver is %s' % show(val(lambda x: x.obj if x.obj is not None else NULL)))
    for i, a in enumerate(args):
        if a is None:
            continue
        g = val(lambda x: unstr(x.args[i]) if i < len(x.args) else S('missing'))
        ctx.req(same(g, a), rule, '%s argument %d' % (inst, i), cs[0], 'argument %d of %s is %s, must be %s' % (i, target, show(g), show(a)))
    for x in cs:
        for i in range(len(args), len(x.args)):
            if i - len(args) < len(extra):
                ctx.req(x.args[i] == extra[i - len(args)], rule, '%s default %d' % (inst, i), x, 'argument %d of %s is %s, must be %s' % (i, target, show(x.args[i]), show(extra[i - len(args)])))
    lo = leftover(e, cs)
    ctx.req(not lo, rule, inst + ' nothing else', lo[0] if lo else f, 'also does %s' % (showev(lo[0])[:150] if lo else ''))
    if ret:
        r = e.ret
        while r is not None and ret == 'chars' and r[0] in ('arr', 'p'):
            r = r[1]
        ok = r is not None and (all(isres(r, x) for x in cs) or len(cs) > 1 and r == vmerge([(pcv(x), x.res) for x in cs]) or r[0] == 'ite' and all(any(isres(t, x) for x in cs) for t in leaves(r)))
        ctx.req(ok, rule, inst + ' result', cs[0], 'returns %s, must be the result of %s' % (show(e.ret) if e.ret else 'nothing', target))
    return cs


def leaves(v):
    if v[0] == 'ite':
        return leaves(v[2]) + leaves(v[3])
    return [v]


def vmerge(ps):
    v = ps[-1][1]
    for c, x in reversed(ps[:-1]):
        v = ITE(c, x, v) if x != v else v
    return v
