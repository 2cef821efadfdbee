"""What the rule and parameter checks share: type codes of the entry classes, the entry's type as a pure function of the entry."""
from an.spec import *

N = 'exseis::PIOL::'
U = N + 'param_utils::'
TYPES = ('Long', 'Short', 'Float', 'Index', 'Copy')
VEC = {'Float': 'f', 'Long': 'i', 'Short': 's', 'Index': 't'}
T = ('d', S('this'))


def pure(v):
    """calls of RuleEntry::type on the same entry have the same result"""
    m = {}
    for _ in range(4):
        m = {a: ('ty', a[2]) for a in atoms(v, lambda z: z[0] == 'res' and z[1].split('::')[-1] == 'type')}
        if not m:
            return v
        v = subst(v, m)
    return v


def pev(x):
    return x._replace(pc=tuple(pure(c) for c in x.pc), args=tuple(pure(a) if a is not None else a for a in x.args),
                      obj=pure(x.obj) if x.obj is not None else None)


def codes(ctx):
    """type code each entry class reports"""
    out = {}
    for t in TYPES:
        f = [g for g in ctx.db().fns if g.get('body') and g.get('cls', '').endswith('::SEGY%sRuleEntry' % t) and g['nm'] == 'type']
        ctx.need(len(f) == 1, 'type() of the %s entries' % t)
        v = ctx.summary(f[0]).ret
        ctx.need(v is not None and isc(v), 'constant type() of the %s entries' % t)
        ctx.req(v not in out.values(), 'R0', 'type of ' + t, f[0], 'two entry classes report type %s' % show(v))
        out[t] = v
    return out


def under(v, *facts):
    """v under (atom, value) facts"""
    for c, val in facts:
        while c[0] == 'not':
            c, val = c[1], 1 - val
        if c[0] == 'and':
            if val:
                v = under(v, *[(x, 1) for x in c[1]])
            continue
        if not isc(c):
            v = assume(v, c, val)
    return v


def typed(v, entry, code, cs):
    """v when the entry has the type of that code"""
    v = subst(pure(v), {('ty', entry): code})
    return v


def strip(v):
    while v[0] in ('cast', 'trunc'):
        v = v[2]
    return v


def moves(e):
    """element writes of a summary: (event, base, index, value, trip, condition); the innermost single index is HOLE when the write
    runs over a range"""
    out = []
    for x in e.events:
        x = pev(x)
        if x.kind == 'store' and x.obj is not None and x.obj[0] == 'i':
            out.append((x, x.obj[1], x.obj[2], x.args[0], None, AND(*x.pc)))
        elif x.kind == 'copy':
            d = x.args[2]
            if d[0] != 'p':
                d = ('p', d, C(0))
            out.append((x, d[1], add(d[2], HOLE), x.args[3], x.args[1], AND(*x.pc)))
    return out


from an.sym import HOLE
