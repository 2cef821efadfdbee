"""Comparison of summaries: alpha-normalisation and equality modulo case analysis on gates."""
from .sym import *
from .sym import _mk, _terms

S = lambda n: ('sym', n)


def conds(v):
    """atomic gate conditions of v (pre-order)"""
    out = []

    def c(x):
        if x[0] == 'not':
            c(x[1])
        elif x[0] == 'and':
            for y in x[1]:
                c(y)
        elif x[0] == 'ite':
            c(x[1]); c(x[2]); c(x[3])
        elif not isc(x) and x not in out:
            inner(x)
            out.append(x)

    def inner(x):
        """gates inside an atomic comparison are split first"""
        if x[0] in ('<', '==') and contains(x, lambda z: z[0] == 'ite'):
            for a in atoms(x, lambda z: z[0] == 'ite'):
                c(a[1])
    seen = set()

    def go(x):
        if not isinstance(x, tuple) or id(x) in seen:
            return
        seen.add(id(x))
        if x and x[0] == 'ite':
            c(x[1])
            go(x[2]); go(x[3])
            return
        if x and x[0] in ('not', 'and'):
            c(x)
            return
        if x and x[0] in ('min', 'max') and len(x) > 1 and len(x[1]) == 2:
            a, b = x[1]
            y = LT(a, b)
            if y not in out and LT(b, a) not in out:
                out.append(y)
        if x and x[0] in ('<', '==') and len(x) == 3:
            if x not in out:
                inner(x)
                out.append(x)
            return
        for y in x:
            go(y)
    go(v)
    return out


def assume(v, c, val):
    """v under the assumption that the atom c is val"""
    m = {c: C(val)}
    if c[0] == '<' and val:
        m[('<', c[2], c[1])] = FALSE
        m[EQ(c[1], c[2])] = FALSE
    if c[0] == '==' and val:
        for x, y in ((c[1], c[2]), (c[2], c[1])):
            m.setdefault(('<', x, y), FALSE)
        if isc(c[1]) or c[1][0] in ('null', 'ptrc'):
            m[c[2]] = c[1]
        elif isc(c[2]) or c[2][0] in ('null', 'ptrc'):
            m[c[1]] = c[2]
        elif c[1][0] in ('fld', 'sym', 'ld') and not contains(c[2], lambda z: z == c[1]):
            m[c[1]] = c[2]
        elif c[2][0] in ('fld', 'sym', 'ld') and not contains(c[1], lambda z: z == c[2]):
            m[c[2]] = c[1]
    if c[0] == '<':
        s = tuple(sorted((c[1], c[2]), key=sk))
        m[('min', s)] = c[1] if val else c[2]
        m[('max', s)] = c[2] if val else c[1]
    if c[0] == '==' and val:
        s = tuple(sorted((c[1], c[2]), key=sk))
        m[('min', s)] = m[('max', s)] = c[1]
    r = subst(v, m)
    for _ in range(3):
        w = subst(r, m)
        if w == r:
            break
        r = w
    return r


def same(a, b, depth=14):
    if a == b:
        return True
    if a is None or b is None:
        return False
    if depth == 0:
        return False
    p = ('pair', a, b)
    cs = conds(p)
    if not cs:
        return False
    c = cs[0]
    for val in (1, 0):
        q = assume(p, c, val)
        if not same(q[1], q[2], depth - 1):
            return False
    return True


def implies(p, q, depth=12):
    """p => q for boolean values, by case analysis (sound, incomplete)"""
    return same(AND(p, q), p, depth)


def rename(v, m):
    """replace sub-values wholesale without re-normalising keys that are not values"""
    return subst(v, m)


def alpha(ev, extra=None):
    """event with its loop counters renamed by depth: ('k',id) -> ('K',depth)"""
    m = {('k', l.id): ('K', i) for i, l in enumerate(ev.loops)}
    if extra:
        m.update(extra)
    return ev._replace(args=tuple(subst(a, m) if a is not None else a for a in ev.args), pc=tuple(subst(c, m) for c in ev.pc),
                       obj=subst(ev.obj, m) if ev.obj is not None else None)


def K(i):
    return ('K', i)


def fill_of(ev, env, p):
    """element expression (in HOLE, relative to the pointer) of the array p points to, as known after the event"""
    if p[0] != 'p':
        return None
    f = env.get(('fill', p[1]))
    return f


def pcv(ev):
    return AND(*ev.pc)


def elem(ev, i, idx):
    """value of element idx of the array argument i of an event, as known when the call happens"""
    p = ev.args[i]
    if p[0] != 'p':
        p = ('p', p, C(0))
    f = ev.mem.get(i)
    at = add(p[2], idx)
    if f is not None:
        r = Engine.fillval(None, f, at)
        if r is not None:
            return r
    return ('ld', p[1], at)


def calls(e, *suffix, kind='call'):
    return [x for x in e.events if x.kind == kind and any(x.name == s or x.name.endswith('::' + s) for s in suffix)]


def wher(ev):
    return (ev.file, ev.line, ev.fn)
