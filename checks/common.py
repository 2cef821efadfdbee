"""Summaries several checks share."""
from an.spec import *

LOG = lambda q, f: 'Logger' in q or 'MPI_error' in q or q.endswith('isErr')


def reader_ctor(ctx):
    c = [f for f in ctx.db().find('exseis::PIOL::ReadSEGY::ReadSEGY') if f.get('body') and len(f['ps']) > 2]
    ctx.need(len(c) >= 1, 'reader constructor')
    f = sorted(c, key=lambda g: -len(g['ps']))[0]
    e = ctx.summary(f, prim=LOG)
    loc = ('d', S('this'))
    names = {n: getter_field(ctx, q) for n, q in (('ns', 'exseis::PIOL::ReadInterface::readNs'), ('inc', 'exseis::PIOL::ReadInterface::readInc'), ('nt', 'exseis::PIOL::ReadSEGY::readNt'))}
    e.field = lambda n: e.rd(('f', loc, names.get(n, n)), e.final)
    return e, f


def writer_dtor(ctx):
    f = ctx.fn('exseis::PIOL::WriteSEGY::~WriteSEGY')
    return ctx.summary(f, prim=LOG), f


def getter_field(ctx, q):
    """the member a trivial getter returns"""
    e = ctx.summary(q)
    r = e.ret
    ctx.need(r is not None and r[0] == 'fld', q + ' is not a plain getter')
    return r[2]


def alts(x, i):
    """the event once per alternative value of its i-th argument, under the condition that selects it"""
    def go(v, c):
        if v[0] == 'ite':
            return go(v[2], AND(c, v[1])) + go(v[3], AND(c, NOT(v[1])))
        return [(v, c)]
    out = []
    for v, c in go(x.args[i], TRUE):
        c = AND(*x.pc, c)
        if c != FALSE:
            pc = c[1] if c[0] == 'and' else () if c == TRUE else (c,)
            out.append(x if v == x.args[i] else x._replace(pc=tuple(pc), args=tuple(x.args[:i]) + (v,) + tuple(x.args[i + 1:])))
    return out


def changed(v, old):
    """condition under which the value v differs from old"""
    if v == old:
        return FALSE
    if v[0] == 'ite':
        return ITE(v[1], changed(v[2], old), changed(v[3], old))
    return NOT(EQ(v, old)) if v[0] in ('sym', 'fld', 'c') else TRUE
