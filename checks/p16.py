"""The C interface.  Every C function is summarised with the C++ operations opaque and must perform exactly the operation it
stands for, on the object behind its handle, with its own arguments in order, and return that operation's result; a null
Param selects the variant without headers; deleting a handle deletes that handle and nothing else."""
from an.spec import *
from checks.fwd import *

FLOOR = 150
N = 'exseis::PIOL::'
# C function: (operation, receiver parameter or -, arguments (parameter index, or n<i>: null becomes the no-header value), result)
TABLE = '''
PIOL_File_Rule_addLong Rule::addLong 0 1,2 -
PIOL_File_Rule_addShort Rule::addShort 0 1,2 -
PIOL_File_Rule_addSEGYFloat Rule::addSEGYFloat 0 1,2,3 -
PIOL_File_Rule_addIndex Rule::addIndex 0 1 -
PIOL_File_Rule_addCopy Rule::addCopy 0 . -
PIOL_File_Rule_rmRule Rule::rmRule 0 1 -
PIOL_File_Rule_extent Rule::extent 0 . r
PIOL_File_Rule_memUsage Rule::memUsage 0 . r
PIOL_File_Rule_paramMem Rule::paramMem 0 . r
PIOL_File_Param_size Param::size 0 . r
PIOL_File_Param_memUsage Param::memUsage 0 . r
PIOL_File_Rule_addRule_Meta Rule::addRule 0 1 r
PIOL_File_Rule_addRule_Rule Rule::addRule 0 1 r
PIOL_File_getPrm_short param_utils::getPrm - 0,1,2 r
PIOL_File_getPrm_Integer param_utils::getPrm - 0,1,2 r
PIOL_File_getPrm_double param_utils::getPrm - 0,1,2 r
PIOL_File_setPrm_short param_utils::setPrm - 0,1,2,3 -
PIOL_File_setPrm_Integer param_utils::setPrm - 0,1,2,3 -
PIOL_File_setPrm_double param_utils::setPrm - 0,1,2,3 -
PIOL_File_cpyPrm param_utils::cpyPrm - 0,1,2,3 -
PIOL_ExSeis_barrier ExSeis::barrier 0 . -
PIOL_ExSeis_isErr ExSeis::isErr 0 e1 -
PIOL_ExSeis_getRank ExSeis::getRank 0 . r
PIOL_ExSeis_getNumRank ExSeis::getNumRank 0 . r
PIOL_ExSeis_max ExSeis::max 0 1 r
PIOL_File_ReadDirect_readText ReadDirect::readText 0 . c
PIOL_File_ReadDirect_readNs ReadDirect::readNs 0 . r
PIOL_File_ReadDirect_readNt ReadDirect::readNt 0 . r
PIOL_File_ReadDirect_readInc ReadDirect::readInc 0 . r
PIOL_File_WriteDirect_writeText WriteDirect::writeText 0 1 -
PIOL_File_WriteDirect_writeNs WriteDirect::writeNs 0 1 -
PIOL_File_WriteDirect_writeNt WriteDirect::writeNt 0 1 -
PIOL_File_WriteDirect_writeInc WriteDirect::writeInc 0 1 -
PIOL_File_ReadDirect_readTrace ReadDirect::readTrace 0 1,2,3,n4 -
PIOL_File_WriteDirect_writeTrace WriteDirect::writeTrace 0 1,2,3,n4 -
PIOL_File_WriteDirect_writeParam WriteDirect::writeParam 0 1,2,3 -
PIOL_File_ReadDirect_readParam ReadDirect::readParam 0 1,2,3 -
PIOL_File_ReadDirect_readTraceNonContiguous ReadDirect::readTraceNonContiguous 0 1,2,3,n4 -
PIOL_File_ReadDirect_readTraceNonMonotonic ReadDirect::readTraceNonMonotonic 0 1,2,3,n4 -
PIOL_File_WriteDirect_writeTraceNonContiguous WriteDirect::writeTraceNonContiguous 0 1,2,3,n4 -
PIOL_File_WriteDirect_writeParamNonContiguous WriteDirect::writeParamNonContiguous 0 1,2,3 -
PIOL_File_ReadDirect_readParamNonContiguous ReadDirect::readParamNonContiguous 0 1,2,3 -
PIOL_File_getMinMax exseis::PIOL::getMinMax - 0,1,2,3,4,5,6 -
PIOL_Set_getMinMax Flow::Set::getMinMax 0 1,2,3 -
PIOL_Set_sort Flow::Set::sort 0 1 -
PIOL_Set_sort_fn Flow::Set::sort 0 1 -
PIOL_Set_taper Flow::Set::taper 0 1,2,3 -
PIOL_Set_AGC Flow::Set::AGC 0 1,2,3 -
PIOL_Set_output Flow::Set::output 0 1 -
PIOL_Set_text Flow::Set::text 0 1 -
PIOL_Set_summary Flow::Set::summary 0 . -
PIOL_Set_add Flow::Set::add 0 1 -
'''
NEW = '''
PIOL_File_Rule_new Rule 1,p0
PIOL_File_Param_new Param *
PIOL_File_WriteDirect_new WriteDirect p0,p1
PIOL_File_ReadDirect_new ReadDirect p0,p1
PIOL_Set_new Flow::Set p0,p1
'''
DEL = 'PIOL_File_Rule_delete PIOL_File_Param_delete PIOL_ExSeis_delete PIOL_File_ReadDirect_delete PIOL_File_WriteDirect_delete PIOL_Set_delete'
# operations chosen by the type in the C name
TYPED = {'short': ('short',), 'Integer': ('long', 'long long'), 'double': ('double', 'float')}


def check(ctx):
    ctx.rule('R1', 'the C function performs exactly the operation it stands for, with its own arguments, and returns its result')
    ctx.rule('R2', 'typed accessors use the variant of their type')
    ctx.rule('R3', 'constructors build the object from their own arguments; delete releases exactly the handle')
    ctx.rule('R4', 'size helpers return the library values')
    db = ctx.db()
    prim = lambda q, f: not (f and ('_C_bindings' in f['file'] or f['file'].endswith('not_null.hh')))

    def get(n):
        r = [f for f in db.fns if f['fn'] == n and f.get('body')]
        ctx.need(r, 'C function ' + n)
        return r[0]
    for l in TABLE.split('\n'):
        if not l.strip():
            continue
        n, op, recv, args, ret = l.split()
        f = get(n)
        e = ctx.summary(f, prim=prim)
        P = [S(p['n']) for p in f['ps']]

        def arg(a):
            if a[0] == 'n':
                p = P[int(a[1:])]
                return ITE(EQ(NULL, p), ('ptrc', 1), p)
            if a[0] == 'e':
                p = P[int(a[1:])]
                return ITE(EQ(NULL, p), ('s', ''), p)
            return P[int(a)]
        av = [] if args == '.' else [arg(a) for a in args.split(',')]
        cs = forward(ctx, 'R1', f, e, op, P[int(recv)] if recv != '-' else None, av, {'r': 'value', 'c': 'chars', '-': None}[ret], n)
        if cs and ('getPrm_' in n or 'setPrm_' in n):
            t = TYPED[n.split('_')[-1]]
            for x in cs:
                g = db.byusr.get(x.node.get('usr', ''))
                ty = cvstrip(x.node.get('t', '')) if 'getPrm' in n else cvstrip(unref(g['pt'][2])) if g else ''
                ctx.req(ty in t, 'R2', n, x, 'uses the %s variant' % ty)
        if cs and 'addRule' in n:
            for x in cs:
                g = db.byusr.get(x.node.get('usr', ''))
                if g:
                    ctx.req(('Rule' in g['pt'][0]) == n.endswith('_Rule'), 'R2', n, x, 'uses addRule(%s)' % g['pt'][0])
    for l in NEW.split('\n'):
        if not l.strip():
            continue
        n, cls, args = l.split()
        f = get(n)
        e = ctx.summary(f, prim=prim)
        P = [S(p['n']) for p in f['ps']]
        ns = [x for x in e.events if x.kind == 'call' and x.name.startswith('new ') and (x.name.endswith('::' + cls))]
        if not ctx.req(ns and same(OR(*[pcv(x) for x in ns]), TRUE), 'R3', n, f, 'does not build a %s' % cls):
            continue
        if args == '*':
            r = [x for x in ns if len(x.args) >= 2]
            s = [x for x in ns if len(x.args) == 1 or len(x.args) >= 2 and x.args[0] != P[0]]
            ctx.req(len(ns) == 2 and len(r) >= 1 and r[0].args[0] == P[0] and r[0].args[1] == P[1], 'R3', n + ' with rule', ns[0], 'a given rule and size must be used')
            o = [x for x in ns if x not in r[:1]]
            ctx.req(len(o) == 1 and o[0].args[-1] == P[1], 'R3', n + ' without rule', ns[0], 'without a rule the size must be used')
            nn = lambda y: assume(assume(y, EQ(NULL, P[0]), 1), EQ(NULL, P[0]), 1)
            ctx.req(r and same(nn(pcv(r[0])), FALSE), 'R3', n + ' null rule', ns[0], 'a null rule is used')
        else:
            x = ns[0]
            for i, a in enumerate(args.split(',')):
                w = P[int(a[1:])] if a[0] == 'p' else C(int(a))
                ctx.req(i < len(x.args) and unstr(x.args[i]) == w, 'R3', '%s argument %d' % (n, i), x, 'built with %s' % (show(x.args[i]) if i < len(x.args) else 'nothing'))
        ctx.req(e.ret is not None and 'new' in str(e.ret), 'R3', n + ' result', ns[0], 'does not return the new object')
    f = get('PIOL_File_Rule_new_from_list')
    e = ctx.summary(f, prim=prim)
    P = [S(p['n']) for p in f['ps']]
    ns = [x for x in e.events if x.kind == 'call' and x.name.startswith('new ') and x.name.endswith('::Rule')]
    ok = len(ns) == 1 and len(ns[0].args) >= 4
    if ok:
        v = ns[0].args[0]
        el = Engine.fillval(None, v[3], S('i')) if v[0] == 'vec' and v[3] else None
        ok = v[0] == 'vec' and same(v[2], P[1]) and el == ('ld', P[0], S('i'))
    ctx.req(ok, 'R3', 'PIOL_File_Rule_new_from_list', f, 'the rule must be built from the n entries of the list')
    if ok:
        ctx.req(list(ns[0].args[1:4]) == [TRUE, FALSE, FALSE], 'R3', 'PIOL_File_Rule_new_from_list flags', f, 'the rule must contain only the listed entries')
    f = get('PIOL_ExSeis_new')
    e = ctx.summary(f, prim=prim)
    c = [x for x in e.events if x.kind == 'call' and x.name.endswith('ExSeis::New')]
    ctx.req(len(c) == 1 and c[0].args[0] == S(f['ps'][0]['n']), 'R3', 'PIOL_ExSeis_new', f, 'the library object must be created with the given verbosity')
    for n in DEL.split():
        f = get(n)
        e = ctx.summary(f, prim=prim)
        ds = [x for x in e.events if x.kind == 'call' and x.name == 'delete']
        ctx.req(len(ds) == 1 and ds[0].args[0] == S(f['ps'][0]['n']) and implies(NOT(EQ(NULL, S(f['ps'][0]['n']))), pcv(ds[0])) and not leftover(e, ds), 'R3', n, f, 'must delete exactly its handle')
    for n, v in (('PIOL_SEGY_utils_getTextSz', lambda p: C(3200)), ('PIOL_SEGY_utils_getMDSz', lambda p: C(240)), ('PIOL_SEGY_utils_getDFSz', lambda p: mul(C(4), p[0])),
                 ('PIOL_SEGY_utils_getFileSz', lambda p: add(C(3600), mul(p[0], add(C(240), mul(C(4), p[1])))))):
        f = get(n)
        e = ctx.summary(f)
        ctx.req(same(e.ret, v([S(p['n']) for p in f['ps']])), 'R4', n, f, 'returns %s' % show(e.ret))
