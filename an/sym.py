"""Gated value numbering over the type-resolved program.

A function is interpreted abstractly once (no path enumeration, no solver, no
concrete input): every expression gets a canonical value (polynomial normal form
over opaque atoms, min/max/ceil-division, gated joins for branches, induction
variables of loops expressed in the iteration counter), and every call that is
not inlined and every array store becomes an event carrying its path condition,
its enclosing loops with trip counts, and its canonical arguments.  Because the
values are canonical, extracting helpers, reordering independent statements,
renaming, introducing temporaries, rewriting loops or switching between
if/switch/?: leave the summary as it is.
"""
import sys
from collections import namedtuple
from . import db as _db

sys.setrecursionlimit(20000)

Event = namedtuple('Event', 'kind name obj args res pc loops line file fn node stack seq mem')

# ---------------------------------------------------------------- values
NULL = ('null',)
TRUE, FALSE = ('c', 1), ('c', 0)
HOLE = ('hole',)
# standard algorithms that change the elements of a range they are given
MUTALG = {'sort', 'stable_sort', 'partial_sort', 'partial_sort_copy', 'nth_element', 'reverse', 'reverse_copy', 'rotate', 'rotate_copy', 'unique', 'unique_copy', 'remove', 'remove_if',
          'remove_copy', 'remove_copy_if', 'replace', 'replace_if', 'replace_copy', 'generate', 'generate_n', 'random_shuffle', 'shuffle', 'partition', 'stable_partition', 'partition_copy',
          'merge', 'inplace_merge', 'swap_ranges', 'copy_if', 'copy_backward', 'move_backward', 'partial_sum', 'adjacent_difference', 'make_heap', 'push_heap', 'pop_heap', 'sort_heap',
          'set_union', 'set_intersection', 'set_difference', 'set_symmetric_difference', 'next_permutation', 'prev_permutation', 'iter_swap', 'inner_product_out'}


def ptralts(x, c=None):
    """the pointers a value can be, with their conditions"""
    c = TRUE if c is None else c
    if x is None:
        return
    if x[0] == 'ite':
        yield from ptralts(x[2], AND(c, x[1]))
        yield from ptralts(x[3], AND(c, NOT(x[1])))
    elif x[0] == 'p' and x[1][0] == 'ite':
        for d, y in ptralts(x[1], c):
            yield d, (('p', y[1], add(y[2], x[2])) if y[0] == 'p' else ('p', y, x[2]))
    elif x[0] == 'p':
        yield c, x
    elif c != TRUE and x[0] in ('arr', 'addr'):
        yield c, ('p', x, C(0))


def C(n):
    return ('c', int(n))


def isc(v):
    return v[0] == 'c'


_sk = {}


def sk(v):
    s = _sk.get(v)
    if s is None:
        s = repr(v)
        _sk[v] = s
    return s


def _terms(v):
    if v[0] == 'c':
        return {(): v[1]} if v[1] else {}
    if v[0] == '+':
        return dict(v[1])
    return {(v,): 1}


def _mk(t):
    t = {m: c for m, c in t.items() if c}
    if not t:
        return C(0)
    if len(t) == 1:
        (m, c), = t.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return ('+', tuple(sorted(t.items(), key=lambda mc: (len(mc[0]), [sk(a) for a in mc[0]]))))


def _canon_ceil(t):
    """a/b + [a%b != 0]  ->  ceildiv(a,b) inside a sum"""
    ch = True
    while ch:
        ch = False
        for m, c in list(t.items()):
            for a in m:
                if a[0] == 'not' and a[1][0] == '==' and C(0) in a[1][1:]:
                    md = [x for x in a[1][1:] if x != C(0)]
                    if len(md) == 1 and md[0][0] == '%':
                        A, B = md[0][1:]
                        rest = list(m)
                        rest.remove(a)
                        q = ('/', A, B)
                        m2 = tuple(sorted(rest + [q], key=sk))
                        if t.get(m2, 0) and (t[m2] > 0) == (c > 0):
                            k = c if abs(c) <= abs(t[m2]) else t[m2]
                            for mm in (m, m2):
                                t[mm] -= k
                                if not t[mm]:
                                    del t[mm]
                            m3 = tuple(sorted(rest + [('ceildiv', A, B)], key=sk))
                            t[m3] = t.get(m3, 0) + k
                            ch = True
                            break
            if ch:
                break
    return t


def add(*vs):
    t = {}
    for v in vs:
        for m, c in _terms(v).items():
            t[m] = t.get(m, 0) + c
    t = {m: c for m, c in t.items() if c}
    return _mk(_canon_mod(_canon_ceil(t)))


def _canon_mod(t):
    """A - B*(A/B)  ->  A % B inside a sum"""
    for _ in range(4):
        qs = {a for m in t for a in m if a[0] == '/'}
        for q in qs:
            A, B = q[1], q[2]
            P = {m: c for m, c in _terms(A).items()}
            for m, c in _terms(B).items():
                k = tuple(sorted(m + (q,), key=sk))
                P[k] = P.get(k, 0) - c
            P = {m: c for m, c in P.items() if c}
            if not P or not all(m in t for m in P):
                continue
            m0 = next(iter(P))
            r = t[m0] // P[m0]
            if r and all(t[m] == r * c for m, c in P.items()):
                for m in P:
                    del t[m]
                k = (('%', A, B),)
                t[k] = t.get(k, 0) + r
                t = {m: c for m, c in t.items() if c}
                break
        else:
            break
    return t


def neg(v):
    return _mk({m: -c for m, c in _terms(v).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    t = {}
    for m, c in _terms(a).items():
        for n, d in _terms(b).items():
            k = tuple(sorted(m + n, key=sk))
            t[k] = t.get(k, 0) + c * d
    if len(t) > 64:
        return ('*', a, b)
    return _mk(_canon_ceil({m: c for m, c in t.items() if c}))


def div(a, b, flt=False):
    if flt:
        if b == C(1):
            return a
        return ('f/', a, b)
    if b == C(1) or a == C(0) and b != C(0):
        return a
    if isc(a) and isc(b) and b[1]:
        q = abs(a[1]) // abs(b[1])
        return C(q if (a[1] < 0) == (b[1] < 0) else -q)
    # (x + b - 1) / b
    x = add(a, C(1), neg(b))
    if not isc(b) or b[1] > 1:
        t = _terms(a)
        tb = _terms(b)
        if all(t.get(m, 0) >= c for m, c in tb.items() if m != ()) and (not isc(b)) and t.get((), 0) == tb.get((), 0) - 1:
            return ceildiv(x, b)
        if isc(b) and t.get((), 0) == b[1] - 1:
            return ceildiv(x, b)
    # exact division of a polynomial by a constant or an atom
    q = _exact(a, b)
    if q is not None:
        return q
    return ('/', a, b)


def _exact(a, b):
    if isc(b) and b[1]:
        t = _terms(a)
        if t and all(c % b[1] == 0 for c in t.values()):
            return _mk({m: c // b[1] for m, c in t.items()})
        return None
    if b[0] != '+':
        t = _terms(a)
        if t and all(b in m for m in t):
            r = {}
            for m, c in t.items():
                m = list(m)
                m.remove(b)
                r[tuple(m)] = c
            return _mk(r)
    elif a == b:
        return C(1)
    return None


def ceildiv(a, b):
    if b == C(1) or a == C(0):
        return a
    if isc(a) and isc(b) and b[1]:
        return C(-((-a[1]) // b[1]))
    return ('ceildiv', a, b)


def mod(a, b):
    if isc(a) and isc(b) and b[1]:
        return C(a[1] - int(a[1] / b[1]) * b[1])
    if a == C(0):
        return a
    return ('%', a, b)


def NOT(a):
    if isc(a):
        return C(0 if a[1] else 1)
    if a[0] == 'not':
        return a[1]
    return ('not', a)


def AND(*xs):
    s = set()
    for x in xs:
        if x[0] == 'and':
            s.update(x[1])
        elif isc(x):
            if not x[1]:
                return FALSE
        else:
            s.add(x)
    for x in s:
        if NOT(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    # absorption: x & !(x & y) -> x & !y
    ch = True
    while ch:
        ch = False
        for x in list(s):
            if x[0] == 'not' and x[1][0] == 'and':
                inner = set(x[1][1])
                if any(NOT(i) in s for i in inner):
                    s.discard(x)
                    ch = True
                    break
                if inner & s:
                    s.discard(x)
                    r = NOT(AND(*(inner - s)))
                    if r[0] == 'and':
                        s.update(r[1])
                    elif isc(r):
                        if not r[1]:
                            return FALSE
                    else:
                        s.add(r)
                    ch = True
                    break
    if not s:
        return TRUE
    for x in s:
        if NOT(x) in s:
            return FALSE
    if len(s) == 1:
        return next(iter(s))
    return ('and', tuple(sorted(s, key=sk)))


def OR(*xs):
    return NOT(AND(*[NOT(x) for x in xs]))


def LT(a, b, uns=False):
    if isc(a) and isc(b):
        return C(1 if a[1] < b[1] else 0)
    if a == b:
        return FALSE
    if a[0] == 'f' or b[0] == 'f':
        x, y = lit(a), lit(b)
        if x is not None and y is not None:
            return C(1 if x < y else 0)
    if uns:
        if b == C(0):
            return FALSE
        if a == C(0):
            return NOT(EQ(b, C(0)))
        if b == C(1):
            return EQ(a, C(0))
    return ('<', a, b)


def wrapc(v, t):
    """a number converted to an integer type"""
    if not isc(v) or t not in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long'):
        return v
    b = 8 * {'char': 1, 'short': 2, 'int': 4, 'long': 8}[t.split()[-1]]
    x = v[1] % (1 << b)
    return C(x if t.startswith('unsigned') or x < 1 << (b - 1) else x - (1 << b))


def lit(v):
    """the number a literal stands for"""
    if isc(v):
        return v[1]
    if v[0] == 'f' and len(v) == 2:
        try:
            x = float(v[1])
        except (TypeError, ValueError):
            return None
        return x if x - x == 0 else None
    return None


def EQ(a, b):
    if a == b:
        return TRUE
    if a[0] == 'f' or b[0] == 'f':
        x, y = lit(a), lit(b)
        if x is not None and y is not None:
            return C(1 if x == y else 0)
    if isc(a) and isc(b):
        return C(1 if a[1] == b[1] else 0)
    # booleans compared with constants
    for x, y in ((a, b), (b, a)):
        if isc(y) and isbool(x):
            return x if y[1] else NOT(x)
    for x, y in ((a, b), (b, a)):
        if x == ('null',) and y[0] == 'p' and y[1][0] == 'arr' and y[1][1][0] == 'given':
            return FALSE        # an array handed to the function
    if a[0] in ('ptrc', 'null', 'fn') and b[0] in ('ptrc', 'null', 'fn'):
        return FALSE
    if a[0] == 'p' == b[0] and a[1] == b[1] and len(a) == len(b) == 3:
        return EQ(a[2], b[2])
    a, b = sorted((a, b), key=sk)
    return ('==', a, b)


def isbool(v):
    return v[0] in ('<', '==', 'not', 'and') or (v[0] == 'ite' and (isbool(v[2]) or v[2] in (TRUE, FALSE)) and (isbool(v[3]) or v[3] in (TRUE, FALSE)))


def ITE(c, a, b):
    if isc(c):
        return a if c[1] else b
    if a == b:
        return a
    if c[0] == 'not':
        c, a, b = c[1], b, a
    if a[0] == 'ite' and a[1] == c:
        a = a[2]
    if b[0] == 'ite' and b[1] == c:
        b = b[3]
    if a == b:
        return a
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return NOT(c)
    ba, bb = isbool(a) or a in (TRUE, FALSE), isbool(b) or b in (TRUE, FALSE)
    if ba and bb and (isbool(a) or isbool(b)):
        return OR(AND(c, a), AND(NOT(c), b))
    if c[0] == '<':
        x, y = c[1], c[2]
        if (a, b) == (x, y):
            return MIN(x, y)
        if (a, b) == (y, x):
            return MAX(x, y)
    if c[0] == '==' and C(0) in c[1:] and a[0] not in ('p', 'vec', 'upd'):
        r = [x for x in c[1:] if x != C(0)]
        if len(r) == 1 and r[0][0] == '%':
            d = sub(b, a)
            if d == C(1):
                return add(a, NOT(c))
    if c[0] == '==':
        # canonical order of equality chains over one scrutinee
        x, k = _eqc(c)
        if x is not None and b[0] == 'ite' and b[1][0] == '==':
            x2, k2 = _eqc(b[1])
            if x2 == x and k2 != k and sk(k2) < sk(k):
                return ('ite', b[1], b[2], ITE(c, a, b[3]))
    return ('ite', c, a, b)


def _eqc(c):
    if isc(c[1]) and not isc(c[2]):
        return c[2], c[1]
    if isc(c[2]) and not isc(c[1]):
        return c[1], c[2]
    return None, None


def MIN(*vs):
    return _mm('min', vs)


def MAX(*vs):
    return _mm('max', vs)


def _mm(k, vs):
    s, cs = set(), []
    for v in vs:
        if v[0] == k:
            for x in v[1]:
                (cs.append(x[1]) if isc(x) else s.add(x))
        elif isc(v):
            cs.append(v[1])
        else:
            s.add(v)
    if cs:
        s.add(C(min(cs) if k == 'min' else max(cs)))
    if len(s) == 1:
        return next(iter(s))
    return (k, tuple(sorted(s, key=sk)))


def subst(v, m):
    """replace atoms; m: dict value->value; re-normalises"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if not isinstance(x, tuple) or not x or not isinstance(x[0], str):
            return x
        if x in memo:
            return memo[x]
        k = x[0]
        if k in ('c', 's', 'f', 'hole', 'null'):
            r = x
        elif k == '+':
            r = C(0)
            for mono, c in x[1]:
                t = C(c)
                for a in mono:
                    t = mul(t, go(a))
                r = add(r, t)
        elif k == 'ite':
            r = ITE(go(x[1]), go(x[2]), go(x[3]))
        elif k == 'not':
            r = NOT(go(x[1]))
        elif k == 'and':
            r = AND(*[go(y) for y in x[1]])
        elif k == '<':
            r = LT(go(x[1]), go(x[2]))
        elif k == '==':
            r = EQ(go(x[1]), go(x[2]))
        elif k == '/':
            r = div(go(x[1]), go(x[2]))
        elif k == '%':
            r = mod(go(x[1]), go(x[2]))
        elif k == 'ceildiv':
            r = ceildiv(go(x[1]), go(x[2]))
        elif k in ('min', 'max'):
            r = _mm(k, [go(y) for y in x[1]])
        else:
            r = tuple(gt(y) for y in x)
        memo[x] = r
        return r

    def gt(y):
        if isinstance(y, tuple):
            if y and isinstance(y[0], str):
                return go(y)
            return tuple(gt(z) for z in y)
        return y
    return go(v)


def contains(v, pred):
    st, seen = [v], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x and isinstance(x[0], str) and pred(x):
                return True
            st.extend(x)
    return False


def atoms(v, pred):
    out, st = set(), [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and pred(x):
                out.add(x)
                continue
            st.extend(x)
    return out


def show(v, d=0):
    if not isinstance(v, tuple) or not v:
        return str(v) if not isinstance(v, tuple) else '()'
    k = v[0]
    if not isinstance(k, str):
        return '(' + ', '.join(show(x, d + 1) for x in v) + ')'
    if d > 12:
        return '...'
    s = lambda x: show(x, d + 1)
    if k == 'c':
        return str(v[1])
    if k == 's':
        return repr(v[1])
    if k == 'f':
        return v[1] if len(v) == 2 else s(v[1]) + '.' + v[2]
    if k == 'd':
        return '*' + s(v[1]) if v[1][0] != 'sym' else s(v[1])
    if k == 'fn':
        return v[1]
    if k == 'null':
        return 'NULL'
    if k == 'sym':
        return v[1]
    if k == 'k':
        return 'k%d' % v[1]
    if k == '+':
        return '(' + ' + '.join(('' if c == 1 and m else '%d*' % c if m else str(c)) + '*'.join(s(a) for a in m) for m, c in v[1]) + ')'
    if k == 'fld':
        return s(v[1]) + '.' + v[2]
    if k in ('<', '==', '/', '%', 'f/'):
        return '(%s %s %s)' % (s(v[1]), k, s(v[2]))
    if k == 'not':
        return '!' + s(v[1])
    if k == 'and':
        return '(' + ' && '.join(s(x) for x in v[1]) + ')'
    if k == 'ite':
        return '(%s ? %s : %s)' % tuple(s(x) for x in v[1:])
    if k in ('min', 'max'):
        return k + '(' + ', '.join(s(x) for x in v[1]) + ')'
    if k == 'p':
        return s(v[1]) + ('+' + s(v[2]) if v[2] != C(0) else '')
    if k == 'ld':
        return '%s[%s]' % (s(v[1]), s(v[2]))
    return k + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in v[1:]) + ')'


def showev(e):
    o = show(e.obj) + '.' if e.obj is not None else ''
    return '%s %s%s(%s)' % (e.kind, o, e.name, ', '.join(show(a) for a in e.args)) + (' if ' + ' && '.join(show(c) for c in e.pc) if e.pc else '') + \
        (' loops ' + ', '.join('k%d<%s' % (l.id, show(l.trip)) for l in e.loops) if e.loops else '')


# ---------------------------------------------------------------- types
W = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
     'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8, 'wchar_t': 4, '__int128': 16, 'long double': 16}
INTS = set(W) - {'float', 'double', 'long double'}


def cvstrip(t):
    t = t.strip()
    for q in ('const ', 'volatile '):
        while t.startswith(q):
            t = t[len(q):]
    while t.endswith(' const') or t.endswith('*const'):
        t = t[:-5].strip()
    return t


def width(t):
    return W.get(cvstrip(t))


def isuns(t):
    t = cvstrip(t)
    return t.startswith('unsigned') or t == 'bool'


def isptr(t):
    return cvstrip(t).endswith('*')


def pointee(t):
    return cvstrip(cvstrip(t)[:-1])


def isref(t):
    return t.rstrip().endswith('&')


def unref(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t


SMART = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__weak_ptr')
MAPS = ('std::map', 'std::unordered_map')
VECS = ('std::vector', 'std::basic_string', 'std::__cxx11::basic_string', 'std::array', 'std::deque', 'std::initializer_list', 'std::__cxx1998::vector', 'std::list')
def within(k, bs):
    """does the memory key name an element of one of the arrays, or a field of such an element"""
    while k[0] == 'f':
        k = k[1]
    return k[0] == 'i' and k[1] in bs


PURE = {'std::min': 'min', 'std::max': 'max', 'std::move': 'id', 'std::forward': 'id', 'std::addressof': 'addr', 'std::as_const': 'id'}
MATH = {'abs', 'fabs', 'sqrt', 'ceil', 'floor', 'lround', 'llround', 'round', 'pow', 'exp', 'log', 'sin', 'cos', 'tan', 'atan', 'atan2', 'isnormal', 'isnan',
        'isinf', 'isfinite', 'tgamma', 'hypot', 'trunc', 'fmod', 'asin', 'acos', 'cosh', 'sinh', 'log10', 'log2', 'copysign', 'real', 'imag', 'conj', 'norm', 'arg'}


class Frame:
    n = 0

    def __init__(self, fn, this=None, cap=None):
        Frame.n += 1
        self.id = Frame.n
        self.fn = fn
        self.this = this
        self.cap = cap or {}
        self.returns = []      # (pcs, env, value)
        self.live = ()
        self.base = 0


class St:
    """abstract state: env + extra live literals; dead when no path reaches here"""
    __slots__ = ('env', 'pc', 'dead')

    def __init__(self, env=None, pc=(), dead=False):
        self.env = dict(env) if env else {}
        self.pc = pc
        self.dead = dead

    def copy(self):
        return St(self.env, self.pc, self.dead)


class Loop:
    n = 0

    def __init__(self, line, file):
        Loop.n += 1
        self.id = Loop.n
        self.line, self.file = line, file
        self.trip = None
        self.conts, self.breaks = [], []
        self.exits = False   # contains break / return
        self.upd = {}
        self.exitv = {}


def sigparams(s):
    """parameter types of a signature written 'R (A, B)'"""
    if not s.endswith(')'):
        return []
    d, out, cur = 0, [], ''
    for i in range(len(s) - 1, -1, -1):
        d += (s[i] in ')>') - (s[i] in '(<')
        if d == 0:
            break
    body = s[i + 1:-1]
    d = 0
    for ch in body:
        d += (ch in '(<') - (ch in ')>')
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Engine:
    def __init__(self, db, prim=lambda q, f: False, devirt=None, maxdepth=14, mpi_ok=False):
        self.mpi_ok = mpi_ok
        self.db = db
        self.prim = prim
        self.devirt = devirt or {}
        self.maxdepth = maxdepth
        self.maxrec = 2
        self.snap = None       # memory to note with a call
        self.unknown = []
        self.generic_while = False
        self.constglob = None   # values of constant globals, when they are to be worked out
        self.ctors = False     # execute constructors defined elsewhere
        self.pure = set()      # opaque calls whose effect on memory is not of interest
        self.model = {}        # results of opaque calls
        self.unroll = 0        # execute loops that end within this many iterations one by one

    # ------------------------------------------------ entry
    def run(self, fn, args=None, this=('sym', 'this'), names=None, env=None, cap=None):
        self.events = []
        self.stack = []
        self.kstack = []
        self.loops = []
        self.ctl = []
        self.seq = 0
        self.occ = {}
        self.rtypes = {}
        st = St(env)
        vals = []
        for i, p in enumerate(fn['ps']):
            vals.append(args[i] if args is not None and i < len(args) and args[i] is not None else ('sym', names[i] if names else (p['n'] or 'arg%d' % i)))
        fr_this = this if fn.get('cls') and not fn.get('static') else None
        ret, st = self.invoke(fn, vals, fr_this, st, argtypes=[p["t"] for p in fn["ps"]], cap=cap)
        self.ret = ret
        self.final = st
        return self

    def emit(self, st, kind, name, obj, args, res, node, fr):
        self.seq += 1
        e = Event(kind, name, obj, tuple(args), res, st.pc, tuple(self.loops), node.get('l', 0), fr.fn['file'], fr.fn['fn'], node, tuple(self.stack), self.seq,
                  {i: st.env[('fill', a[1])] for i, a in enumerate(args) if a is not None and a and a[0] == 'p' and ('fill', a[1]) in st.env})
        if kind == 'call' and name.startswith('MPI_'):
            for i, a in enumerate(args):
                if a is not None and a and a[0] == 'p' and a[1][0] == 'addr' and a[1][1][0] in ('v', 'f') and a[2] == C(0):
                    v = st.env.get(self.res(a[1][1], st))
                    if v is not None:
                        e.mem[('s', i)] = v
        if self.snap is not None and kind == 'call':
            e.mem.update(self.snap(self, st, e) or {})
        self.events.append(e)
        return e

    # ------------------------------------------------ functions
    def invoke(self, fn, vals, this, st, argtypes=None, cap=None, dead=False):
        fr = Frame(fn, this, cap)
        self.stack.append(fn['fn'])
        self.kstack.append(fn['fkey'])
        svctl, self.ctl = self.ctl, []
        for p, v in zip(fn['ps'], vals):
            loc = ('v', fr.id, p['id'])
            if isref(p['t']):
                st.env[('ref', loc)] = v if isinstance(v, tuple) and v and v[0] == 'LOC' else ('LOC', ('d', v))
            else:
                if isinstance(v, tuple) and v and v[0] == 'LOC':
                    v = self.rd(v[1], st)
                self.wr(loc, v, st)
        outer_pc = st.pc
        if fn.get('isctor'):
            self.ctor_inits(fn, fr, st)
        self.stmt(fn['body'], fr, st)
        # merge returns
        outs = list(fr.returns)
        rets = [(pc[len(outer_pc):] if pc[:len(outer_pc)] == outer_pc else pc, env, v) for pc, env, v in outs]
        val = None
        if not st.dead:
            env, val = st.env, None
            todo = rets
        elif rets:
            _, env, val = rets[-1]
            todo = rets[:-1]
        else:
            self.ctl = svctl
            self.stack.pop()
            self.kstack.pop()
            return None, St(st.env, outer_pc, True)
        for pc, e2, v2 in reversed(todo):
            c = AND(*pc)
            env = self.merge_env(c, e2, env)
            if v2 is not None:
                val = v2 if val is None else self.ite_any(c, v2, val)
        self.stack.pop()
        self.kstack.pop()
        self.ctl = svctl
        return val, St(env, outer_pc, False)

    def ite_any(self, c, a, b):
        if a is b or a == b:
            return a
        if a and a[0] == 'LOC' or b and b[0] == 'LOC':
            return a if a[0] == 'LOC' else b
        return ITE(c, a, b)

    def merge_env(self, c, ea, eb):
        if ea is eb:
            return ea
        out = dict(eb)
        keys = set(ea) | set(eb)
        for k in keys:
            va, vb = ea.get(k), eb.get(k)
            if va == vb:
                continue
            if k[0] in ('fill', 'elems'):
                if va is None or vb is None or k[0] == 'elems':
                    out.pop(k, None)
                else:
                    out[k] = ('merged', c, va, vb)
                continue
            if k[0] == 'ref':
                out[k] = va if va is not None else vb
                continue
            if va is None:
                if k[0] == 'v':
                    continue
                va = self.default(k, St(ea))
            if vb is None:
                if k[0] == 'v':
                    out[k] = va
                    continue
                vb = self.default(k, St(eb))
            out[k] = self.ite_any(c, va, vb)
        return out

    def ctor_inits(self, fn, fr, st):
        rec = self.db.recs.get(fn['cls'], {})
        this = self.deref(fr.this)
        for i in fn.get('inits', []):
            if 'f' in i:
                v = self.val(i['e'], fr, st, init=True)
                if v is not None and not (v[0] == 'sym' and v[1].startswith('dflt:')):
                    self.assign(('f', this, i['f']), v, st, fr)
            elif 'base' in i or i.get('deleg'):
                e = i['e']
                if e and e.get('k') == 'ilist':
                    v = self.val(e, fr, st)
                    if v[0] == 'agg':
                        for n, x in v[2]:
                            self.wr(('f', this, n), x, st)
                elif e and e.get('k') == 'ctor':
                    f = self.db.byusr.get(e['usr'])
                    if f and not self.prim(f['fn'], f) and len(self.stack) < self.maxdepth:
                        vals = self.args(f['pt'], e['a'], fr, st)
                        _, s2 = self.invoke(f, vals, fr.this, st)
                        st.env, st.dead = s2.env, s2.dead
                    else:
                        vals = [self.asval(x, st) for x in self.args([], e['a'], fr, st)]
                        if vals:
                            self.emit(st, 'call', e['cls'] + '::ctor', fr.this, vals, NULL, e, fr)

    # ------------------------------------------------ locations
    def deref(self, p):
        if p is None:
            return ('d', ('sym', '?'))
        if p[0] == 'p':
            b, o = p[1], p[2]
            if b[0] == 'addr' and o == C(0):
                return b[1]
            return ('i', b, o)
        return ('d', p)

    def addr(self, loc):
        if loc[0] == 'i':
            return ('p', loc[1], loc[2])
        if loc[0] == 'd':
            return loc[1]
        return ('p', ('addr', loc), C(0))

    def res(self, loc, st):
        """resolve references"""
        n = 0
        while ('ref', loc) in st.env and n < 20:
            loc = st.env[('ref', loc)][1]
            n += 1
        return loc

    def arrof(self, loc, st):
        """array object of the container at loc"""
        v = st.env.get(loc)
        if v is not None and v[0] in ('sym', 'fld', 'ld', 'outel', 'call', 'res', 'deref') and ('vinit', loc) not in st.env:
            return ('arr', v)
        if loc[0] in ('d',):
            return ('arr', loc[1])
        if loc[0] == 'f' and loc not in st.env:
            return ('arr', self.default(loc, st))
        if loc[0] == 'i' and loc not in st.env:
            return ('arr', self.rd(loc, st))
        return ('arr', loc)

    def sizeof(self, loc, st):
        k = ('f', loc, '#size')
        if k in st.env:
            return st.env[k]
        v = st.env.get(loc)
        if v is None:
            v = self.default(loc, st)
        if v[0] == 'vec':
            return v[2]
        return ('size', v)

    def default(self, loc, st):
        k = loc[0]
        if k == 'v':
            return ('sym', 'uninit')
        if k == 'f':
            return self.getfld(self.rd(loc[1], st, whole=False), loc[2])
        if k == 'd':
            return loc[1]
        if k == 'i':
            return self.ldarr(loc[1], loc[2], st)
        if k == 'g':
            return loc
        return ('sym', '?')

    def ldarr(self, base, idx, st):
        f = st.env.get(('fill', base))
        r = self.fillval(f, idx)
        if r is not None:
            return r
        if base[0] == 'bytes' and base[1][0] == 'addr':
            v = self.rd(base[1][1], st)
            if v[0] == 'ld' and v[1][0] not in ('ilist', 'bytes') and width(base[2]):
                return ('ld', ('bytes', v[1], base[2]), add(mul(v[2], C(width(base[2]))), idx))
        if base[0] == 'arr' and base[1][0] == 'vec' and base[1][3] is not None:
            return self.fillval(base[1][3], idx) or ('ld', base, idx)
        if base[0] == 'ilist' and isc(idx) and idx[1] < len(base[1]):
            return base[1][idx[1]]
        return ('ld', base, idx)

    def fillval(self, f, idx):
        if f is None:
            return None
        if f[0] == 'merged':
            a, b = Engine.fillval(self, f[2], idx), Engine.fillval(self, f[3], idx)
            if a is None or b is None:
                return None
            return ITE(f[1], a, b)
        if f[0] == 'fillv':
            return subst(f[3], {HOLE: sub(idx, f[1])})
        if f[0] == 'list':
            if isc(idx) and 0 <= idx[1] < len(f[1]):
                return f[1][idx[1]]
            if not isc(idx) and f[1] and all(isc(x) for x in f[1]):
                return ('ld', ('ilist', tuple(f[1])), idx)
        return None

    def rd(self, loc, st, whole=True):
        loc = self.res(loc, st)
        v = st.env.get(loc)
        if whole and loc[0] in ('v', 'f', 'i', 'd', 'new'):
            subs = [(k[2], st.env[k]) for k in st.env if k[0] == 'f' and k[1] == loc]
            if self.ctors:
                deep = {k[1][2] for k in st.env if k[0] == 'f' and isinstance(k[1], tuple) and k[1][0] == 'f' and k[1][1] == loc}
                subs = [(n, x) for n, x in subs if n not in deep] + [(n, self.rd(('f', loc, n), st)) for n in sorted(deep)]
            if subs:
                b = v if v is not None else self.default(loc, st)
                dd = dict(subs)
                if '#size' in dd or ('vinit', loc) in st.env:
                    arr = ('arr', loc)
                    fl = st.env.get(('fill', arr))
                    if fl is None:
                        els = {k[2][1]: st.env[k] for k in st.env if k[0] == 'i' and k[1] == arr and isc(k[2])}
                        if els and sorted(els) == list(range(len(els))):
                            fl = ('list', tuple(els[j] for j in range(len(els))))
                    return ('vec', arr, dd.get('#size', ('size', b)), fl)
                if b == ('sym', 'uninit'):
                    b = ('sym', 'obj')
                return ('upd', b, tuple(sorted(subs)))
        if v is None:
            v = self.default(loc, st)
        return v

    def clear(self, loc, st):
        for k in [k for k in st.env if _under(k, loc)]:
            del st.env[k]

    def wr(self, loc, v, st):
        loc = self.res(loc, st)
        self.clear(loc, st)
        if v and v[0] == 'upd' and loc[0] != 'ref':
            for n, x in v[2]:
                if self.ctors and x and x[0] in ('vec', 'upd'):
                    self.wr(('f', loc, n), x, st)
                else:
                    st.env[('f', loc, n)] = x
            v = v[1]
        if v and v[0] == 'vec':
            st.env[('f', loc, '#size')] = v[2]
            st.env[('vinit', loc)] = TRUE
            if v[3] is not None:
                st.env[('fill', ('arr', loc))] = v[3]
            st.env[loc] = v
            return
        if loc[0] == 'i':
            b, i = loc[1], loc[2]
            f = st.env.pop(('fill', b), None)
            for k in [k for k in st.env if k[0] == 'i' and k[1] == b and k[2] != i]:
                d = sub(k[2], i)
                if not (isc(d) and d[1]):
                    del st.env[k]
            if f is not None and f[0] == 'list' and isc(i) and 0 <= i[1] < len(f[1]):
                st.env[('fill', b)] = ('list', f[1][:i[1]] + (v,) + f[1][i[1] + 1:])
            if f is not None and f[0] == 'fillv':
                d = sub(i, f[1])
                # keep it when the store is provably outside of the filled range (constant distance before it)
                if isc(d) and d[1] < 0:
                    st.env[('fill', b)] = f
        st.env[loc] = v

    def assign(self, loc, v, st, fr):
        self.wr(loc, v, st)

    # ------------------------------------------------ statements
    def stmt(self, s, fr, st):
        if s is None or st.dead:
            return
        k = s['k']
        if k == 'block':
            for x in s['b']:
                self.stmt(x, fr, st)
                if st.dead:
                    break
        elif k == 'expr':
            self.ev(s['e'], fr, st)
        elif k == 'decl':
            for v in s['v']:
                self.vardecl(v, fr, st)
        elif k == 'if':
            if s.get('init'):
                self.stmt(s['init'], fr, st)
            if s.get('cvar'):
                self.vardecl(s['cvar'], fr, st)
            c = self.cond(s['c'], fr, st)
            self.branch(c, lambda t: self.stmt(s['a'], fr, t), lambda t: self.stmt(s['b'], fr, t) if s.get('b') else None, st, fr)
        elif k == 'ret':
            v = None
            if s.get('e') is not None:
                if isref(fr.fn['ret']):
                    v = self.ev(s['e'], fr, st)
                    if v is not None and v and v[0] == 'LOC':
                        v = ('LOC', self.res(v[1], st))
                    elif v is not None:
                        v = self.asval(v, st)
                else:
                    v = self.val(s['e'], fr, st)
            fr.returns.append((st.pc, dict(st.env), v))
            if len(self.stack) == 1:
                self.emit(st, 'ret', '', None, (v,) if v is not None else (), NULL, s, fr)
            for l in self.ctl:
                l.exits = True
            st.dead = True
        elif k in ('for', 'while', 'do'):
            self.loop(s, fr, st)
        elif k == 'rfor':
            self.rfor(s, fr, st)
        elif k == 'break':
            if self.ctl:
                l = self.ctl[-1]
                l.breaks.append((st.pc, dict(st.env)))
                if isinstance(l, Loop):
                    l.exits = True
            st.dead = True
        elif k == 'continue':
            for l in reversed(self.ctl):
                if isinstance(l, Loop):
                    l.conts.append((st.pc, dict(st.env)))
                    break
            st.dead = True
        elif k == 'switch':
            self.switch(s, fr, st)
        elif k in ('case', 'default', 'label'):
            self.stmt(s['s'], fr, st)
        elif k == 'try':
            self.stmt(s['b'], fr, st)

    def vardecl(self, v, fr, st):
        loc = ('v', fr.id, v['id'])
        self.clear(loc, st)
        st.env.pop(('ref', loc), None)
        if isref(v['t']):
            l, x = self.lvv(v.get('e'), fr, st)
            if l is None:
                l = ('tmp', loc)
                self.wr(l, x, st)
            st.env[('ref', loc)] = ('LOC', self.res(l, st))
            return
        if v.get('e') is not None:
            x = self.val(v['e'], fr, st, init=True, decl=loc)
            if x is not None:
                self.wr(loc, x, st)
        else:
            st.env[loc] = ('sym', 'uninit')
        m = v['t']
        if m.endswith(']') and '[' in m:
            # C array: its storage is its own array object
            il = st.env.get(loc, ('sym', 'uninit'))
            if il == ('sym', 'uninit') or il[0] == 'sym' and str(il[1]).startswith('dflt:') or v.get('e', {}).get('k') == 'ilist':
                st.env[loc] = ('p', ('arr', loc), C(0))
                if il and il[0] == 'p' and il[1][0] == 'ilist':
                    st.env[('fill', ('arr', loc))] = ('list', il[1][1])

    def branch(self, c, fa, fb, st, fr):
        """gated two-way branch"""
        if isc(c):
            (fa if c[1] else fb)(st)
            return
        sa, sb = st.copy(), st.copy()
        pc0 = st.pc
        sa.pc = pc0 + (c,)
        sb.pc = pc0 + (NOT(c),)
        fa(sa)
        fb(sb)
        self.join(c, sa, sb, st, pc0)

    def join(self, c, sa, sb, st, pc0):
        if sa.dead and sb.dead:
            st.dead = True
            return
        if sa.dead:
            st.env, st.pc = sb.env, sb.pc
            return
        if sb.dead:
            st.env, st.pc = sa.env, sa.pc
            return
        st.env = self.merge_env(c, sa.env, sb.env)
        xa, xb = sa.pc[len(pc0) + 1:], sb.pc[len(pc0) + 1:]
        if xa or xb:
            g = OR(AND(c, *xa), AND(NOT(c), *xb))
            st.pc = pc0 + ((g,) if not isc(g) else ())
        else:
            st.pc = pc0

    class Sw:
        def __init__(self):
            self.breaks = []
            self.exits = False

    def switch(self, s, fr, st):
        scr = self.val(s['c'], fr, st)
        body = s['b']['b'] if s['b'] and s['b']['k'] == 'block' else [s['b']]
        # flatten labels
        items = []   # ('case', val) / ('default',) / stmt
        def flat(x):
            if x is None:
                return
            if x['k'] == 'case':
                items.append(('case', x['e']))
                flat(x['s'])
            elif x['k'] == 'default':
                items.append(('default', None))
                flat(x['s'])
            else:
                items.append(('s', x))
        for x in body:
            flat(x)
        consts = [self.val(x, fr, st) for k, x in items if k == 'case']
        conds = [EQ(scr, v) for v in consts]
        dflt = AND(*[NOT(c) for c in conds])
        sw = Engine.Sw()
        self.ctl.append(sw)
        pc0, env0 = st.pc, dict(st.env)
        cur = St(env0, pc0, True)
        entry = None
        ci = 0
        ended = []
        for k, x in items:
            if k in ('case', 'default'):
                c = dflt if k == 'default' else conds[ci]
                if k == 'case':
                    ci += 1
                if cur.dead:
                    entry = c
                    cur = St(env0, pc0 + ((c,) if not isc(c) else ()), isc(c) and not c[1])
                else:
                    if cur.env == env0:
                        entry = OR(entry, c)
                        cur = St(env0, pc0 + ((entry,) if not isc(entry) else ()), False)
                    else:
                        # fallthrough with effects
                        e2 = self.merge_env(entry, cur.env, env0)
                        entry = OR(entry, c)
                        cur = St(e2, pc0 + ((entry,) if not isc(entry) else ()), False)
            elif not cur.dead:
                self.stmt(x, fr, cur)
        self.ctl.pop()
        outs = list(sw.breaks)
        if not cur.dead:
            outs.append((cur.pc, cur.env))
        hasd = any(k == 'default' for k, _ in items)
        if not hasd and not (isc(dflt) and not dflt[1]):
            outs.append((pc0 + ((dflt,) if not isc(dflt) else ()), env0))
        if not outs:
            st.dead = True
            return
        env = outs[-1][1]
        for pc, e in reversed(outs[:-1]):
            env = self.merge_env(AND(*pc[len(pc0):]), e, env)
        st.env = env
        g = OR(*[AND(*pc[len(pc0):]) for pc, _ in outs])
        # all cases break: alive unconditionally
        n_paths_dead = len(outs) < len(conds) + 1
        st.pc = pc0 + ((g,) if (not isc(g) and n_paths_dead and not self._total(outs, pc0, conds, dflt)) else ())
        st.dead = False

    def _total(self, outs, pc0, conds, dflt):
        have = {AND(*pc[len(pc0):]) for pc, _ in outs}
        lits = set()
        for h in have:
            lits.add(h)
            if h[0] == 'not' and h[1][0] == 'and':
                lits.update(NOT(x) for x in h[1][1])
        return all(c in lits for c in conds + [dflt])

    # ------------------------------------------------ loops
    def loop(self, s, fr, st):
        k = s['k']
        if k == 'for' and s.get('init'):
            self.stmt(s['init'], fr, st)

        def body(t):
            self.stmt(s['b'], fr, t)

        def inc(t):
            if k == 'for' and s.get('inc'):
                self.ev(s['inc'], fr, t)
        cnd = (lambda t: self.cond(s['c'], fr, t)) if s.get('c') else (lambda t: TRUE)
        self.genloop(s, fr, st, cnd, body, inc, post=(k == 'do'))

    def genloop(self, s, fr, st, cnd, body, inc, post=False, trip=None):
        if self.unroll and not (self.generic_while and s['k'] in ('while', 'do')) and self.unrolled(s, fr, st, cnd, body, inc, post):
            return None
        if self.unroll and self.generic_while and not post and cnd(st.copy()) == FALSE:
            return None
        L = Loop(s.get('l', 0), fr.fn['file'])
        K = ('k', L.id)
        env0 = dict(st.env)
        # pass 1: which outer locations does an iteration change?
        save_ev, save_seq, save_occ = list(self.events), self.seq, dict(self.occ)
        nret = len(fr.returns)

        def iterate(env, flat=False):
            t = St(env, st.pc, False)
            L.conts, L.breaks, L.exits = [], [], False
            self.ctl.append(L)
            if not flat:
                self.loops.append(L)
            if not post:
                c = cnd(t)
            pc_in = t.pc
            body(t)
            outs = [(pc[len(pc_in):], e) for pc, e in L.conts]
            if not t.dead:
                e = t.env
                for pc, e2 in reversed(outs):
                    e = self.merge_env(AND(*pc), e2, e)
                t2 = St(e, pc_in, False)
            elif outs:
                e = outs[-1][1]
                for pc, e2 in reversed(outs[:-1]):
                    e = self.merge_env(AND(*pc), e2, e)
                t2 = St(e, pc_in, False)
            else:
                t2 = t
            if not t2.dead:
                inc(t2)
                if post:
                    c = cnd(t2)
            elif post:
                c = TRUE
            if not flat:
                self.loops.pop()
            self.ctl.pop()
            return c, t2
        c, t1 = iterate(dict(env0))
        self.events, self.occ = list(save_ev), dict(save_occ)
        del fr.returns[nret:]
        changed = [k for k in t1.env if k in env0 and t1.env[k] != env0[k]]
        newk = [k for k in t1.env if k not in env0 and k[0] in ('f', 'i', 'g', 'd', 'fill')]
        for pc, e in L.breaks:
            changed += [k for k in e if k in env0 and e[k] != env0[k] and k not in changed]
            newk += [k for k in e if k not in env0 and k[0] in ('f', 'i', 'g', 'd', 'fill') and k not in newk]
        for k in [k for k in env0 if k not in t1.env]:
            changed.append(k)
        sca, arrs = [], set()
        for k2 in changed + newk:
            if k2[0] in ('v', 'f', 'g', 'd', 'tmp'):
                if k2 not in sca:
                    sca.append(k2)
            elif k2[0] == 'i':
                arrs.add(k2[1])
            elif k2[0] in ('fill', 'elems'):
                arrs.add(k2[1])
        sca = [x for x in sca if not (x[0] == 'v' and x not in env0)]
        sca = [x for x in sca if not (x[0] == 'f' and _root(x)[0] == 'v' and _root(x) not in env0 and x not in env0)]
        # pass 2: symbols for the changed locations
        for n in range(12):
            env = dict(env0)
            for a in arrs:
                env.pop(('fill', a), None)
                for kk in [kk for kk in env if kk[0] == 'i' and kk[1] == a]:
                    del env[kk]
            ph = {}
            for i, x in enumerate(sca):
                if x in L.upd and L.upd[x][0] == 'iv':
                    _, init, step = L.upd[x]
                    env[x] = self.vadd(init, mul(step, K))
                else:
                    ph[x] = ('phi', L.id, i)
                    env[x] = ph[x]
            c, t1 = iterate(env)
            newiv = False
            for x in sca:
                if x in ph and not t1.dead:
                    post_v = t1.env.get(x)
                    init = env0.get(x)
                    if init is None:
                        init = self.default(x, St(env0))
                    if post_v is None:
                        continue
                    if post_v[0] == 'p' and post_v[1] == ph[x] and init[0] != 'p':
                        init = ('p', init, C(0))
                    stp = self.vdiff(post_v, ph[x])
                    if stp is not None and not contains(stp, lambda a: a[0] == 'phi' and a[1] == L.id or a == K):
                        L.upd[x] = ('iv', init, stp)
                        newiv = True
                    else:
                        raw = post_v[2] if post_v[0] == 'p' and post_v[1] == ph[x] else sub(post_v, ph[x]) if post_v[0] in ('+', 'min', 'max') else None
                        cl = self.clamped(raw, ph[x], init, K, L) if raw is not None else None
                        if cl:
                            L.upd[x] = ('iv', init, cl[0])
                            L.exitv[x] = cl[1]
                            newiv = True
                            continue
                        L.upd[x] = ('acc', init, ph[x], post_v)
            ends = [t1.env] + [x for _, x in L.breaks]
            extra = []
            for en in ends:
                extra += [kk for kk in en if kk[0] in ('f', 'd', 'g') and kk not in sca and kk in env and en[kk] != env[kk] and kk not in extra]
                extra += [kk for kk in en if kk[0] in ('v', 'tmp') and kk not in sca and kk in env0 and en[kk] != env.get(kk) and kk not in extra]
                for kk in en:
                    if kk[0] in ('i', 'fill', 'elems') and kk[1] not in arrs and en[kk] != env.get(kk):
                        arrs.add(kk[1])
                        newiv = True
            if extra:
                sca += extra
                newiv = True
            if not newiv:
                break
            if n < 11:
                self.events, self.occ = list(save_ev), dict(save_occ)
                del fr.returns[nret:]
        L.cond = c
        L.trip = trip if trip is not None else self.tripcount(c, K, L)
        if post and L.trip is not None and L.trip[0] != 'trip?':
            L.trip = ('max', tuple(sorted((C(1), L.trip), key=sk))) if not isc(L.trip) else L.trip
        # a short loop that carries state is executed
        if isc(L.trip) and 0 < L.trip[1] <= 8 and not post and not L.breaks and len(fr.returns) == nret and not t1.dead and any(L.upd.get(x, ('?',))[0] == 'acc' for x in sca):
            keep = (self.events, self.occ, self.seq)
            self.events, self.occ = list(save_ev), dict(save_occ)
            t2 = St(dict(env0))
            for n in range(L.trip[1]):
                c, t2 = iterate(t2.env, True)
                if c != TRUE or t2.dead or L.breaks or len(fr.returns) != nret:
                    break
            else:
                st.env = t2.env
                return L
            self.events, self.occ, self.seq = keep
            del fr.returns[nret:]
        # exit state
        out = dict(env0)
        for a in arrs:
            out.pop(('fill', a), None)
            for kk in [kk for kk in out if kk[0] == 'i' and kk[1] == a]:
                del out[kk]
            # element-wise fill
            f = self.mkfill(a, t1.env, K, L, env0)
            if f is not None:
                if f[0] == 'fillv':
                    out[('fill', a)] = f
        for x in sca:
            u = L.upd.get(x)
            if u is None:
                out[x] = ('loopout', L.id, x[-1] if isinstance(x[-1], str) else 0)
            elif L.breaks:
                out[x] = ('loopout', L.id, sca.index(x))
            elif u[0] == 'iv':
                out[x] = L.exitv[x] if x in L.exitv else self.vadd(u[1], mul(u[2], L.trip))
            else:
                out[x] = self.reduction(u, K, L, sca.index(x))
        for kk in t1.env:
            if kk not in out and kk[0] == 'vinit':
                out[kk] = t1.env[kk]
        st.env = out
        # conditional exits leave the code after the loop reachable only sometimes
        return L

    def unrolled(self, s, fr, st, cnd, body, inc, post):
        L = Loop(s.get('l', 0), fr.fn['file'])
        keep = (list(self.events), dict(self.occ), self.seq, len(fr.returns))
        exits, pc0 = [], st.pc
        cur = st.copy()
        self.ctl.append(L)
        for n in range(self.unroll + 1):
            if n or not post:
                c = cnd(cur)
                if isc(c):
                    if not c[1]:
                        exits.append((cur.pc, cur.env))
                        break
                else:
                    exits.append((cur.pc + (NOT(c),), dict(cur.env)))
                    cur.pc = cur.pc + (c,)
            L.conts, L.breaks = [], []
            body(cur)
            exits += L.breaks
            outs = list(L.conts) + ([(cur.pc, cur.env)] if not cur.dead else [])
            if not outs:
                break
            cur = self.merge_outs(outs, pc0)
            inc(cur)
        else:
            self.ctl.pop()
            self.events, self.occ, self.seq = keep[:3]
            del fr.returns[keep[3]:]
            return False
        self.ctl.pop()
        if not exits:
            st.dead = True
            return True
        m = self.merge_outs(exits, pc0)
        st.env, st.pc = m.env, m.pc
        return True

    def merge_outs(self, outs, pc0):
        env = dict(outs[-1][1])
        for pc, e in reversed(outs[:-1]):
            env = self.merge_env(AND(*pc[len(pc0):]), e, env)
        g = OR(*[AND(*pc[len(pc0):]) for pc, _ in outs])
        return St(env, pc0 + ((g,) if not isc(g) else ()), False)

    def mkfill(self, a, env, K, L, env0):
        st = [k for k in env if k[0] == 'i' and k[1] == a]
        if L.breaks:
            return None
        if len(st) == 1:
            i = st[0][2]
            v = env[st[0]]
            t = _terms(i)
            own = ('ld', a, i)
            if contains(v, lambda x: x == own) and not contains(subst(v, {own: C(0)}), lambda x: x[0] == 'ld' and x[1] == a):
                # each element is updated from its own old value
                o = self.ldarr(a, i, St(env0))
                v = subst(v, {own: o})
            if t.get((K,), 0) == 1 and all(K not in m for m in t if m != (K,)):
                start = sub(i, K)
                if contains(start, lambda x: x == K):
                    return None
                val = subst(v, {K: HOLE})
                return ('fillv', start, L.trip, val)
            if t.get((K,), 0) == -1 and all(K not in m for m in t if m != (K,)):
                last = add(i, K)
                if contains(last, lambda x: x == K):
                    return None
                end = sub(L.trip, C(1))
                return ('fillv', sub(last, end), L.trip, subst(v, {K: sub(end, HOLE)}))
        f = env.get(('fill', a))
        if f and f[0] == 'fillv' and not contains(f, lambda x: x == K or (x[0] == 'phi' and x[1] == L.id)):
            return f
        return None

    def reduction(self, u, K, L, n):
        _, init, ph, post = u
        if post[0] in ('min', 'max') and ph in post[1]:
            rest = [x for x in post[1] if x != ph]
            if not any(contains(x, lambda a: a == ph) for x in rest):
                return ('red', post[0], init, subst(tuple(rest)[0] if len(rest) == 1 else (post[0], tuple(rest)), {K: HOLE}), L.trip)
        d = sub(post, ph) if post[0] != 'p' else None
        if d is not None and not contains(d, lambda a: a == ph):
            return ('red', '+', init, subst(d, {K: HOLE}), L.trip)
        if not contains(post, lambda a: a[0] == 'phi' and a[1] == L.id):
            return ('last', init, subst(post, {K: HOLE}), L.trip)
        return ('rec', init, subst(post, {ph: ('acc',), K: HOLE}), L.trip)

    def vadd(self, a, b):
        if a[0] == 'p':
            return ('p', a[1], add(a[2], b))
        if a[0] in ('sym', 'fld') and b == C(0):
            return a
        return add(a, b)

    def vdiff(self, a, b):
        """a - b when it is loop-recognisable as phi + step"""
        if a[0] == 'p' and a[1] == b:
            return a[2]
        if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
            return sub(a[2], b[2])
        if a == b:
            return C(0)
        d = sub(a, b)
        if contains(d, lambda x: x == b):
            return None
        if a[0] == '+' and any(b in m for m, _ in a[1]):
            return d
        return None

    def clamped(self, stp, ph, init, K, L):
        """x += min(E - x, M)  /  x -= min(x, M)  /  x += min(n - M*K, M): every chunk but the last is full,
        so in iteration K the variable is init +- M*K; on exit everything has been consumed"""
        t = _terms(stp)
        if len(t) != 1:
            return None
        (m, c), = t.items()
        mins = [a for a in m if a[0] == 'min']
        if len(mins) != 1 or abs(c) != 1 or len(mins[0][1]) != 2:
            return None
        rest = list(m)
        rest.remove(mins[0])
        f = _mk({tuple(rest): c})
        for X, M in (mins[0][1], mins[0][1][::-1]):
            if contains(M, lambda a: a == ph or a == K):
                continue
            full = mul(f, M)
            if contains(X, lambda a: a == ph):
                E = add(X, ph) if f == C(1) else None
                if E is not None and not contains(E, lambda a: a == ph or a == K):
                    return full, E
                if f == C(-1) and X == ph:
                    return full, C(0)
            else:
                n = add(X, mul(M, K))
                if not contains(n, lambda a: a == K or a[0] == 'phi' and a[1] == L.id):
                    return full, self.vadd(init, mul(f, n))
        return None

    def tripcount(self, c, K, L):
        if c == FALSE:
            return C(0)
        cs = list(c[1]) if c[0] == 'and' else [c]
        ts = []
        for x in cs:
            t = self.trip1(x, K, L)
            ts.append(t)
        if all(t is not None for t in ts) and len(ts) == 1:
            return ts[0]
        if all(t is not None for t in ts):
            return MIN(*ts)
        return ('trip?', c)

    def trip1(self, c, K, L=None):
        # returns the smallest k for which the condition fails, for conditions monotone in k
        eq = 0
        if c[0] == '<':
            a, b = c[1], c[2]
        elif c[0] == 'not' and c[1][0] == '<':
            a, b = c[1][2], c[1][1]
            eq = 1          # a <= b
        elif c[0] == 'not' and c[1][0] == '==':
            a, b = c[1][1], c[1][2]
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                a, b = a[2], b[2]
            d = sub(b, a)
            t = _terms(d)
            ck = t.get((K,), 0)
            if abs(ck) == 1 and all(K not in m for m in t if m != (K,)):
                r = sub(d, _mk({(K,): ck}))
                return r if ck == -1 else neg(r)
            lin = self.lin(d, K)
            if lin:
                A, B = lin
                if L is not None and L.exitv:
                    if all(c < 0 for c in _terms(A).values()):
                        A, B = neg(A), neg(B)
                    return ceildiv(A, neg(B))
                return div(A, neg(B))
            return None
        else:
            return None
        if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
            a, b = a[2], b[2]
        d = sub(b, a)
        if eq:
            d = add(d, C(1))
        lin = self.lin(d, K)
        if not lin:
            return None
        A, B = lin
        B = neg(B)
        if B == C(1):
            return A
        if isc(B) and B[1] <= 0:
            return None
        return ceildiv(A, B)

    def lin(self, d, K):
        t = _terms(d)
        A, B = {}, {}
        for m, c in t.items():
            n = m.count(K)
            if n == 0:
                if any(contains(x, lambda y: y == K) for x in m):
                    return None
                A[m] = c
            elif n == 1:
                r = tuple(x for x in m if x != K)
                B[r] = c
            else:
                return None
        if not B:
            return None
        return _mk(A), _mk(B)

    def rfor(self, s, fr, st):
        r = s['r']
        cl, v = self.lvv(r, fr, st)
        if cl is None:
            if v[0] == 'p' and v[1][0] == 'ilist':
                cl = None
                arr, n = v[1], C(len(v[1][1]))
            else:
                cl = ('tmp', ('rng', fr.id, s['l']))
                self.wr(cl, v, st)
        if cl is not None:
            cl = self.res(cl, st)
            t = r.get('t', '')
            arr, n = self.arrof(cl, st), self.sizeof(cl, st)
            if cvstrip(unref(t)).endswith(']'):
                v = st.env.get(cl)
                arr = v[1] if v and v[0] == 'p' else ('arr', cl)
                n = C(int(cvstrip(unref(t)).rsplit('[', 1)[1][:-1]))
        v = s['v']
        vk = ('v', fr.id, v['id'])
        cell = ('v', fr.id, -v['id'])
        st.env[cell] = C(0)

        def body(t):
            idx = t.env[cell]
            loc = ('i', arr, idx)
            t.env.pop(('ref', vk), None)
            self.clear(vk, t)
            if isref(v['t']):
                t.env[('ref', vk)] = ('LOC', loc)
            else:
                self.wr(vk, self.rd(loc, t), t)
            self.stmt(s['b'], fr, t)

        def inc(t):
            t.env[cell] = add(t.env[cell], C(1))
        self.genloop(s, fr, st, lambda t: LT(t.env[cell], n, True), body, inc, trip=n)

    # ------------------------------------------------ expressions
    def cond(self, e, fr, st):
        v = self.val(e, fr, st)
        return self.tobool(v, e.get('t', ''))

    def tobool(self, v, t=''):
        if isbool(v) or isc(v):
            if isc(v):
                return C(1 if v[1] else 0)
            return v
        if v[0] == 'ite':
            return ITE(v[1], self.tobool(v[2]), self.tobool(v[3]))
        if cvstrip(t) == 'bool':
            return v
        if v[0] == 'p' and v[1][0] != 'null':
            return NOT(EQ(v, NULL))
        return NOT(EQ(v, C(0)))

    def asval(self, v, st):
        if v is not None and v and v[0] == 'LOC':
            return self.rd(v[1], st)
        return v if v is not None else ('sym', 'void')

    def val(self, e, fr, st, init=False, decl=None):
        return self.asval(self.ev(e, fr, st, decl=decl), st)

    def lv(self, e, fr, st):
        r = self.ev(e, fr, st)
        if r is not None and r and r[0] == 'LOC':
            return r[1]
        return None

    def lvv(self, e, fr, st):
        """(location or None, value or None) from one evaluation"""
        r = self.ev(e, fr, st)
        if r is not None and r and r[0] == 'LOC':
            return r[1], None
        return None, self.asval(r, st)

    def args(self, pts, aa, fr, st):
        out = []
        for i, a in enumerate(aa):
            v = self.ev(a, fr, st)
            pt = pts[i] if i < len(pts) else ''
            if v is None:
                v = ('sym', 'void')
            if pt and not isref(pt):
                v = self.asval(v, st)
            out.append(v)
        return out

    def ev(self, e, fr, st, decl=None):
        """value, or ('LOC', loc) for an lvalue"""
        if e is None:
            return None
        k = e['k']
        if 'cv' in e and k not in ('as', 'cas', 'call'):
            if not (k == 'var' and e.get('vt') and isref(e['vt'])):
                return C(e['cv'])
        if 'cv' in e and k == 'call':
            return C(e['cv'])
        m = getattr(self, 'x_' + k, None)
        if m is None:
            for a in e.get('a', []) if isinstance(e.get('a'), list) else []:
                self.ev(a, fr, st)
            return ('op', e.get('c', k), e.get('t', ''))
        return m(e, fr, st, decl) if k in ('ctor', 'call', 'ilist') else m(e, fr, st)

    def x_var(self, e, fr, st):
        if 'g' in e:
            g = self.db.globals.get(e['g'])
            if g and g.get('e') and g['t'].startswith('const') and 'cv' in g['e']:
                return C(g['e']['cv'])
            if g and g.get('e') and g['t'].startswith('const') and 'fv' in g['e']:
                return ('f', g['e']['fv'])
            if self.constglob is not None and g and g.get('e') and g['t'].startswith('const ') and ('g', e['g']) not in st.env:
                self.globinit(g, fr, st)
            return ('LOC', ('g', e['g']))
        i = e['id']
        if i in fr.cap:
            c = fr.cap[i]
            if c[0] == 'LOC':
                return ('LOC', self.res(c[1], st))
            loc = ('cap', fr.id, i)
            if loc not in st.env:
                if c and c[0] in ('vec', 'upd'):
                    self.wr(loc, c, st)
                else:
                    st.env[loc] = c
            return ('LOC', loc)
        loc = ('v', fr.id, i)
        return ('LOC', self.res(loc, st))

    def globinit(self, g, fr, st):
        """the value a constant global is initialised with"""
        if g['n'] not in self.constglob:
            v = self.val(g['e'], fr, st.copy(), init=True)
            t = cvstrip(g['t'])
            if (t.startswith('std::array') or t.endswith(']')) and v and v[0] == 'p' and v[1][0] == 'ilist':
                v = ('vec', ('arr', ('g', g['n'])), C(len(v[1][1])), ('list', tuple(v[1][1])))
            self.constglob[g['n']] = v
        if self.constglob[g['n']] is not None:
            self.wr(('g', g['n']), self.constglob[g['n']], st)

    def x_ref(self, e, fr, st):
        return ('sym', e.get('q', '?'))

    def x_enumc(self, e, fr, st):
        return C(e['cv']) if 'cv' in e else ('sym', e['q'])

    def x_fref(self, e, fr, st):
        return ('fn', e['fn'], e['usr'])

    def x_mfref(self, e, fr, st):
        return ('fn', e['fn'], e['usr'])

    def x_lit(self, e, fr, st):
        if 'fv' in e:
            f = float(e['fv'])
            if f == int(f) and abs(f) < 1e15:
                return C(int(f))
            return ('f', e['fv'])
        if e.get('zero'):
            return C(0)
        return ('op', 'lit', e['t'])

    def x_str(self, e, fr, st):
        return ('s', e['v'])

    def x_null(self, e, fr, st):
        return NULL

    def x_this(self, e, fr, st):
        return fr.this if fr.this is not None else ('sym', 'this')

    def x_complit(self, e, fr, st):
        return self.val(e['e'], fr, st)

    def x_throw(self, e, fr, st):
        v = self.val(e['e'], fr, st) if e.get('e') else NULL
        self.emit(st, 'throw', 'throw', None, (v,), NULL, e, fr)
        for l in self.ctl:
            l.exits = True
        st.dead = True
        return ('sym', 'void')

    def x_mem(self, e, fr, st):
        b = e['b']
        if e.get('arrow'):
            p = self.val(b, fr, st)
            o = ('mel', p[1], p[3]) if p[0] == 'mit' else self.deref(p)
        else:
            r = self.ev(b, fr, st)
            if r is not None and r[0] == 'LOC':
                o = r[1]
            else:
                return self.getfld(r if r is not None else ('sym', '?'), e['n'])
        o = self.res(o, st)
        if o[0] == 'mel':
            return ('LOC', self.res(('i', o[1], o[2]), st)) if e['n'] == 'second' else o[2]
        return ('LOC', self.res(('f', o, e['n']), st))

    def getfld(self, v, n):
        if v[0] == 'ite':
            return ITE(v[1], self.getfld(v[2], n), self.getfld(v[3], n))
        if v[0] == 'upd':
            for m, x in v[2]:
                if n == m:
                    return x
            return self.getfld(v[1], n)
        if v[0] == 'agg':
            for m, x in v[2]:
                if n == m:
                    return x
        if v[0] == 'mins':
            return v[1] if n == 'first' else v[2]
        return ('fld', v, n)

    def x_sub(self, e, fr, st):
        b = self.val(e['b'], fr, st)
        i = self.val(e['i'], fr, st)
        return ('LOC', self.deref(self.padd(b, i)))

    def padd(self, b, i):
        if b[0] == 'p':
            return ('p', b[1], add(b[2], i))
        if b[0] == 'ite' and b[2] != NULL and b[3] != NULL and False:
            return ITE(b[1], self.padd(b[2], i), self.padd(b[3], i))
        return ('p', b, i)

    def x_un(self, e, fr, st):
        op = e['op']
        if op == '&':
            l, x = self.lvv(e['e'], fr, st)
            if l is None:
                return ('op', '&', x)
            return self.addr(self.res(l, st))
        if op == '*':
            p = self.val(e['e'], fr, st)
            if p[0] == 'fn':
                return p
            return ('LOC', self.deref(p))
        if op in ('++', '--', 'p++', 'p--'):
            l = self.res(self.lv(e['e'], fr, st) or ('tmp', e['l']), st)
            o = self.rd(l, st)
            n = self.vstep(o, C(1) if '+' in op else C(-1), e['t'])
            if l[0] in ('g', 'd', 'f'):
                self.emit(st, 'store', '', l, (n,), NULL, e, fr)
            self.wr(l, n, st)
            return o if op[0] == 'p' else ('LOC', l)
        v = self.val(e['e'], fr, st)
        if op == '!':
            return NOT(self.tobool(v, e['e'].get('t', '')))
        if op == '-':
            if v[0] == 'f':
                return ('f', v[1][1:] if v[1].startswith('-') else '-' + v[1])
            return neg(v)
        if op == '+':
            return v
        if op == '~':
            return ('~', v)
        return ('op', op, v)

    def vstep(self, o, s, t):
        if isptr(t) or o[0] == 'p':
            return self.padd(o, s) if o[0] != 'p' else ('p', o[1], add(o[2], s))
        return add(o, s)

    def binop(self, op, a, b, ta, tb, t):
        flt = cvstrip(t) in ('float', 'double', 'long double')
        if op in ('+', '-'):
            if isptr(t):
                if isptr(ta):
                    return self.padd(a, b if op == '+' else neg(b))
                return self.padd(b, a)
            if op == '-' and (isptr(ta) and isptr(tb)):
                pa, pb = (x if x[0] == 'p' else ('p', x, C(0)) for x in (a, b))
                if pa[1] == pb[1]:
                    return sub(pa[2], pb[2])
                return ('op', 'pdiff', a, b)
            return add(a, b) if op == '+' else sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            return div(a, b, flt)
        if op == '%':
            return mod(a, b)
        uns = isuns(ta) or isuns(tb)
        if op in ('<', '>', '<=', '>='):
            pa, pb = a, b
            if isptr(ta) and isptr(tb) and 'p' in (a[0], b[0]):
                xa, xb = (x if x[0] == 'p' else ('p', x, C(0)) for x in (a, b))
                if xa[1] == xb[1]:
                    pa, pb = xa[2], xb[2]
            if op == '<':
                return LT(pa, pb, uns)
            if op == '>':
                return LT(pb, pa, uns)
            if op == '<=':
                return NOT(LT(pb, pa, uns))
            return NOT(LT(pa, pb, uns))
        if op in ('==', '!='):
            if isptr(ta) or isptr(tb):
                a, b = (NULL if x == C(0) else x for x in (a, b))
                a, b = (x[1] if x[0] == 'p' and x[2] == C(0) and x[1][0] not in ('addr', 'arr', 'bytes', 'ilist') else x for x in (a, b))
                if 'p' in (a[0], b[0]):
                    xa, xb = (x if x[0] == 'p' else ('p', x, C(0)) for x in (a, b))
                    if xa[1] == xb[1]:
                        a, b = xa[2], xb[2]
            r = EQ(a, b)
            return r if op == '==' else NOT(r)
        if op == '<<':
            if isc(b) and 0 <= b[1] < 63:
                return mul(a, C(1 << b[1]))
            return ('<<', a, b)
        if op in ('&', '|', '^'):
            if isc(a) and isc(b):
                return C({'&': a[1] & b[1], '|': a[1] | b[1], '^': a[1] ^ b[1]}[op])
            xs = set()
            for x in (a, b):
                xs.update(x[1]) if x[0] == op else xs.add(x)
            return (op, tuple(sorted(xs, key=sk)))
        if op == '>>':
            return ('>>', a, b)
        return ('op', op, a, b)

    def x_bin(self, e, fr, st):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(e['a'], fr, st)
            g = a if op == '&&' else NOT(a)
            if isc(g) and not g[1]:
                return a
            box = []

            def rhs(t):
                box.append(self.cond(e['b'], fr, t))
            pc0 = st.pc
            t = st.copy()
            if not isc(g):
                t.pc = pc0 + (g,)
            rhs(t)
            if not t.dead:
                st.env = self.merge_env(g, t.env, st.env) if t.env != st.env else st.env
            return AND(a, box[0]) if op == '&&' else OR(a, box[0])
        if op == ',':
            self.ev(e['a'], fr, st)
            return self.ev(e['b'], fr, st)
        a = self.val(e['a'], fr, st)
        b = self.val(e['b'], fr, st)
        return self.binop(op, a, b, e['a'].get('t', ''), e['b'].get('t', ''), e['t'])

    def x_as(self, e, fr, st):
        v = self.val(e['b'], fr, st)
        l = self.lv(e['a'], fr, st)
        return self.store(l, v, e, fr, st)

    def assigned(self, l, src, e, fr, st):
        if self.ctors and src is not None:
            self.emit(st, 'assign', '', self.addr(self.res(l, st)), (self.addr(self.res(src, st)),), NULL, e, fr)

    def store(self, l, v, e, fr, st):
        if l is None:
            return v
        l = self.res(l, st)
        if l[0] in ('i', 'g', 'd') or (l[0] == 'f'):
            self.emit(st, 'store', '', l, (v,), NULL, e, fr)
        self.wr(l, v, st)
        return ('LOC', l)

    def x_cas(self, e, fr, st):
        b = self.val(e['b'], fr, st)
        l = self.lv(e['a'], fr, st)
        l = self.res(l, st) if l else ('tmp', e['l'])
        a = self.rd(l, st)
        v = self.binop(e['op'], a, b, e['a'].get('t', ''), e['b'].get('t', ''), e.get('ct') or e['t'])
        return self.store(l, v, e, fr, st)

    def x_cond(self, e, fr, st):
        c = self.cond(e['c'], fr, st)
        if isc(c):
            return self.ev(e['a'] if c[1] else e['b'], fr, st)
        r = {}
        self.branch(c, lambda t: r.__setitem__('a', self.val(e['a'], fr, t)), lambda t: r.__setitem__('b', self.val(e['b'], fr, t)), st, fr)
        if e['a'].get('k') == 'throw':
            return r['b']
        if e['b'].get('k') == 'throw':
            return r['a']
        a, b = r['a'], r['b']
        if isptr(e['t']):
            a, b = (NULL if x == C(0) else x for x in (a, b))
        return ITE(c, a, b)

    def x_cast(self, e, fr, st):
        ck = e['ck']
        if ck == 'ToVoid':
            self.ev(e['e'], fr, st)
            return ('sym', 'void')
        if ck in ('Dynamic', 'BaseToDerived', 'Dependent'):
            if isref(e['t']):
                return self.ev(e['e'], fr, st)
            return self.val(e['e'], fr, st)
        if ck in ('LValueBitCast',):
            return self.ev(e['e'], fr, st)
        v = self.val(e['e'], fr, st)
        t, f = cvstrip(e['t']), cvstrip(e['ft'])
        if ck == 'IntegralCast':
            wt, wf = width(t), width(f)
            if self.constglob is not None and isc(v):
                return wrapc(v, t)
            if wt is None or wf is None or wt >= wf:
                return v
            if isc(v):
                return v
            return ('cast', t, v)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            if ck == 'PointerToBoolean':
                return NOT(EQ(v, NULL))
            return self.tobool(v)
        if ck == 'FloatingToIntegral':
            return v if isc(v) else ('trunc', t, v)
        if ck == 'FloatingCast':
            if (width(t) or 8) < (width(f) or 8) and not isc(v):
                return ('f32', v)
            return v
        if ck == 'NullToPointer':
            return NULL
        if ck == 'IntegralToPointer':
            if isc(v):
                return NULL if v[1] == 0 else ('ptrc', v[1])
            return v
        if ck == 'BitCast' and isptr(t) and isptr(f):
            return self.pcast(v, pointee(f), pointee(t))
        return v

    def pcast(self, v, f, t):
        if v in (NULL,) or v[0] == 'ptrc':
            return v
        wf, wt = width(f), width(t)
        if t == 'void' or f == 'void' or wf == wt:
            return v
        if v[0] == 'ite':
            return ITE(v[1], self.pcast(v[2], f, t), self.pcast(v[3], f, t))
        if v[0] != 'p':
            v = ('p', v, C(0))
        if wt == 1:
            return ('p', ('bytes', v[1], f), mul(v[2], C(wf)) if wf else (C(0) if v[2] == C(0) else mul(v[2], ('op', 'sizeof', f))))
        if v[1][0] == 'bytes' and v[1][2] == t:
            return ('p', v[1][1], div(v[2], C(wt)) if wt else v[2])
        return ('p', ('pc', v[1], f, t), v[2])

    def x_ilist(self, e, fr, st, decl=None):
        t = cvstrip(e['t'])
        vals = tuple(self.val(a, fr, st) for a in e['a'])
        rec = self.db.recs.get(t)
        if rec and not t.startswith('std::'):
            fs = rec['fields']
            return ('agg', t, tuple((f['n'], v) for f, v in zip(fs, vals)))
        if len(vals) == 1 and not t.endswith(']') and not t.startswith('std::'):
            return vals[0]
        if len(vals) == 1 and t.startswith('std::array') and vals[0][0] == 'p':
            return vals[0]
        return ('p', ('ilist', vals), C(0))

    def x_new(self, e, fr, st):
        n = self.val(e['n'], fr, st) if e.get('n') else None
        i = e.get('e')
        self.seq += 1
        obj = ('new', e['nt'], self.seq)
        p = ('p', ('addr', obj), C(0)) if n is None else ('p', ('arr', obj), C(0))
        if i is not None and i.get('k') == 'ctor' and n is None:
            f = self.db.byusr.get(i['usr'])
            if f and not self.prim(f['fn'], f) and len(self.stack) < self.maxdepth:
                st.env[obj] = ('sym', 'obj:' + e['nt'])
                vals = self.args(f['pt'], i['a'], fr, st)
                _, s2 = self.invoke(f, vals, p, st)
                st.env = s2.env
                return p
            vals = [self.asval(x, st) for x in self.args([], i['a'], fr, st)]
            ev = self.emit(st, 'call', 'new ' + e['nt'], None, vals, p, e, fr)
            st.env[obj] = ('inst', e['nt'], tuple(vals))
            return p
        self.emit(st, 'call', 'new ' + e['nt'] + ('[]' if n is not None else ''), None, (n,) if n is not None else (), p, e, fr)
        return p

    def x_delete(self, e, fr, st):
        v = self.val(e['e'], fr, st)
        self.emit(st, 'call', 'delete', None, (v,), NULL, e, fr)
        return ('sym', 'void')

    def x_lambda(self, e, fr, st):
        caps = []
        for c in e['caps']:
            if c.get('this'):
                caps.append(('this', fr.this))
            elif c['ref']:
                l = self.ev(c['e'], fr, st)
                caps.append((c['id'], l if l and l[0] == 'LOC' else ('LOC', ('d', l))))
            else:
                caps.append((c['id'], self.val(c['e'], fr, st)))
        return ('lam', e['id'], tuple(caps), e['l'])

    # ---- construction
    def x_ctor(self, e, fr, st, decl=None):
        cls = e['cls']
        a = e['a']
        b = cls
        if b.startswith('std::function') or b.startswith(SMART):
            if not a:
                return NULL
            if len(a) >= 1:
                v = self.val(a[0], fr, st)
                return v
        if e.get('copy') or e.get('move'):
            if a:
                sl, sv = self.lvv(a[0], fr, st)
                if decl:
                    self.assigned(decl, sl, e, fr, st)
                return sv if sl is None else self.rd(sl, st)
        if b.startswith(VECS):
            vals = [self.val(x, fr, st) for x in a]
            ts = [cvstrip(unref(x.get('t', ''))) for x in a]
            # drop allocator argument
            while vals and len(vals) > 1 and ts[-1].startswith('std::allocator'):
                vals.pop()
                ts.pop()
            arr = ('arr', ('vnew', e['l'], self._n()))
            if not vals or (len(vals) == 1 and ts[0].startswith('std::allocator')):
                return ('vec', arr, C(0), None) if not b.startswith('std::array') else ('vec', arr, ('size', b), None)
            v0 = vals[0]
            if v0[0] == 'p' and v0[1][0] == 'ilist':
                return ('vec', arr, C(len(v0[1][1])), ('list', v0[1][1]))
            if v0[0] == 's':
                return v0
            if len(vals) >= 1 and ts[0] in INTS or (len(vals) == 1 and v0[0] != 'p' and ts[0] in INTS):
                fv = vals[1] if len(vals) > 1 else C(0)
                if contains(fv, lambda x: x == HOLE):
                    fv = ('op', 'fillv')
                return ('vec', arr, v0, ('fillv', C(0), v0, fv))
            if len(vals) == 2:
                pa, pb = (x if x[0] == 'p' else ('p', x, C(0)) for x in vals)
                if pa[1] == pb[1]:
                    n = sub(pb[2], pa[2])
                    el = self.ldarr(pa[1], add(pa[2], HOLE), st)
                    if isc(n) and 0 <= n[1] <= 40 and any(('i', pa[1], add(pa[2], C(k))) in st.env for k in range(n[1])):
                        return ('vec', arr, n, ('list', tuple(self.rd(('i', pa[1], add(pa[2], C(k))), st) for k in range(n[1]))))
                    return ('vec', arr, n, ('fillv', C(0), n, el))
                if 'basic_string' in b:
                    return ('vec', arr, vals[1], None)
            return ('call', cls, tuple(vals))
        f = self.db.byusr.get(e['usr']) or (self.db.loose(e['usr']) if self.ctors else None)
        if f and not f.get('impl') and not self.prim(f['fn'], f) and len(self.stack) < self.maxdepth and self.kstack.count(f['fkey']) < self.maxrec:
            self.seq += 1
            obj = ('new', cls, self.seq)
            st.env[obj] = ('sym', 'obj:' + cls)
            vals = self.args(f['pt'], a, fr, st)
            _, s2 = self.invoke(f, vals, ('p', ('addr', obj), C(0)), st)
            st.env, st.dead = s2.env, s2.dead
            return self.rd(obj, st)
        vals = self.args([], a, fr, st)
        vals = [self.asval(x, st) for x in vals]
        if not vals:
            if f and f.get('impl') and f.get('inits'):
                pass
            rec = self.db.recs.get(cls)
            if rec is None and not cls.startswith('std::') and not cls.startswith('exseis'):
                return C(0)
            if e.get('impl') and rec:
                fs = []
                for fd in rec['fields']:
                    if fd.get('init'):
                        fs.append((fd['n'], self.val(fd['init'], fr, st)))
                return ('agg', cls, tuple(fs)) if fs else ('sym', 'dflt:' + cls)
            return ('sym', 'dflt:' + cls)
        if cls.startswith('std::') or not (f or cls in self.db.recs):
            if len(vals) == 2 and cls.startswith('std::pair'):
                return ('agg', cls, (('first', vals[0]), ('second', vals[1])))
            if len(vals) == 1 and cls.startswith('__gnu_cxx::__normal_iterator'):
                return vals[0]
            return ('call', cls, tuple(vals))
        self.emit(st, 'call', cls + '::ctor', None, vals, NULL, e, fr)
        return ('inst', cls, tuple(vals))

    def _n(self):
        self.seq += 1
        return self.seq

    # ---- calls
    def x_call(self, e, fr, st, decl=None):
        q = e.get('fn')
        if q is None:
            return self.icall(e, fr, st)
        nm = e['nm']
        if 'lambdaop' in e and e.get('op') == '()':
            return self.callval(self.val(e['obj'], fr, st), e, fr, st)
        if q.startswith('std::') or q.startswith('__gnu_cxx') or (not e.get('cls') and (nm in MATH or nm in ('memcpy', 'memset', 'memmove'))) or q.startswith('__builtin') or nm.startswith('operator""'):
            r = self.stdcall(e, q, nm, fr, st)
            if r is not NotImplemented:
                return r
        # resolve
        f = self.db.callee(e, fr.fn.get('unit'))
        if nm == 'operator=' and len(e['a']) == 1 and e.get('obj') is not None and (f is None or f.get('body') is None) and not e.get('arrow') \
                and cvstrip(unref((e.get('pt') or [''])[0])) == e.get('cls') and not self.prim(q, f):
            # implicit copy or move assignment
            l = self.lv(e['obj'], fr, st)
            if l is not None:
                sl, sv = self.lvv(e['a'][0], fr, st)
                self.assigned(l, sl, e, fr, st)
                return self.store(l, sv if sl is None else self.rd(sl, st), e, fr, st)
        obj = None
        if e.get('obj') is not None:
            r = self.ev(e['obj'], fr, st)
            if e.get('arrow'):
                obj = self.asval(r, st)
            else:
                obj = self.addr(self.res(r[1], st)) if (r and r[0] == 'LOC') else r
                if r and r[0] != 'LOC':
                    tl = ('tmp', ('o', fr.id, e['l'], self._n()))
                    self.wr(tl, r, st)
                    obj = self.addr(tl)
        if e.get('virt') and not e.get('nonvirt'):
            c = self.dyncls(obj, e['cls'])
            f = self.db.override(c, e) if c else None
        pts = e.get('pt', [])
        vals = self.args(pts, e['a'], fr, st)
        if f is not None and f.get('body') is not None and not self.prim(q, f) and not self.prim(f['fn'], f) and len(self.stack) < self.maxdepth and self.kstack.count(f['fkey']) < self.maxrec:
            v, s2 = self.invoke(f, vals, obj, st)
            st.env, st.dead, st.pc = s2.env, s2.dead, s2.pc
            return v
        return self.extcall(f['fn'] if f else q, e, obj, vals, pts, fr, st)

    def dyncls(self, obj, static):
        o = obj
        if o is not None and o[0] == 'p' and o[1][0] == 'addr' and o[1][1][0] == 'new':
            return o[1][1][1]
        for c in [static] + [x for x in self.db.derived.get(static, ())]:
            if c in self.devirt:
                return self.devirt[c]
        for b in self.db.bases(static):
            if b in self.devirt:
                return self.devirt[b]
        if not self.db.derived.get(static) and static in self.db.recs and not self.db.recs[static].get('abs'):
            return static
        return None

    def extcall(self, q, e, obj, vals, pts, fr, st, indirect=False):
        av = []
        for v in vals:
            if v and v[0] == 'LOC':
                av.append(self.addr(self.res(v[1], st)))
            else:
                av.append(v)
        # name the result by what was called with what
        rv = tuple(self.rd(v[1], st) if v and v[0] == 'LOC' else v for v in vals)
        ev = self.emit(st, 'call', q, obj, rv, None, e, fr)
        key = (q, obj, rv)
        n = self.occ.get(key, 0)
        self.occ[key] = n + 1
        m = self.model.get(q)
        if callable(m):
            m = m(self, obj, rv)
        if m is not None:
            res = m
        elif self.mpi_ok and q.startswith('MPI_'):
            res = C(0)
        elif e.get('cm') and not indirect and cvstrip(e['t']) != 'void':
            res = ('call', q, (obj if obj is not None else NULL,) + rv)
        else:
            res = ('res', q, obj if obj is not None else NULL, rv, n, self.seq)
            self.rtypes[self.seq] = cvstrip(e.get('t') or '')
        self.events[-1] = ev._replace(res=res)
        if q in self.pure:
            return res
        rq = {'MPI_Isend': 6, 'MPI_Irecv': 6, 'MPI_Wait': 0}.get(q)
        if rq is not None and rq < len(rv) and rv[rq] and rv[rq][0] == 'p' and rv[rq][1][0] in ('arr', 'addr') and isc(rv[rq][2]):
            # one request
            el = rv[rq][1][1] if rv[rq][1][0] == 'addr' else ('i', rv[rq][1], rv[rq][2])
            if q == 'MPI_Wait':
                self.events[-1].mem['q'] = self.rd(el, st)
            self.wr(el, ('out', q, rq, self.seq), st)
            pts = list(pts or [''] * len(vals))
            pts[rq] = 'const void *'
        # out parameters
        if not pts and (e.get('fn') or '').startswith('std::function<'):
            pts = sigparams(e['fn'][len('std::function<'):].rsplit('>::operator()', 1)[0])
            if len(pts) != len(vals):
                pts = []
        if not pts and indirect and '(*)(' in ((e.get('ce') or {}).get('t') or ''):
            pts = sigparams(e['ce']['t'])
            if len(pts) != len(vals):
                pts = []
        for i, (v, pt) in enumerate(zip(vals, pts or [''] * len(vals))):
            t = pt
            const = t.startswith('const ') and (t.endswith('&') or (isptr(t) and t.count('*') == 1)) or ' const &' in t
            if const:
                continue
            if v and v[0] == 'LOC' and isref(t):
                l = self.res(v[1], st)
                self.wr(l, ('out', q, i, self.seq), st)
            elif isptr(t) or (not t and v and v[0] == 'p'):
                x = v if not (v and v[0] == 'LOC') else self.rd(v[1], st)
                for c, x in ptralts(x):
                    b = x[1]
                    if b[0] == 'addr' and x[2] == C(0):
                        o = ('out', q, i, self.seq)
                        self.wr(b[1], o if c == TRUE else ITE(c, o, self.rd(b[1], st)), st)
                    else:
                        root = b[1] if b[0] in ('bytes', 'pc') else b
                        for kk in [kk for kk in st.env if within(kk, (b, root))]:
                            del st.env[kk]
                        st.env.pop(('fill', root), None)
                        st.env[('fill', b)] = ('fillv', x[2], ('sym', 'n'), ('outel', q, i, self.seq, HOLE))
        return res

    def icall(self, e, fr, st):
        c = self.val(e['ce'], fr, st)
        return self.callval(c, e, fr, st)

    def callval(self, c, e, fr, st):
        if c[0] == 'p' and c[1][0] == 'fn':
            c = c[1]
        if c[0] == 'lam':
            f = self.db.lamu.get((c[1], e.get('usr')))
            if f is None or not f.get('body'):
                f = self.db.lam.get(c[1])
            if f is None:
                vals = self.args([], e['a'], fr, st)
                return self.extcall('<lambda>', e, None, vals, [], fr, st, True)
            vals = self.args(f['pt'], e['a'], fr, st)
            if len(self.stack) < self.maxdepth:
                cap = {k: v for k, v in c[2] if k != 'this'}
                this = dict((k, v) for k, v in c[2]).get('this')
                v, s2 = self.invoke(f, vals, this, st, cap=cap)
                st.env, st.dead, st.pc = s2.env, s2.dead, s2.pc
                return v
        if c[0] == 'fn':
            f = self.db.byusr.get(c[2] + '@' + fr.fn.get('unit', '')) or self.db.byusr.get(c[2])
            if f and f.get('body') and not self.prim(c[1], f) and len(self.stack) < self.maxdepth:
                vals = self.args(f['pt'], e['a'], fr, st)
                v, s2 = self.invoke(f, vals, None, st)
                st.env, st.dead, st.pc = s2.env, s2.dead, s2.pc
                return v
            vals = self.args([], e['a'], fr, st)
            return self.extcall(c[1], e, None, vals, [], fr, st, True)
        if c[0] == 'ite':
            r = {}
            env0 = st.copy()
            self.branch(c[1], lambda t: r.__setitem__('a', self.asval(self.callval(c[2], e, fr, t), t)), lambda t: r.__setitem__('b', self.asval(self.callval(c[3], e, fr, t), t)), st, fr)
            return ITE(c[1], r['a'], r['b'])
        vals = self.args([], e['a'], fr, st)
        return self.extcall('<indirect>', e, c, vals, [], fr, st, True)

    # ---- the standard library
    def cont(self, e, fr, st):
        """location of the container object of a member call"""
        r = self.ev(e['obj'], fr, st)
        if e.get('arrow'):
            return self.res(self.deref(self.asval(r, st)), st)
        if r and r[0] == 'LOC':
            return self.res(r[1], st)
        l = ('tmp', ('c', fr.id, e['l'], self._n()))
        self.wr(l, r, st)
        return l

    def stdcall(self, e, q, nm, fr, st):
        cls = e.get('cls', '')
        A = e['a']
        if q in PURE:
            k = PURE[q]
            if k == 'id':
                return self.ev(A[0], fr, st)
            if k == 'addr':
                return self.addr(self.res(self.lv(A[0], fr, st), st))
            if len(A) == 2:
                a, b = self.val(A[0], fr, st), self.val(A[1], fr, st)
                return _mm(k, (a, b))
            if len(A) == 1:
                v = self.val(A[0], fr, st)
                if v[0] == 'p' and v[1][0] == 'ilist':
                    return _mm(k, v[1][1])
        if nm in MATH or q.startswith('__builtin'):
            vals = [self.val(a, fr, st) for a in A]
            if nm in ('abs', 'fabs', 'labs', 'llabs'):
                return ('call', 'abs', tuple(vals))
            return ('call', nm, tuple(vals))
        if cls.startswith(SMART) or cls.startswith('std::__shared_ptr_access'):
            o = self.cont(e, fr, st) if e.get('obj') else None
            if nm in ('get', 'operator->'):
                return self.rd(o, st)
            if nm == 'operator*':
                return ('LOC', self.deref(self.rd(o, st)))
            if nm == 'operator bool':
                return NOT(EQ(self.rd(o, st), NULL))
            if nm in ('operator=', 'reset'):
                v = self.val(A[0], fr, st) if A else NULL
                return self.store(o, v, e, fr, st)
            if nm == 'release':
                v = self.rd(o, st)
                self.wr(o, NULL, st)
                return v
            if nm == 'operator[]':
                return ('LOC', self.deref(self.padd(self.rd(o, st), self.val(A[0], fr, st))))
        if q in ('std::make_shared', 'std::make_unique'):
            t = e['ta'][0] if e.get('ta') else '?'
            vals = [self.val(a, fr, st) for a in A]
            self.seq += 1
            obj = ('new', t, self.seq)
            cand = [f for f in self.db.byq.get(t + '::' + t.split('::')[-1].split('<')[0], []) if f.get('isctor') and len(f['ps']) == len(vals) and not f.get('copymove')]
            p = ('p', ('addr', obj), C(0))
            st.env[obj] = ('inst', t, tuple(vals))
            self.emit(st, 'call', 'new ' + t, None, vals, p, e, fr)
            return p
        if q in ('std::operator==', 'std::operator!=') and len(A) == 2 and any('nullptr_t' in t for t in e.get('pt') or ()):
            a, b = self.val(A[0], fr, st), self.val(A[1], fr, st)
            c = FALSE if NULL in (a, b) and a != b and {a[0], b[0]} & {'fn', 'lam'} else EQ(a, b)
            return c if q == 'std::operator==' else NOT(c)
        if cls.startswith('std::pair') and nm == 'operator=' and len(A) == 1 and e.get('obj') is not None and not e.get('arrow'):
            l = self.lv(e['obj'], fr, st)
            if l is not None:
                return self.store(l, self.val(A[0], fr, st), e, fr, st)
        if cls.startswith('std::function'):
            if nm == 'operator()':
                return self.callval(self.val(e['obj'], fr, st), e, fr, st)
            if nm == 'operator=':
                o = self.cont(e, fr, st)
                return self.store(o, self.val(A[0], fr, st), e, fr, st)
            if nm == 'operator bool':
                return NOT(EQ(self.val(e['obj'], fr, st), NULL))
        if cls.startswith(MAPS) or cls.startswith(('std::__detail::_Node_', 'std::_Rb_tree_')) or q.startswith(('std::__detail::operator', 'std::operator')) and len(A) == 2:
            r = self.mapcall(e, q, nm, fr, st)
            if r is not NotImplemented:
                return r
        # iterators
        if cls.startswith(('__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator', 'std::_Fwd_list_')) or any(x in (e.get('pt') or [''])[0] for x in ('normal_iterator', '_List_iterator', '_List_const_iterator', '_Deque_iterator', '_Fwd_list_')):
            r = self.iterop(e, nm, fr, st)
            if r is not NotImplemented:
                return r
        if cls.startswith(('std::forward_list', 'std::set', 'std::unordered_set')) and nm in ('begin', 'cbegin', 'end', 'cend') and e.get('obj') is not None:
            r = self.ev(e['obj'], fr, st)
            if r and r[0] == 'LOC':
                o = self.res(r[1], st)
                return ('p', self.arrof(o, st), C(0) if 'begin' in nm else self.sizeof(o, st))
        if cls.startswith(VECS):
            r = self.veccall(e, q, nm, fr, st)
            if r is not NotImplemented:
                return r
        if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend') and len(A) == 1:
            l, v = self.lvv(A[0], fr, st)
            if l is None:
                l = ('tmp', ('b', fr.id, e['l'], self._n()))
                self.wr(l, v, st)
            l = self.res(l, st)
            t = cvstrip(unref(A[0].get('t', '')))
            if t.endswith(']'):
                v = st.env.get(l)
                b = v[1] if v and v[0] == 'p' else ('arr', l)
                return ('p', b, C(0) if 'begin' in nm else C(int(t.rsplit('[', 1)[1][:-1])))
            if t.startswith(VECS) or True:
                b = self.arrof(l, st)
                sz = self.sizeof(l, st) if not t.startswith('std::array') else C(int(t.rsplit(',', 1)[1].strip(' >')))
                return ('p', b, C(0) if 'begin' in nm else sz)
        if q in ('std::next', 'std::prev') and A:
            v = self.val(A[0], fr, st)
            if v[0] == 'p':
                n = self.val(A[1], fr, st) if len(A) > 1 and A[1]['k'] != 'defarg' else C(1)
                return ('p', v[1], add(v[2], n) if q == 'std::next' else sub(v[2], n))
        if q == 'std::distance' and len(A) == 2:
            a, b = self.asp(self.val(A[0], fr, st)), self.asp(self.val(A[1], fr, st))
            if a[1] == b[1]:
                return sub(b[2], a[2])
        if q == 'std::advance' and len(A) == 2:
            l = self.lv(A[0], fr, st)
            v = self.rd(l, st) if l else None
            if v and v[0] == 'p':
                self.store(l, ('p', v[1], add(v[2], self.val(A[1], fr, st))), e, fr, st)
                return ('sym', 'void')
        if q == 'std::swap' and len(A) == 2:
            la, lb = self.lv(A[0], fr, st), self.lv(A[1], fr, st)
            if la and lb:
                va, vb = self.rd(la, st), self.rd(lb, st)
                self.store(la, vb, e, fr, st)
                self.store(lb, va, e, fr, st)
                return ('sym', 'void')
        if q in ('std::copy', 'std::copy_n', 'std::memcpy', 'memcpy', 'std::memmove', 'memmove', 'std::fill', 'std::fill_n', 'std::iota', 'std::transform'):
            return self.stdalg(e, q, fr, st)
        if q in ('std::max_element', 'std::min_element') and len(A) == 2:
            a, b = self.val(A[0], fr, st), self.val(A[1], fr, st)
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                el = self.ldarr(a[1], add(a[2], HOLE), st)
                v = ('red', 'max' if 'max' in q else 'min', NULL, el, sub(b[2], a[2]))
                l = ('tmp', ('me', fr.id, e['l'], self._n()))
                st.env[l] = v
                return ('p', ('addr', l), C(0))
        if q in ('std::find_if', 'std::find_if_not', 'std::count_if', 'std::any_of', 'std::all_of', 'std::none_of') and len(A) == 3:
            r = self.search(q.split('::')[1], *(self.val(x, fr, st) for x in A), e=e, fr=fr, st=st)
            if r is not None:
                return r
        if q == 'std::sort' and len(A) == 2:
            a, b = (self.asp(self.val(x, fr, st)) for x in A)
            n = sub(b[2], a[2]) if a[1] == b[1] else None
            if n is not None and isc(n) and isc(a[2]) and 0 <= n[1] <= 40:
                ls = [('i', a[1], add(a[2], C(k))) for k in range(n[1])]
                els = [self.rd(l, st) for l in ls]
                if all(isc(x) for x in els):
                    for l, x in zip(ls, sorted(els, key=lambda x: x[1])):
                        self.wr(l, x, st)
                    return ('sym', 'void')
        if self.constglob is not None and (q == 'std::sort' and len(A) == 3 or q in ('std::lower_bound', 'std::upper_bound', 'std::binary_search') and len(A) in (3, 4)):
            r = self.ordered(q.split('::')[1], [self.val(x, fr, st) for x in A], e, fr, st)
            if r is not None:
                return r
        if q == 'std::minmax_element' and len(A) in (2, 3):
            r = self.minmax([self.val(x, fr, st) for x in A], e, fr, st)
            if r is not None:
                return r
        if q == 'std::accumulate' and len(A) == 4:
            a, b, c, g = (self.val(x, fr, st) for x in A)
            a, b = self.asp(a), self.asp(b)
            n = sub(b[2], a[2]) if a[1] == b[1] else None
            f = self.db.lam.get(g[1]) if g[0] == 'lam' else self.db.byusr.get(g[2]) if g[0] == 'fn' else None
            if n is not None and isc(n) and 0 <= n[1] <= 40 and f is not None and f.get('body'):
                cap = {k: x for k, x in g[2] if k != 'this'} if g[0] == 'lam' else None
                for k in range(n[1]):
                    l = ('i', a[1], add(a[2], C(k)))
                    r, _ = self.invoke(f, [c, ('LOC', l) if isref(f['ps'][1]['t']) else self.rd(l, st)], dict(g[2]).get('this') if g[0] == 'lam' else None, st.copy(), cap=cap)
                    c = self.asval(r, st)
                return c
        if q == 'std::accumulate' and len(A) == 3:
            a, b, c = (self.val(x, fr, st) for x in A)
            a, b = self.asp(a), self.asp(b)
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                n = sub(b[2], a[2])
                if isc(n) and 0 <= n[1] <= 40 and isc(a[2]) and any(('i', a[1], add(a[2], C(k))) in st.env for k in range(n[1])):
                    for k in range(n[1]):
                        c = add(c, self.rd(('i', a[1], add(a[2], C(k))), st))
                    return c
                el = self.ldarr(a[1], add(a[2], HOLE), st)
                return ('red', '+', c, el, sub(b[2], a[2]))
        if q in ('std::for_each',) and len(A) == 3:
            a, b, c = (self.val(x, fr, st) for x in A)
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1] and c[0] == 'lam':
                f = self.db.lam[c[1]]
                cell = ('v', fr.id, ('fe', e['l']))
                st.env[cell] = C(0)

                def body(t):
                    loc = ('i', a[1], add(a[2], t.env[cell]))
                    v = ('LOC', loc) if isref(f['ps'][0]['t']) else self.rd(loc, t)
                    cap = {k: x for k, x in c[2] if k != 'this'}
                    _, s2 = self.invoke(f, [v], dict(c[2]).get('this'), t, cap=cap)
                    t.env, t.dead = s2.env, s2.dead

                def inc(t):
                    t.env[cell] = add(t.env[cell], C(1))
                n = sub(b[2], a[2])
                self.genloop(e, fr, st, lambda t: LT(t.env[cell], n, True), body, inc, trip=n)
                return c
        if nm == 'operator<<' and ('basic_ostream' in cls or 'basic_ostream' in (e.get('pt') or [''])[0]):
            # inserting into a stream leaves its identity alone
            so = e['obj'] if e.get('obj') is not None else A[0]
            l, v = self.lvv(so, fr, st)
            rest = A if e.get('obj') is not None else A[1:]
            vals = [self.val(a, fr, st) for a in rest]
            sv = self.rd(self.res(l, st), st) if l is not None else v
            self.emit(st, 'std', q, sv if e.get('obj') is not None else None, vals if e.get('obj') is not None else [sv] + vals, None, e, fr)
            return ('LOC', l) if l is not None else v
        # everything else: pure value of its arguments, except that passed closures may run and references may change
        obj = None
        vals = []
        if e.get('obj') is not None:
            r = self.ev(e['obj'], fr, st)
            obj = self.asval(r, st)
            mut = not e.get('cm') and r and r[0] == 'LOC'
        else:
            mut = False
        raw = [self.ev(a, fr, st) for a in A]
        vals = [self.asval(v, st) if v is not None else ('sym', 'void') for v in raw]
        ev = self.emit(st, 'std', q, obj, vals, None, e, fr)
        if mut and nm not in ('find', 'begin', 'end', 'count', 'at', 'operator[]', 'operator->', 'operator*', 'lower_bound', 'front', 'back', 'size', 'operator bool', 'top'):
            l = self.res(r[1], st)
            self.wr(l, ('mut', q, obj, tuple(vals)), st)
        for v, pt in zip(raw, e.get('pt', [])):
            if v and v[0] == 'LOC' and isref(pt) and not pt.startswith('const ') and not pt.endswith('&&'):
                self.wr(self.res(v[1], st), ('out', q, self.seq), st)
        if q.startswith('std::') and obj is None and nm in MUTALG:
            done = set()
            for i, v in enumerate(vals):
                for c, x in ptralts(v):
                    b = x[1]
                    if b in done:
                        continue
                    done.add(b)
                    for kk in [kk for kk in st.env if within(kk, (b,))]:
                        del st.env[kk]
                    st.env[('fill', b)] = ('fillv', x[2], ('sym', 'n'), ('outel', q, i, self.seq, HOLE))
        if q == 'std::make_pair' and len(vals) == 2:
            return ('agg', 'std::pair', (('first', vals[0]), ('second', vals[1])))
        return ('call', q, ((obj,) if obj is not None else ()) + tuple(vals))

    def mapcall(self, e, q, nm, fr, st):
        """associative containers: the element of key k lives at ('i', ('map', m), k) and its presence at ('i', ('has', m), k)"""
        A = e['a']
        cls = e.get('cls', '')
        if not cls.startswith(MAPS):
            if nm in ('operator==', 'operator!=') and (len(A) == 2 or e.get('obj') is not None and len(A) == 1):
                t = [x.get('t', '') for x in ([e['obj']] if e.get('obj') is not None else []) + list(A)]
                if not any('_Node_' in x or '_Rb_tree_' in x for x in t):
                    return NotImplemented
                a, b = [self.val(x, fr, st) for x in ([e['obj']] if e.get('obj') is not None else []) + list(A)]
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'mit' and y[0] == 'mend':
                        return NOT(x[4]) if nm == 'operator==' else x[4]
                    if x[0] == 'p' and y[0] == 'mend':
                        return self.binop(nm[8:], x, ('p', y[2], y[3]), 'x *', 'x *', 'bool')
                return EQ(a, b) if nm == 'operator==' else NOT(EQ(a, b))
            if nm in ('operator->', 'operator*') and e.get('obj') is not None:
                v = self.val(e['obj'], fr, st)
                if v[0] == 'mit':
                    return v if nm == 'operator->' else ('LOC', ('mel', v[1], v[3]))
            if e.get('obj') is not None and nm in ('operator->', 'operator*', 'operator++', 'operator=') and (nm != 'operator++' or self.val(e['obj'], fr, st)[0] == 'p'):
                return self.iterop(e, nm, fr, st)
            return NotImplemented
        if e.get('obj') is None:
            return NotImplemented
        if nm not in ('find', 'begin', 'cbegin', 'end', 'cend', 'count', 'contains', 'erase', 'operator[]', 'at', 'emplace', 'try_emplace', 'insert', 'insert_or_assign'):
            return NotImplemented
        r = self.ev(e['obj'], fr, st)
        if not (r and r[0] == 'LOC'):
            obj = self.asval(r, st)
            o = ('d', obj)
            m = obj
        else:
            o = self.res(r[1], st)
            m = o[1] if o[0] == 'd' else o
        M, H = ('map', m), ('has', m)
        if nm in ('end', 'cend'):
            return ('mend', M, self.arrof(o, st), self.sizeof(o, st))
        if nm in ('begin', 'cbegin'):
            return ('p', self.arrof(o, st), C(0))

        def present(k):
            return self.tobool(self.rd(('i', H, k), st), 'bool')

        def addkey(k):
            was = present(k)
            if was != TRUE:
                self.clear(('i', M, k), st)
                self.wr(('i', H, k), TRUE, st)
            return was

        vals = [self.val(a, fr, st) for a in A]
        if nm == 'find':
            return ('mit', M, m, vals[0], present(vals[0]))
        if nm in ('count', 'contains'):
            return present(vals[0])
        if nm == 'at':
            self.emit(st, 'std', q, m, vals, None, e, fr)
            return ('LOC', ('i', M, vals[0]))
        if nm == 'operator[]':
            self.emit(st, 'std', q, m, vals, None, e, fr)
            k = vals[0]
            had = ('i', M, k) in st.env
            was = present(k)
            if was != TRUE:
                self.wr(('i', H, k), TRUE, st)
            return ('LOC', ('i', M, k))
        if nm == 'erase' and len(vals) == 1:
            k = vals[0]
            if k[0] == 'mit':
                k = k[3]
            elif k[0] in ('p', 'mend') or 'terator' in A[0].get('t', ''):
                return NotImplemented
            self.emit(st, 'std', q, m, [k], None, e, fr)
            old = self.rd(o, st)
            self.wr(o, ('mut', q, old, (k,)), st)
            self.wr(('i', H, k), FALSE, st)
            return ('sym', 'erased')
        if nm in ('emplace', 'try_emplace', 'insert', 'insert_or_assign'):
            kv = vals
            if len(vals) == 1 and vals[0][0] == 'agg' and len(vals[0][2]) == 2:
                kv = [x for _, x in vals[0][2]]
            if len(kv) == 1 and vals[0][0] == 'upd' and len(vals[0][2]) == 2:
                kv = [x for _, x in vals[0][2]]
            if len(kv) != 2:
                return NotImplemented
            k, v = kv
            was = present(k)
            l = ('i', M, k)
            nv = v if nm == 'insert_or_assign' else ITE(was, self.rd(l, st), v)
            ev = self.emit(st, 'store', '', l, (nv,), NULL, e, fr)
            self.wr(l, nv, st)
            self.wr(('i', H, k), TRUE, st)
            return ('mins', ('mit', M, m, k, TRUE), NOT(was))
        return NotImplemented

    def iterop(self, e, nm, fr, st):
        A = e['a']
        if e.get('obj') is not None:
            r = self.ev(e['obj'], fr, st)
            v = self.asval(r, st)
            if nm == 'operator*':
                return ('LOC', self.deref(v))
            if nm == 'operator->':
                return v
            if nm == 'operator[]':
                return ('LOC', self.deref(self.padd(v, self.val(A[0], fr, st))))
            if nm in ('operator++', 'operator--') and r and r[0] == 'LOC':
                n = self.padd(v, C(1 if '+' in nm else -1))
                self.wr(r[1], n, st)
                return v if A else r
            if nm in ('operator+=', 'operator-=') and r and r[0] == 'LOC':
                d = self.val(A[0], fr, st)
                self.wr(r[1], self.padd(v, d if '+' in nm else neg(d)), st)
                return r
            if nm in ('operator+', 'operator-') and A:
                d = self.val(A[0], fr, st)
                return self.padd(v, d if '+' in nm else neg(d))
            if nm == 'base':
                return v
            if nm == 'operator=' and r and r[0] == 'LOC':
                self.wr(r[1], self.val(A[0], fr, st), st)
                return r
        elif len(A) == 2 and nm.startswith('operator'):
            a, b = self.val(A[0], fr, st), self.val(A[1], fr, st)
            op = nm[8:]
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return self.binop(op, a, b, 'x *', 'x *', 'bool')
            if op == '-':
                return self.binop('-', a, b, 'x *', 'x *', 'long')
        return NotImplemented

    def veccall(self, e, q, nm, fr, st):
        A = e['a']
        if e.get('obj') is None:
            return NotImplemented
        o = self.cont(e, fr, st)
        cls = e['cls']
        arr = self.arrof(o, st)
        if cls.startswith('std::array'):
            ct = next((c for c in (cls, (e['obj'].get('t') or '')) if ',' in c and c.rsplit(',', 1)[1].strip(' >&*').isdigit()), None)
            size = C(int(ct.rsplit(',', 1)[1].strip(' >&*'))) if ct else self.sizeof(o, st)
            v = st.env.get(o)
            if v is not None and v[0] == 'p':
                arr = v[1]
        else:
            size = self.sizeof(o, st)
        if nm in ('size', 'length'):
            return size
        if nm == 'empty':
            return EQ(size, C(0))
        if nm in ('data', 'begin', 'c_str', 'cbegin'):
            return ('p', arr, C(0))
        if nm in ('end', 'cend'):
            return ('p', arr, size)
        if nm in ('operator[]', 'at'):
            return ('LOC', ('i', arr, self.val(A[0], fr, st)))
        if nm == 'front':
            return ('LOC', ('i', arr, C(0)))
        if nm == 'back':
            return ('LOC', ('i', arr, sub(size, C(1))))
        if nm in ('reserve', 'shrink_to_fit'):
            for a in A:
                self.val(a, fr, st)
            return ('sym', 'void')
        if nm in ('capacity',):
            return ('call', 'capacity', (size,))
        if nm == 'pop_back' and ('f', o, '#size') in st.env:
            st.env[('f', o, '#size')] = sub(size, C(1))
            return ('sym', 'void')
        if nm in ('resize', 'assign', 'clear', 'push_back', 'emplace_back', 'pop_back', 'insert', 'erase', 'append', 'operator+='):
            vals = [self.val(a, fr, st) for a in A]
            if cls.startswith(('std::list', 'std::deque')):
                self.emit(st, 'std', q, self.rd(o, st), vals, NULL, e, fr)
                self.wr(o, ('mut', q, self.rd(o, st), tuple(vals)), st)
                return ('sym', 'void')
            if nm == 'resize':
                if ('f', o, '#size') in st.env or st.env.get(o, ('x',))[0] == 'vec':
                    pass
                st.env[('f', o, '#size')] = vals[0]
                st.env[('vinit', o)] = TRUE
                a2 = ('arr', o)
                f = st.env.get(('fill', a2))
                if size == C(0):
                    st.env[('fill', a2)] = ('fillv', C(0), vals[0], vals[1] if len(vals) > 1 else C(0))
                self.emit(st, 'std', q, ('p', ('addr', o), C(0)), vals, NULL, e, fr)
                return ('sym', 'void')
            if nm in ('push_back', 'emplace_back'):
                v = vals[0] if len(vals) == 1 else ('call', 'elem', tuple(vals))
                st.env[('vinit', o)] = TRUE
                f = st.env.get(('fill', arr))
                if f is None and st.env.get(o, ('x',))[0] == 'vec':
                    f = st.env[o][3]
                if f is not None and f[0] == 'list' and isc(size) and size[1] == len(f[1]):
                    st.env[('fill', ('arr', o))] = ('list', f[1] + (v,))
                elif size == C(0):
                    st.env[('fill', ('arr', o))] = ('list', (v,))
                else:
                    self.wr(('i', ('arr', o), size), v, st)
                st.env[('f', o, '#size')] = add(size, C(1))
                self.emit(st, 'std', q, ('p', ('addr', o), C(0)), (v,), NULL, e, fr)
                return ('sym', 'void')
            if nm == 'clear':
                self.clear(o, st)
                st.env[('f', o, '#size')] = C(0)
                st.env[('vinit', o)] = TRUE
                st.env.pop(('fill', ('arr', o)), None)
                return ('sym', 'void')
            if nm == 'erase' and cls.startswith(('std::vector', 'std::__cxx11::vector')) and isc(size) and size[1] <= 64 and vals and vals[0][0] == 'p' and vals[0][1] == arr and isc(vals[0][2]):
                i = vals[0][2][1]
                j = i + 1 if len(vals) == 1 else vals[1][2][1] if vals[1][0] == 'p' and vals[1][1] == arr and isc(vals[1][2]) else None
                if j is not None and 0 <= i <= j <= size[1]:
                    els = [self.ldarr(arr, C(k), st) for k in range(size[1]) if not i <= k < j]
                    self.emit(st, 'std', q, ('p', ('addr', o), C(0)), vals, NULL, e, fr)
                    for kk in [kk for kk in st.env if kk[0] == 'i' and kk[1] == ('arr', o)]:
                        del st.env[kk]
                    st.env[('vinit', o)] = TRUE
                    st.env[('fill', ('arr', o))] = ('list', tuple(els))
                    st.env[('f', o, '#size')] = C(len(els))
                    return ('p', ('arr', o), C(i))
            old = self.rd(o, st)
            self.emit(st, 'std', q, ('p', ('addr', o), C(0)), vals, NULL, e, fr)
            self.wr(o, ('mut', q, old, tuple(vals)), st)
            return ('LOC', o)
        if nm == 'operator=':
            sl, v = self.lvv(A[0], fr, st)
            self.assigned(o, sl, e, fr, st)
            v = v if sl is None else self.rd(sl, st)
            if v[0] == 'p' and v[1][0] == 'ilist':
                v = ('vec', ('arr', ('vnew', e['l'], self._n())), C(len(v[1][1])), ('list', v[1][1]))
            return self.store(o, v, e, fr, st)
        return NotImplemented

    def asp(self, v):
        return v if v[0] == 'p' else ('p', v, C(0))

    def stdalg(self, e, q, fr, st):
        A = e['a']
        vals = [self.val(a, fr, st) for a in A]
        if q == 'std::copy':
            a, b, d = (self.asp(v) for v in vals[:3])
            n = sub(b[2], a[2]) if a[1] == b[1] else ('op', 'pdiff', vals[1], vals[0])
            self.copy(a, n, d, e, fr, st)
            return ('p', d[1], add(d[2], n))
        if q == 'std::copy_n':
            a, d = self.asp(vals[0]), self.asp(vals[2])
            self.copy(a, vals[1], d, e, fr, st)
            return ('p', d[1], add(d[2], vals[1]))
        if q in ('std::memcpy', 'memcpy', 'std::memmove', 'memmove'):
            ps = [self.asp(v) for v in vals[:2]]
            rs = [p[1][1] if p[1][0] in ('bytes', 'pc') else p[1] for p in ps]
            if all(r[0] == 'addr' for r in rs) and all(p[2] == C(0) for p in ps):
                x = self.rd(rs[1][1], st)
                self.wr(rs[0][1], x[1] if x[0] == 'bits' else ('bits', x), st)
                return vals[0]
            ta = A[1]['ft'] if A[1].get('k') == 'cast' else A[1].get('t', '')
            td = A[0]['ft'] if A[0].get('k') == 'cast' else A[0].get('t', '')
            a, d = self.asp(self.pcast(vals[1], pointee(ta), 'unsigned char')), self.asp(self.pcast(vals[0], pointee(td), 'unsigned char'))
            self.copy(a, vals[2], d, e, fr, st)
            return vals[0]
        if q in ('std::fill', 'std::fill_n', 'std::iota'):
            a = self.asp(vals[0])
            if q == 'std::fill_n':
                n = vals[1]
            else:
                b = self.asp(vals[1])
                n = sub(b[2], a[2]) if a[1] == b[1] else ('op', 'pdiff', vals[1], vals[0])
            v = vals[2] if q != 'std::iota' else add(vals[2], HOLE)
            self.setfill(a[1], a[2], n, v, e, fr, st)
            return ('sym', 'void')
        if q == 'std::transform' and len(vals) == 4:
            a, b, d, fn = self.asp(vals[0]), self.asp(vals[1]), self.asp(vals[2]), vals[3]
            n = sub(b[2], a[2]) if a[1] == b[1] else ('op', 'pdiff', vals[1], vals[0])
            el = self.ldarr(a[1], add(a[2], HOLE), st)
            f = self.db.lam.get(fn[1]) if fn[0] == 'lam' else self.db.byusr.get(fn[2]) if fn[0] == 'fn' else None
            if f is not None and not self.prim(f['fn'], f):
                cap = {k: x for k, x in fn[2] if k != 'this'} if fn[0] == 'lam' else None
                r, _ = self.invoke(f, [el], dict(fn[2]).get('this') if fn[0] == 'lam' else None, st.copy(), cap=cap)
                r = self.asval(r, st)
            else:
                r = ('call', fn[1] if fn[0] == 'fn' else '<f>', (el,))
            self.setfill(d[1], d[2], n, r, e, fr, st)
            return ('sym', 'void')
        self.emit(st, 'std', q, None, vals, NULL, e, fr)
        return ('call', q, tuple(vals))

    def onelems(self, c, base, offs, e, fr, st):
        """value of a closure for the elements of an array"""
        f = self.db.lam.get(c[1]) if c[0] == 'lam' else self.db.byusr.get(c[2]) if c[0] == 'fn' else None
        if f is None or not f.get('body'):
            return None
        vals = []
        for p, o in zip(f['ps'], offs):
            vals.append(('LOC', ('i', base, o)) if isref(p['t']) else self.rd(('i', base, o), st))
        cap = {k: x for k, x in c[2] if k != 'this'} if c[0] == 'lam' else None
        r, _ = self.invoke(f, vals, dict(c[2]).get('this') if c[0] == 'lam' else None, st.copy(), cap=cap)
        return self.asval(r, st)

    def onvals(self, c, vals, fr, st):
        """value of a closure"""
        if c is None:
            return LT(*vals)
        f = self.db.lam.get(c[1]) if c[0] == 'lam' else self.db.byusr.get(c[2]) if c[0] == 'fn' else None
        if f is None or not f.get('body'):
            return None
        s = st.copy()
        av = []
        for p, v in zip(f['ps'], vals):
            v = wrapc(v, cvstrip(unref(p['t'])))
            if isref(p['t']):
                l = ('tmp', ('ov', fr.id, self._n()))
                self.wr(l, v, s)
                v = ('LOC', l)
            av.append(v)
        cap = {k: x for k, x in c[2] if k != 'this'} if c[0] == 'lam' else None
        r, _ = self.invoke(f, av, dict(c[2]).get('this') if c[0] == 'lam' else None, s, cap=cap)
        return self.asval(r, s)

    def ordered(self, nm, vals, e, fr, st):
        """sorting of, and binary search in, known elements"""
        import functools
        a, b = (self.asp(v) for v in vals[:2])
        if not (a[0] == 'p' and b[0] == 'p' and a[1] == b[1]):
            return None
        n = sub(b[2], a[2])
        if not isc(n) or not isc(a[2]) or not 0 <= n[1] <= 400:
            return None
        ls = [('i', a[1], add(a[2], C(k))) for k in range(n[1])]
        els = [self.rd(l, st) for l in ls]
        c = vals[2 if nm == 'sort' else 3] if len(vals) > (2 if nm == 'sort' else 3) else None

        class Open(Exception):
            pass

        def less(x, y):
            r = self.onvals(c, [x, y], fr, st)
            if r is None or not isc(r):
                raise Open
            return r[1] != 0
        try:
            if nm == 'sort':
                els = sorted(els, key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else 1 if less(y, x) else 0))
                fl = st.env.get(('fill', a[1]))
                if fl is not None and fl[0] == 'list' and a[2][1] + n[1] <= len(fl[1]):
                    for l in ls:
                        self.clear(l, st)
                        st.env.pop(l, None)
                    st.env[('fill', a[1])] = ('list', fl[1][:a[2][1]] + tuple(els) + fl[1][a[2][1] + n[1]:])
                    return ('sym', 'void')
                for l, x in zip(ls, els):
                    self.wr(l, x, st)
                return ('sym', 'void')
            w = vals[2]
            lo, k = 0, n[1]
            while k:
                h = k // 2
                if (not less(w, els[lo + h])) if nm == 'upper_bound' else less(els[lo + h], w):
                    lo, k = lo + h + 1, k - h - 1
                else:
                    k = h
            if nm == 'binary_search':
                return C(1 if lo < n[1] and not less(w, els[lo]) else 0)
            return ('p', a[1], add(a[2], C(lo)))
        except Open:
            return None

    def search(self, nm, a, b, c, e, fr, st):
        a, b = self.asp(a), self.asp(b)
        if not (a[0] == 'p' and b[0] == 'p' and a[1] == b[1]):
            return None
        n = sub(b[2], a[2])
        if not isc(n) or not 0 <= n[1] <= (40 if self.constglob is None else 400):
            return None
        rs = []
        for k in range(n[1]):
            r = self.onelems(c, a[1], [add(a[2], C(k))], e, fr, st)
            if r is None:
                return None
            rs.append(r)
        if nm == 'find_if_not':
            rs = [NOT(r) for r in rs]
        if nm in ('find_if', 'find_if_not'):
            v = b
            for k in range(n[1] - 1, -1, -1):
                v = ITE(rs[k], ('p', a[1], add(a[2], C(k))), v)
            return v
        if nm == 'count_if':
            v = C(0)
            for r in rs:
                v = add(v, ITE(r, C(1), C(0)))
            return v
        v = TRUE if nm == 'all_of' else FALSE
        for r in rs:
            v = AND(v, r) if nm == 'all_of' else OR(v, r)
        return NOT(v) if nm == 'none_of' else v

    def minmax(self, vals, e, fr, st):
        a, b = (self.asp(v) for v in vals[:2])
        if not (a[0] == 'p' and b[0] == 'p' and a[1] == b[1]):
            return None
        n = sub(b[2], a[2])
        if not isc(n) or not 0 <= n[1] <= 40:
            return None
        off = lambda k: add(a[2], C(k))

        def less(i, j):
            if len(vals) == 3:
                return self.onelems(vals[2], a[1], [off(i), off(j)], e, fr, st)
            return LT(self.ldarr(a[1], off(i), st), self.ldarr(a[1], off(j), st))
        lo = hi = 0
        for k in range(1, n[1]):
            x, y = less(k, lo), less(k, hi)
            if x not in (TRUE, FALSE) or y not in (TRUE, FALSE):
                return None
            lo = k if x == TRUE else lo
            hi = k if y == FALSE else hi
        return ('agg', 'std::pair', (('first', ('p', a[1], off(lo))), ('second', ('p', a[1], off(hi)))))

    def setfill(self, base, off, n, v, e, fr, st):
        for kk in [kk for kk in st.env if kk[0] == 'i' and kk[1] == base]:
            del st.env[kk]
        st.env[('fill', base)] = ('fillv', off, n, subst(v, {HOLE: HOLE}))
        self.emit(st, 'fill', 'fill', None, (('p', base, off), n, v), NULL, e, fr)

    def copy(self, a, n, d, e, fr, st):
        el = self.ldarr(a[1], add(a[2], HOLE), st)
        vs = None
        if isc(n) and n[1] <= 16:
            vs = [self.ldarr(a[1], add(a[2], C(i)), st) if ('i', a[1], add(a[2], C(i))) not in st.env else st.env[('i', a[1], add(a[2], C(i)))] for i in range(n[1])]
            if any(subst(el, {HOLE: C(i)}) != v for i, v in enumerate(vs)):
                ch = vs[-1]
                for i in range(len(vs) - 2, -1, -1):
                    ch = ITE(EQ(HOLE, C(i)), vs[i], ch)
                el = ch
        self.emit(st, 'copy', 'copy', None, (a, n, d, el), NULL, e, fr)
        if vs is not None:
            for i, v in enumerate(vs):
                self.wr(('i', d[1], add(d[2], C(i))), v, st)
            return
        for kk in [kk for kk in st.env if kk[0] == 'i' and kk[1] == d[1]]:
            del st.env[kk]
        st.env[('fill', d[1])] = ('fillv', d[2], n, el)


def _under(k, loc):
    if k == loc:
        return False
    if k[0] in ('f',):
        x = k[1]
        while True:
            if x == loc:
                return True
            if x[0] == 'f':
                x = x[1]
            else:
                return False
    if k[0] == 'vinit' and k[1] == loc:
        return True
    if k[0] == 'fill' and k[1] == ('arr', loc):
        return True
    if k[0] == 'i' and k[1] == ('arr', loc):
        return True
    return False


def _root(k):
    while k[0] == 'f':
        k = k[1]
    return k
