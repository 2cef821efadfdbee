"""Bit-level normal form of value expressions: which bit of which input ends up where.
Works on two's complement with infinite sign extension; casts truncate and extend.  Used to compare codecs however
they are spelled (shifts, masks, multiplications, divisions, memcpy)."""
from .spec import *

W = {'bool': (1, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1),
     'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}


def subterms(v, heads):
    out, seen = [], set()

    def go(x):
        if not isinstance(x, tuple) or x in seen:
            return
        seen.add(x)
        if x and isinstance(x[0], str) and x[0] in heads:
            out.append(x)
        for y in x:
            go(y)
    go(v)
    return out


def pow2(c):
    if isinstance(c, int) and c > 0 and c & (c - 1) == 0:
        return c.bit_length() - 1
    return None


class BV:
    def __init__(self, typer=lambda a: None, ripple=False):
        self.typer = typer
        self.ripple = ripple
        self.memo = {}

    def atom(self, v, n):
        t = self.typer(v)
        if t in W:
            t = W[t]
        if t is None:
            return [('b', v, k) for k in range(n)]
        w, sg = t
        return [('b', v, k) if k < w else (('b', v, w - 1) if sg else 0) for k in range(n)]

    def bits(self, v, n):
        key = (v, n)
        if key not in self.memo:
            self.memo[key] = self._bits(v, n)
        return self.memo[key]

    def _bits(self, v, n):
        if isc(v):
            c = v[1]
            if isinstance(c, float):
                if c != int(c):
                    return self.atom(v, n)
                c = int(c)
            return [(c >> k) & 1 for k in range(n)]
        h = v[0]
        if h == 'cast' and v[1] in W:
            w, sg = W[v[1]]
            b = self.bits(v[2], max(min(n, w), 1) if n <= w else w)
            if v[1] == 'bool':
                return self.atom(v, n)
            return [b[k] if k < w else (b[w - 1] if sg else 0) for k in range(n)]
        if h in ('&', '|', '^') and len(v) == 2:
            out = None
            for a in v[1]:
                b = self.bits(a, n)
                out = b if out is None else [self.op(h, x, y) for x, y in zip(out, b)]
            return out
        if h == '>>' and len(v) == 3 or h == '>>' and len(v) == 2:
            a, s = (v[1], v[2]) if len(v) == 3 else v[1]
            if isc(s):
                return self.bits(a, n + s[1])[s[1]:]
            return self.atom(v, n)
        if h == '<<':
            a, s = (v[1], v[2]) if len(v) == 3 else v[1]
            if isc(s):
                return ([0] * s[1] + self.bits(a, max(0, n - s[1])))[:n]
            return self.atom(v, n)
        if h == '~':
            return [self.op('^', x, 1) for x in self.bits(v[1], n)]
        if h == 'ite':
            a, b = self.bits(v[2], n), self.bits(v[3], n)
            return [x if x == y else ('ite', v[1], x, y) for x, y in zip(a, b)]
        if h == '/' and len(v) == 3 and isc(v[2]) and pow2(v[2][1]) is not None:
            s = pow2(v[2][1])
            b = self.bits(v[1], 80)
            if b[-1] == 0:
                return (b[s:] + [0] * n)[:n]
        if h == '%' and len(v) == 3 and isc(v[2]) and pow2(v[2][1]) is not None:
            s = pow2(v[2][1])
            b = self.bits(v[1], 80)
            if b[-1] == 0:
                return [b[k] if k < s else 0 for k in range(n)]
        if h == '+' and self.ripple:
            out = [0] * n
            for m, c in v[1]:
                if not isinstance(c, int) or len(m) > 1:
                    return self.atom(v, n)
                x = self.bits(m[0], n) if m else [1] + [0] * (n - 1)
                for j in range(n):
                    if (c >> j) & 1:
                        out = self.addb(out, [0] * j + x[:n - j])
                        if out is None:
                            return self.atom(v, n)
            return out
        if h == '+':
            out = [0] * n
            for m, c in v[1]:
                if not isinstance(c, int):
                    return self.atom(v, n)
                if not m:
                    b = [(c >> k) & 1 for k in range(n)]
                else:
                    s = pow2(c)
                    if len(m) != 1 or s is None:
                        return self.atom(v, n)
                    b = ([0] * s + self.bits(m[0], max(0, n - s)))[:n]
                for k in range(n):
                    if b[k] != 0 and out[k] != 0:
                        return self.atom(v, n)
                    out[k] = out[k] if b[k] == 0 else b[k]
            return out
        return self.atom(v, n)

    @staticmethod
    def addb(x, y):
        out, c = [], 0
        for a, b in zip(x, y):
            t = BV.op('^', a, b)
            out.append(BV.op('^', t, c))
            c = BV.op('|', BV.op('&', a, b), BV.op('&', t, c))
            if c not in (0, 1):
                return None
        return out

    def const(self, v, n=64):
        """the value of v if every bit of it is known"""
        b = self.bits(v, n)
        if any(x not in (0, 1) for x in b):
            return None
        r = sum(x << k for k, x in enumerate(b))
        return r - (1 << n) if b[-1] else r

    def rng(self, v, n=64):
        """bounds of v from its known bits"""
        b = self.bits(v, n)
        if b[-1] not in (0, 1):
            return None
        lo = sum((x if x in (0, 1) else 0) << k for k, x in enumerate(b))
        hi = sum((x if x in (0, 1) else 1) << k for k, x in enumerate(b))
        w = (1 << n) if b[-1] else 0
        return lo - w, hi - w

    def fold(self, v, rounds=40):
        """constants, comparisons and table look-ups decided by the known bits"""
        for _ in range(rounds):
            m = {}
            for x in subterms(v, ('&', '|', '^', '>>', '<<', '+', '/', '%', 'cast', '<', '==', 'ld', 'min', 'max')):
                r = self.fold1(x)
                if r is not None and r != x:
                    m[x] = r
            if not m:
                return v
            v = subst(v, m)
        return v

    def lookup(self, t, i):
        """entry of a constant table at an index of which only some bits may be known"""
        r = self.rng(i)
        if r is None or r[0] < 0 or r[1] >= len(t) or r[1] - r[0] > 255:
            return None
        b = self.bits(i, 64)
        es = {t[k] for k in range(r[0], r[1] + 1) if all(x not in (0, 1) or x == (k >> j) & 1 for j, x in enumerate(b))}
        return es.pop() if len(es) == 1 else None

    def fold1(self, x):
        h = x[0]
        if h == 'ld':
            return self.lookup(x[1][1], x[2]) if x[1][0] == 'ilist' else None
        if h in ('<', '=='):
            if h == '==':
                a, b = self.bits(x[1], 64), self.bits(x[2], 64)
                if a == b:
                    return TRUE
                if any(p in (0, 1) and q in (0, 1) and p != q for p, q in zip(a, b)):
                    return FALSE
            a, b = self.rng(x[1]), self.rng(x[2])
            if a is None or b is None:
                return None
            if h == '<':
                return TRUE if a[1] < b[0] else FALSE if a[0] >= b[1] else None
            return FALSE if a[1] < b[0] or b[1] < a[0] else None
        if h in ('min', 'max'):
            r = [self.rng(y) for y in x[1]]
            for i, y in enumerate(x[1]):
                if r[i] and all(j == i or r[j] and (r[i][1] <= r[j][0] if h == 'min' else r[i][0] >= r[j][1]) for j in range(len(r))):
                    return y
            return None
        c = self.const(x)
        return C(c) if c is not None else None

    @staticmethod
    def op(h, x, y):
        if h == '&':
            if x == 0 or y == 0:
                return 0
            if x == 1:
                return y
            if y == 1 or x == y:
                return x
        elif h == '|':
            if x == 1 or y == 1:
                return 1
            if x == 0:
                return y
            if y == 0 or x == y:
                return x
        else:
            if x == 0:
                return y
            if y == 0:
                return x
            if x == y:
                return 0
            if x == 1 and y == 1:
                return 0
        return (h,) + tuple(sorted((x, y), key=repr))


def be_byte(bv, x, i, nbytes):
    """bits of byte i of the big-endian image of the value x"""
    return bv.bits(x, 8 * nbytes)[8 * (nbytes - 1 - i):8 * (nbytes - i)]


# ---------------------------------------------------------------- content of a local array
def writes(e, base, upto=None):
    """(pc, loops, start, count, elem(i)->value, event) for every write to the array, oldest first"""
    out = []
    for x in e.events:
        if upto is not None and x.seq >= upto.seq:
            break
        if x.kind == 'copy' and x.args[2][0] == 'p' and x.args[2][1] == base:
            out.append((x.pc, x.loops, x.args[2][2], x.args[1], x.args[3], x))
        elif x.kind == 'fill' and x.args[0][0] == 'p' and x.args[0][1] == base:
            out.append((x.pc, x.loops, x.args[0][2], x.args[1], x.args[2], x))
        elif x.kind == 'store' and x.obj and x.obj[0] == 'i' and x.obj[1] == base:
            out.append((x.pc, x.loops, x.obj[2], C(1), x.args[0], x))
    return out


def content(e, base, i, upto=None, init=None, given=TRUE):
    """value of element i (an int) of a local array just before event upto; None if it cannot be told"""
    v = init
    for pc, loops, st, n, el, x in writes(e, base, upto):
        if loops:
            if len(loops) != 1 or not isc(loops[0].trip):
                if not may(st, n, i, loops):
                    continue
                return None
            k = ('k', loops[0].id)
            its = [(subst(st, {k: C(j)}), subst(n, {k: C(j)}), subst(el, {k: C(j)}), subst(AND(*pc), {k: C(j)})) for j in range(loops[0].trip[1])]
        else:
            its = [(st, n, el, AND(*pc))]
        for s, m, w, c in its:
            if not isc(s):
                return None
            if s[1] > i:
                continue
            d = i - s[1]
            if isc(m):
                if d >= m[1]:
                    continue
                hit = TRUE
            else:
                hit = LT(C(d), m)
            c = AND(c, hit)
            w = subst(w, {HOLE: C(d)})
            v = w if implies(given, c) else ITE(c, w, v if v is not None else ('sym', 'uninitialised'))
    return v


def may(st, n, i, loops):
    return True


# ---------------------------------------------------------------- interpretation over known bits
from .sym import Engine, Loop, cvstrip


class BEngine(Engine):
    """the interpreter with machine integers: values are wrapped to the width of their type, and conditions, look-ups and
    values all of whose bits are known are folded"""

    def __init__(self, db, bv, prim=lambda q, f: False):
        super().__init__(db, prim)
        self.bv = bv

    def wrap(self, v, t):
        t = cvstrip(t)
        if t not in W or v is None or not v or v[0] in ('LOC', 'p', 'agg', 'null') or t == 'bool':
            return v
        w, sg = W[t]
        b = self.bv.bits(v, 80)
        if all(x in (0, 1) for x in b[:w]):
            r = sum(x << k for k, x in enumerate(b[:w]))
            return C(r - (1 << w) if sg and b[w - 1] else r)
        if all(x == (b[w - 1] if sg else 0) for x in b[w:]):
            return v
        return ('cast', t, v)

    def f(self, v):
        if v is None or isc(v):
            return v
        return self.bv.fold(v)

    def binop(self, op, a, b, ta, tb, t):
        if op in ('<<', '>>') and not isc(b):
            b = self.f(b)
        if op in ('<<', '>>') and isc(b) and cvstrip(ta) in W and not 0 <= b[1] < max(32, W[cvstrip(ta)][0]):
            return ('sym', 'undefined shift by %d' % b[1])
        r = super().binop(op, a, b, ta, tb, t)
        if op == '>>' and not isc(b):
            b = self.f(b)
            r = ('>>', a, b)
        if cvstrip(t) in ('bool',) or op in ('<', '>', '<=', '>=', '==', '!='):
            return self.f(r)
        return self.wrap(r, t)

    def x_un(self, e, fr, st):
        return self.wrap(super().x_un(e, fr, st), e.get('t', ''))

    def x_cast(self, e, fr, st):
        r = super().x_cast(e, fr, st)
        return self.wrap(r, e['t']) if e['ck'] == 'IntegralCast' else r

    def genloop(self, s, fr, st, cnd, body, inc, post=False, trip=None):
        """loops whose condition is decided by the known bits are unrolled"""
        if trip is not None:
            return super().genloop(s, fr, st, cnd, body, inc, post, trip)
        L = Loop(s.get('l', 0), fr.fn['file'])
        e0, ev0, oc0, nr0 = dict(st.env), list(self.events), dict(self.occ), len(fr.returns)
        for n in range(80):
            if not (post and n == 0):
                c = self.f(cnd(st))
                if not isc(c):
                    break
                if not c[1]:
                    L.trip, L.cond = C(n), FALSE
                    return L
            L.conts, L.breaks, L.exits = [], [], False
            self.ctl.append(L)
            body(st)
            self.ctl.pop()
            if L.conts or L.breaks or L.exits or st.dead or len(fr.returns) > nr0:
                break
            inc(st)
        st.env, st.dead = e0, False
        self.events, self.occ = ev0, oc0
        del fr.returns[nr0:]
        return super().genloop(s, fr, st, cnd, body, inc, post, trip)

    def cond(self, e, fr, st):
        return self.f(super().cond(e, fr, st))

    def ldarr(self, base, idx, st):
        r = super().ldarr(base, idx, st)
        if r[0] == 'ld' and r[1][0] == 'ilist':
            return self.bv.lookup(r[1][1], r[2]) or r
        return r
