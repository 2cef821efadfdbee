"""Tapers and automatic gain control.  The windows are decided by abstract execution on tokens for small signals: which samples each call
of the ramp or gain function is for, and what each sample is multiplied with.  The functions themselves are extracted as closed forms of
their samples, and the forms are compared with the definition by evaluation of both at fixed points."""
import itertools, math
from checks.common import *

FLOOR = 100
U = 'exseis::utils::'
ONE = ('call', 'ramp', ())


def check(ctx):
    ctx.rule('R1', 'a taper scales the samples of both ends by the ramp, from the first live sample on, and no other')
    ctx.rule('R2', 'a ramp rises from nothing at its outer end to one at its inner end')
    ctx.rule('R3', 'gain control scales each sample by the gain of the window around it, taken from the input')
    ctx.rule('R4', 'a gain is the target over the measure of the window it is named for')
    ctx.db()
    jobs = [(tapers, (q, n)) for q in ('taper', 'exseis_taper') for n in (1, 2, 3, 4, 5)]
    jobs += [(agc, (q, n)) for q in ('AGC', 'exseis_AGC') for n in (2, 3, 4, 5, 6, 8, 9)]
    jobs += [(ramp, q) for q in RAMP] + [(gain, q) for q in GAIN]
    ctx.pmap(lambda c, j: j[0](c, j[1]), jobs)


def one(ctx, q):
    l = [f for f in ctx.db().fns if f['fn'] == U + q and f.get('body')]
    ctx.need(len({(f['file'], f['line']) for f in l}) == 1, 'one function ' + q)
    return l[0]


def samples(f, k, vals):
    """a signal, as parameter k, of the given samples"""
    a = ('arr', ('given', 'signal'))
    return a, {('i', a, C(i)): v for i, v in enumerate(vals)}


def tok(i):
    return C(1009 + 10 * i)


def tapers(ctx, job):
    q, n = job
    f = one(ctx, q)
    call = lambda e, obj, args: ('call', 'ramp', tuple(args))
    small = [C(-7), C(11), ('f', '-1e-09'), C(5), C(-3), ('f', '1e-09')]
    for z, live in itertools.product(range(n + 1), ([tok(i) for i in range(n)], small, small[1:] + small[:1], small[2:] + small[:2], small[5:] + small[:5])):
        a, env = samples(f, 1, [C(0) if i < z else live[i - z] for i in range(n)])
        for l, r in itertools.product(range(n + 1), repeat=2):
            inst = 'samples %s, %d and %d to taper' % (' '.join(show(env[('i', a, C(i))]) for i in range(n)), l, r)
            e = ctx.summary(f, args=[C(n), PTR, None, C(l), C(r)], env=env, unroll=n + 4, model={'<indirect>': call}, mpi_ok=True, maxrec=4)
            L, R = min(l, n - z), min(r, n - z)
            for i in range(n):
                w = env[('i', a, C(i))]
                if i >= z and i - z < L:
                    w = mul(w, ('call', 'ramp', (C(i - z + 1), C(L))))
                if i >= z and i >= n - R:
                    w = mul(w, ('call', 'ramp', (C(n - i), C(R))))
                got = e.rd(('i', a, C(i)), e.final)
                ctx.req(same(got, w), 'R1', '%s: sample %d' % (inst, i), f, 'becomes %s' % show(got)[:150])


def num(v, m):
    """value of a closed form"""
    if v in m:
        return m[v]
    k = v[0]
    if isc(v):
        return v[1]
    n = lambda x: num(x, m)
    if k == 'f':
        return float(v[1])
    if k in ('f32', 'f64'):
        return n(v[1])
    if k == '+':
        return sum(c * math.prod(n(x) for x in xs) for xs, c in v[1])
    if k in ('f/', '/'):
        a, b = n(v[1]), n(v[2])
        return a / b if b else math.nan if not a or a != a else math.copysign(math.inf, a)
    if k in ('max', 'min'):
        return (max if k == 'max' else min)(n(x) for x in v[1])
    if k == 'not':
        return 1 - int(bool(n(v[1])))
    if k == '==':
        return int(n(v[1]) == n(v[2]))
    if k in ('<', 'lt'):
        return int(n(v[1]) < n(v[2]))
    if k == 'ite':
        return n(v[2]) if n(v[1]) else n(v[3])
    if k == 'call' and v[1].split('::')[-1] in FUN:
        return FUN[v[1].split('::')[-1]](*(n(x) for x in v[2]))
    raise KeyError(k)


FUN = {'abs': abs, 'fabs': abs, 'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan, 'cos': math.cos, 'sin': math.sin, 'pow': pow, 'fmax': max, 'fmin': min}


def value(ctx, v, m):
    try:
        return num(v, m)
    except (KeyError, IndexError, TypeError) as x:
        ctx.need(False, 'the closed form of a gain or ramp: %s in %s' % (x, show(v)[:150]))


def near(a, b):
    return abs(a - b) <= 1e-5 * max(1, abs(a), abs(b))


def ramp(ctx, q):
    f = one(ctx, q)
    e = ctx.summary(f)
    w, r = (S(p['n']) for p in f['ps'])
    for n in (1, 2, 5, 16):
        for i in range(n + 1):
            x = i / n
            want = {'linear': x, 'cosine': .5 - .5 * math.cos(math.pi * x), 'cosine_square': (.5 - .5 * math.cos(math.pi * x))**2}[q.replace('exseis_', '')[:-6]]
            got = value(ctx, e.ret, {w: float(i), r: float(n)})
            ctx.req(near(got, want), 'R2', '%d of %d' % (i, n), f, 'is %.6g instead of %.6g' % (got, want))


def agc(ctx, job):
    q, n = job
    f = one(ctx, q)
    a, env = samples(f, 1, [tok(i) for i in range(n)])
    for w in range(1, n):
        w2 = w // 2
        if 2 * w2 + 1 >= n:
            continue
        inst = '%d samples, window of %d' % (n, w)
        calls = []

        def call(e, obj, args):
            calls.append(args)
            return ('call', 'gain', (C(len(calls) - 1),))

        def snap(e, st, ev):
            if ev.name == '<indirect>' and ev.args[0][0] == 'p' and isc(ev.args[1]):
                return {'win': [e.rd(('i', ev.args[0][1], add(ev.args[0][2], C(k))), st) for k in range(ev.args[1][1])]}
        e = ctx.summary(f, args=[C(n), PTR, None, C(w), None], env=env, unroll=n + 4, model={'<indirect>': call}, mpi_ok=True, snap=snap)
        ev = [x for x in e.events if x.name == '<indirect>']
        for i in range(n):
            got = e.rd(('i', a, C(i)), e.final)
            g = atoms(got, lambda y: y[0] == 'call' and y[1] == 'gain')
            if not ctx.req(len(g) == 1 and same(got, mul(env[('i', a, C(i))], list(g)[0])), 'R3', '%s: sample %d' % (inst, i), f, 'becomes %s' % show(got)[:150]):
                continue
            x = ev[list(g)[0][2][0][1]]
            lo, hi = max(0, i - w2), min(n - 1, i + w2)
            ctx.req(x.mem.get('win') == [tok(k) for k in range(lo, hi + 1)], 'R3', '%s: window of sample %d' % (inst, i), x, 'is %s instead of samples %d to %d' % ([show(y) for y in x.mem.get('win', ())], lo, hi))
            ctx.req(x.args[2] == S(f['ps'][4]['n']) and x.args[3] == C(i - lo), 'R3', '%s: target and centre for sample %d' % (inst, i), x, 'are %s and %s' % (show(x.args[2]), show(x.args[3])))


RAMP = ['linear_taper', 'cosine_taper', 'cosine_square_taper']
RAMP += ['exseis_' + x for x in RAMP]
GAIN = ['rectangular_RMS_gain', 'triangular_RMS_gain', 'mean_abs_gain', 'median_gain']
GAIN += ['exseis_' + x for x in GAIN]


PTR = ('p', ('arr', ('given', 'signal')), C(0))
SIG = [3, -5, 2, 7, -4, 6, 1, -2]


def measure(kind, s, c):
    num = max(1, sum(x != 0 for x in s))
    if kind == 'rectangular_RMS':
        return math.sqrt(sum(x * x for x in s) / num)
    if kind == 'triangular_RMS':
        h = max(c, len(s) - 1 - c, 1)
        return math.sqrt(sum((x * (1 - abs(i - c) / h))**2 for i, x in enumerate(s)) / num)
    if kind == 'mean_abs':
        return sum(abs(x) for x in s) / num
    t = sorted(s)
    n = len(t)
    return t[n // 2] if n % 2 else (t[n // 2 - 1] + t[n // 2]) / 2


def gain(ctx, q):
    f = one(ctx, q)
    kind = q.replace('exseis_', '')[:-5]
    target = S(f['ps'][2]['n'])
    for n in (1, 2, 3, 4, 5, 6):
        for c in range(n):
            if kind != 'triangular_RMS' and c != n // 2:
                continue
            for what, fn in (('', lambda x: abs(x)), (' of both signs', lambda x: x), (' with zeros', lambda x: abs(x) * (x != 2 and x != 6))):
                vals = [fn(x) for x in SIG[:n]]
                m = measure(kind, vals, c)
                if m == 0 or kind == 'median' and what:
                    continue
                toks = [C(v) if kind == 'median' else S('s%d' % i) for i, v in enumerate(vals)]
                a, env = samples(f, 0, toks)
                e = ctx.summary(f, args=[PTR, C(n), None, C(c)], env=env, unroll=n + 4)
                got = value(ctx, e.ret, dict([(target, 10.)] + [(t, float(v)) for t, v in zip(toks, vals) if not isc(t)])) if not contains(e.ret, lambda y: y[0] in ('outel', 'ld')) else math.nan
                t = sorted(vals)
                w = 'windows of %s' % ('odd' if n % 2 else 'even') if kind == 'median' else 'window%s' % what if kind == 'mean_abs' else 'window of %d%s, centre %d' % (n, what, c)
                if kind == 'median' and n == 2 and got != got:
                    w = 'a window of two reads beyond its end'
                elif kind == 'median' and n % 2 == 0 and n > 2 and near(got, 20. / (t[n // 2] + t[n // 2 + 1])):
                    w = 'the mean of the two samples above the middle of an even number'
                ctx.req(near(got, 10. / m), 'R4', w, f, 'of %s is %.6g instead of %.6g' % (vals, got, 10. / m))
