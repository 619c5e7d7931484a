"""scale, truncated, copy, zeros_like, empty_like and allclose."""
from symx.harness import harness
from props.util import *

KEYS = [(0, 0), (1, -1), (2, 2), (3, 0), (4, 1)]


@harness('C05', cases=[(w, p) for w in (1, 2, 3) for p in (1, -1, 2)],
         bounds='5 entries of 1..3 symbolic numbers; factor per (degree, order) symbolic in [0.5,2]; powers 1, -1, 2')
def scaled(ctx, width, p):
    C = ctx.mod('coefficients')
    t = sym_table(ctx, 'c', KEYS, width)
    c = build(ctx, t, default(ctx, width))
    f = {k: ctx.real('f%d,%d' % k, 0.5, 2) for k in KEYS}
    fn = lambda l, m: f[(int(l), int(m))]
    args = (fn,) if p == 1 and ctx.flag('implicit power') else (fn, p)
    r = c.scale(*args) if ctx.flag('method') else C.scale(c, *args)
    w = lambda k: f[k] if p == 1 else (1 / f[k] if p == -1 else f[k] * f[k])
    check_table(ctx, 'scaled', r, {k: [x * w(k) for x in v] for k, v in t.items()}, width)
    check_table(ctx, 'operand', c, t, width)
    for k, v in r.contents():
        v[0] = 3.0
    check_table(ctx, 'independent', c, t, width)


@harness('C05', cases=[(w,) for w in (1, 2)], bounds='5 entries up to degree 4; limit symbolic in -1..6')
def truncate(ctx, width):
    C = ctx.mod('coefficients')
    t = sym_table(ctx, 'c', KEYS, width)
    c = build(ctx, t, default(ctx, width))
    n = ctx.int('n', -1, 6)
    r = c.truncated(n) if ctx.flag('method') else C.truncated(c, n)
    want = {k: v for k, v in t.items() if bool(k[0] <= n)}
    check_table(ctx, 'truncated', r, want, width)
    for k, v in r.contents():
        v[0] = 3.0
    check_table(ctx, 'operand', c, t, width)


@harness('C05', cases=[(w, cx) for w in (1, 2, 3) for cx in (True, False)],
         bounds='5 entries of 1..3 symbolic numbers, real and complex')
def copies(ctx, width, cx):
    C = ctx.mod('coefficients')
    t = sym_table(ctx, 'c', KEYS, width, cx)
    c = build(ctx, t, default(ctx, width, cx))
    d = c.copy() if ctx.flag('method') else C.copy(c)
    check_table(ctx, 'copy', d, t, width)
    d.set(5, 5, [1.0] * width)
    d.set(4, 1, [2.0] * width)
    for k, v in d.contents():
        v[0] = 3.0
    check_table(ctx, 'original after changing the copy', c, t, width)
    z = C.zeros_like(c)
    check_table(ctx, 'zeros', z, {k: [0.0] * width for k in t}, width)
    for k, v in z.contents():
        v[0] = 3.0
        break
    check_table(ctx, 'zeros do not share storage', z,
                {k: ([3.0] + [0.0] * (width - 1) if i == 0 else [0.0] * width) for i, k in enumerate(sorted(t))}, width)
    e = C.empty_like(c)
    check_table(ctx, 'empty', e, {}, width)
    e.append(1, 1, [1.0] * width)
    check_table(ctx, 'original at the end', c, t, width)
    ctx.eq('default', c.default_coefficients, [0.0] * width)


@harness('C05', cases=[('same',), ('missing',), ('extra',), ('wide',)],
         bounds='2 shared keys plus possibly a missing one; values symbolic in [-10,10]; relative and absolute tolerance given, one of them or none')
def close(ctx, kind):
    C = ctx.mod('coefficients')
    ta = sym_table(ctx, 'a', KEYS[1:3], 1, False)
    tb = sym_table(ctx, 'b', KEYS[1:3], 1, False)
    if kind == 'missing':
        ta.update(sym_table(ctx, 'a', KEYS[3:4], 1, False))
    if kind == 'extra':
        tb.update(sym_table(ctx, 'b', KEYS[3:4], 1, False))
    a = build(ctx, ta, default(ctx, 1, False))
    if kind == 'wide':
        b = build(ctx, sym_table(ctx, 'b', KEYS[1:3], 2, False), default(ctx, 2, False))
        ctx.same('different widths are not close', bool(C.allclose(a, b)), False)
        return
    b = build(ctx, tb, default(ctx, 1, False))
    rtol, atol = ctx.choice('tol', [(0.0, 0.5), (0.125, 0.0), (0.25, 0.25), (0.25, None), (None, 0.25), (None, None)])
    kw = dict(([] if rtol is None else [('rtol', rtol)]) + ([] if atol is None else [('atol', atol)]))
    got = bool(C.allclose(a, b, **kw))
    rtol, atol = 1e-5 if rtol is None else rtol, 1e-8 if atol is None else atol
    each = []
    for k in set(ta) | set(tb):
        x, y = ta.get(k, [0.0])[0], tb.get(k, [0.0])[0]
        if len(kw) < 2:     # with tolerances as small as the default ones, leave out the limit itself
            excess = abs(x - y) - (atol + rtol * abs(y))
            ctx.assume((excess > 1e-6) | (excess < -1e-6) | (abs(x - y) < 1e-9))
        # numpy's definition: the second argument is the reference
        each.append(bool(abs(x - y) <= atol + rtol * abs(y)))
    ctx.same('allclose', got, all(each))
    check_table(ctx, 'first operand', a, ta, 1)
    check_table(ctx, 'second operand', b, tb, 1)


@harness('C05', cases=[(w,) for w in (1, 2, 3, 4)], bounds='3 entries of 1..4 complex numbers which differ in the real or imaginary part of one of them, by a symbolic amount')
def close_one(ctx, width):
    C = ctx.mod('coefficients')
    ta = {k: [complex(1 + l, j - l) for j in range(width)] for l, k in enumerate(KEYS[1:4])}
    d = ctx.real('difference', -2.0, 2.0)
    k, j = ctx.choice('entry', sorted(ta)), ctx.choice('value', list(range(width)))
    tb = {q: list(v) for q, v in ta.items()}
    tb[k][j] = tb[k][j] + (1j * d if ctx.flag('imaginary part') else d)
    a, b = build(ctx, ta, default(ctx, width)), build(ctx, tb, default(ctx, width))
    if ctx.flag('swapped'):
        a, b = b, a
    ctx.assume((abs(d) < 0.499) | (abs(d) > 0.501))
    want = bool(abs(d) <= 0.5)
    ctx.same('allclose', bool(C.allclose(a, b, rtol=0.0, atol=0.5)), want)
    c = C.isclose(a, b, rtol=0.0, atol=0.5)
    ctx.same('each', {q: [bool(x) for x in v] for q, v in c.contents()}, {q: [want or (q, i) != (k, j) for i in range(width)] for q in ta})


@harness('C05', cases=[(1,), (2,)], bounds='100 entries of degree up to 60, 4 of them symbolic: scaled by a function of degree and order, truncated at degrees 0 to 60, compared with one entry changed')
def large(ctx, width):
    C = ctx.mod('coefficients')
    keys = many_keys(100)
    t = many_table(ctx, keys, width)
    c = build(ctx, t, default(ctx, width))
    f = lambda l, m: (2 * l + 1.0) / (5 + m * m)
    check_table(ctx, 'scaled', c.scale(f), {k: [x * f(*k) for x in v] for k, v in t.items()}, width)
    check_table(ctx, 'scaled back', c.scale(f).scale(f, -1), t, width)
    n = ctx.choice('n', [0, 7, 15, 31, 59, 60])
    check_table(ctx, 'truncated', c.truncated(n), {k: v for k, v in t.items() if k[0] <= n}, width)
    d = c.copy()
    check_table(ctx, 'copy', d, t, width)
    changed = ctx.choice('changed', [None, 3, 50, 99])
    if changed is not None:
        k = keys[changed]
        d.set(*k, [x + 1.0 for x in t[k]])
    ctx.same('close', bool(C.allclose(c, d, rtol=0.0, atol=0.125)), changed is None)
