"""Arithmetic on coefficient sets is pointwise over the union of the entries and leaves its operands alone."""
from symx.harness import harness
from props.util import *

KEYS = [(1, 0), (1, -1), (2, 2)]


def operands(ctx, width, patterns):
    """Two tables; for each key a choice of the pattern: in the first, the second, both."""
    ta, tb = {}, {}
    for i, k in enumerate(KEYS[:patterns]):
        w = ctx.choice('in%d' % i, ['a', 'b', 'ab', ''])
        if 'a' in w:
            ta.update(sym_table(ctx, 'a', [k], width))
        if 'b' in w:
            tb.update(sym_table(ctx, 'b', [k], width))
    return ta, tb


def zeros(w):
    return [0j] * w


def intact(ctx, label, res, objs, tables, width):
    """Operands unchanged, also after the caller writes into the result."""
    for c, t, n in zip(objs, tables, 'ab'):
        check_table(ctx, '%s.operand %s' % (label, n), c, t, width)
    for k, v in res.contents():
        v[0] = 99.0
    res.set(7, 0, [1.0] * width)
    for c, t, n in zip(objs, tables, 'ab'):
        check_table(ctx, '%s.independent %s' % (label, n), c, t, width)


@harness('C02', cases=lambda tier: [(op, w, 2 if tier == 'quick' else 3) for op in ('add', 'sub', 'mul') for w in (1, 2)],
         bounds='two sets over up to 2 (thorough 3) keys, each key in neither, either or both; 1 or 2 symbolic complex numbers each')
def binary(ctx, op, width, patterns):
    ta, tb = operands(ctx, width, patterns)
    a, b = build(ctx, ta, default(ctx, width)), build(ctx, tb, default(ctx, width))
    f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
    r = f(a, b)
    want = {k: [f(x, y) for x, y in zip(ta.get(k, zeros(width)), tb.get(k, zeros(width)))] for k in set(ta) | set(tb)}
    check_table(ctx, op, r, want, width)
    intact(ctx, op, r, (a, b), (ta, tb), width)


@harness('C02', cases=[(w,) for w in (1, 2, 3)],
         bounds='three entries; the number symbolic real or complex, or fixed; product from either side and quotient')
def scalar(ctx, width):
    t = sym_table(ctx, 'a', KEYS, width)
    a = build(ctx, t, default(ctx, width))
    kind = ctx.choice('kind', ['real', 'complex', 'int', 'float'])
    s = {'real': lambda: ctx.real('s', 0.5, 4), 'complex': lambda: ctx.cplx('s', 0.5, 4), 'int': lambda: 3,
         'float': lambda: -0.5}[kind]()
    op = ctx.choice('op', ['mul', 'rmul', 'div'])
    r = {'mul': lambda: a * s, 'rmul': lambda: s * a, 'div': lambda: a / s}[op]()
    want = {k: [(x / s if op == 'div' else x * s) for x in v] for k, v in t.items()}
    check_table(ctx, op, r, want, width)
    intact(ctx, op, r, (a,), (t,), width)


@harness('C02', cases=[(p,) for p in (-1, 1, 2, 3)],
         bounds='two entries of 2 complex numbers with real part in [0.5, 3]; integer powers -1, 1, 2, 3')
def power(ctx, p):
    t = {}
    for l, m in KEYS[:2]:
        t[(l, m)] = [ctx.real('re%d%d.%d' % (l, m, i), 0.5, 3) + 1j * ctx.real('im%d%d.%d' % (l, m, i), -3, 3) for i in range(2)]
    a = build(ctx, t, default(ctx, 2))
    r = a ** p
    want = {}
    for k, v in t.items():
        want[k] = []
        for x in v:
            y = x
            for _ in range(abs(p) - 1):
                y = y * x
            want[k].append(1 / y if p < 0 else y)
    check_table(ctx, 'power', r, want, 2)
    intact(ctx, 'power', r, (a,), (t,), 2)


@harness('C02', cases=[(c, p) for c in (False, True) for p in (0, 0.5, 1.5, 2.5, -0.5, -2, 2.0)],
         bounds='three entries of 2 positive numbers in [0.5, 3], of real or complex type; powers 0, 0.5, 1.5, 2.5, -0.5, -2, 2.0')
def real_power(ctx, cplx, p):
    t, want = {}, {}
    for l, m in KEYS[:3]:
        t[(l, m)] = [ctx.real('x%d%d.%d' % (l, m, i), 0.5, 3) for i in range(2)]
        roots = [ctx.np.sqrt(x) for x in t[(l, m)]]
        want[(l, m)] = []
        for x, q in zip(t[(l, m)], roots):
            y = 1.0
            for _ in range(int(abs(2 * p))):
                y = y * q
            want[(l, m)].append(1 / y if p < 0 else y)
    a = build(ctx, t, default(ctx, 2, cplx))
    r = a ** p
    check_table(ctx, 'power', r, want, 2)
    intact(ctx, 'power', r, (a,), (t,), 2)


@harness('C02', cases=[(w,) for w in (1, 2)], bounds='sets of real numbers (width 1, 2); a chain a + b - 2*a, a self-sum and the '
         'module-level functions')
def chain(ctx, width):
    C = ctx.mod('coefficients')
    ta, tb = sym_table(ctx, 'a', KEYS, width, False), sym_table(ctx, 'b', KEYS[1:], width, False)
    a, b = build(ctx, ta, default(ctx, width, False)), build(ctx, tb, default(ctx, width, False))
    z = [0.0] * width
    ctx_t = lambda f: {k: [f(x, y) for x, y in zip(ta.get(k, z), tb.get(k, z))] for k in set(ta) | set(tb)}
    check_table(ctx, 'chain', a + b - 2 * a, ctx_t(lambda x, y: y - x), width)
    check_table(ctx, 'self sum', a + a, {k: [x + x for x in v] for k, v in ta.items()}, width)
    check_table(ctx, 'self difference', b - b, {k: z for k in tb}, width)
    check_table(ctx, 'add function', C.add(b, a), ctx_t(lambda x, y: x + y), width)
    check_table(ctx, 'multiply function', C.multiply(b, a), ctx_t(lambda x, y: x * y), width)
    check_table(ctx, 'operand', a, ta, width)
    check_table(ctx, 'operand b', b, tb, width)
    c = C.Coefficients(default(ctx, width + 1, False))
    ctx.raises('different widths are refused', lambda: a + c)
    ctx.raises('different widths are refused by mul', lambda: a * c)


@harness('C02', cases=[(1,), (3,)], bounds='sets of 80 and 60 entries of degree up to 60, partly the same, 4 of each symbolic: sum, difference, product with a number and square')
def large(ctx, width):
    ka, kb = many_keys(80), many_keys(110)[50:]
    ta, tb = many_table(ctx, ka, width, 'a'), many_table(ctx, kb, width, 'b')
    a, b = build(ctx, ta, default(ctx, width)), build(ctx, tb, default(ctx, width))
    s = ctx.real('s', 0.5, 4)
    z = zeros(width)
    both = set(ka) | set(kb)
    check_table(ctx, 'sum', a + b, {k: [x + y for x, y in zip(ta.get(k, z), tb.get(k, z))] for k in both}, width)
    check_table(ctx, 'difference', a - b, {k: [x - y for x, y in zip(ta.get(k, z), tb.get(k, z))] for k in both}, width)
    check_table(ctx, 'product', a * s, {k: [x * s for x in v] for k, v in ta.items()}, width)
    check_table(ctx, 'square', b ** 2, {k: [x * x for x in v] for k, v in tb.items()}, width)
    check_table(ctx, 'first operand', a, ta, width)
    check_table(ctx, 'second operand', b, tb, width)


KINDS = {'whole': (int, False), 'real': (float, False), 'complex': (complex, True)}


def typed(ctx, tag, kind, keys):
    """A set whose default has the given type, holding numbers of that type (whole numbers are fixed)."""
    if kind == 'whole':
        t = {k: [3 - 2 * i] for i, k in enumerate(keys)}
    else:
        t = sym_table(ctx, tag, keys, 1, KINDS[kind][1])
    return t, build(ctx, t, ctx.np.zeros(1, dtype=KINDS[kind][0]))


@harness('C02', cases=[(a, b) for a in KINDS for b in KINDS],
         bounds='sets of whole, real and complex numbers combined in every way: sum, difference, product, quotient of sets; two entries each')
def mixed(ctx, one, other):
    ta, a = typed(ctx, 'a', one, KEYS[:2])
    tb, b = typed(ctx, 'b', other, KEYS[1:])
    z = [0]
    both = set(ta) | set(tb)
    for label, f in (('sum', lambda x, y: x + y), ('difference', lambda x, y: x - y), ('product', lambda x, y: x * y)):
        r = f(a, b)
        check_table(ctx, label, r, {k: [f(x, y) for x, y in zip(ta.get(k, z), tb.get(k, z))] for k in both}, 1)
        if one != 'whole' or other != 'whole':
            # what is added later has the type of the result
            v = ctx.cplx('late') if 'complex' in (one, other) else ctx.real('late')
            r.set(8, 0, v)
            ctx.eq(label + ' later', r.get(8, 0), [v])
    check_table(ctx, 'operand', a, ta, 1)
    check_table(ctx, 'other operand', b, tb, 1)


@harness('C02', cases=[(k,) for k in KINDS], bounds='sets of whole, real and complex numbers multiplied or divided by a whole, real, complex or numpy integer '
         'number, and whole and real sets to the powers 0.5, 2, -1.0; two entries each')
def mixed_scalar(ctx, kind):
    np = ctx.np
    ta, a = typed(ctx, 'a', kind, KEYS[:2])
    s = {'int': lambda: 4, 'numpy': lambda: np.int64(4), 'real': lambda: ctx.real('s', 0.5, 4), 'complex': lambda: ctx.cplx('s', 0.5, 4)}
    for name, make in s.items():
        v = make()
        for label, f in (('product', lambda x: x * v), ('product from the left', lambda x: v * x if name != 'numpy' else x * v), ('quotient', lambda x: x / v)):
            check_table(ctx, '%s %s' % (label, name), f(a), {k: [f(x) for x in d] for k, d in ta.items()}, 1)
    if kind != 'complex':
        c = ctx.real('c', 0.5, 3) if kind == 'real' else 3
        b = build(ctx, {(1, 0): [c], (2, 1): [5]}, np.zeros(1, dtype=KINDS[kind][0]))
        for p in (0.5, 2, -1.0):
            w = lambda x: np.sqrt(x) if p == 0.5 else x * x if p == 2 else 1.0 / x
            check_table(ctx, 'power %s' % p, b ** p, {(1, 0): [w(c)], (2, 1): [w(5)]}, 1)
    check_table(ctx, 'operand', a, ta, 1)
