"""The coefficient container behaves as a map from (degree, order) to values, over any history of operations."""
from symx.harness import harness
from props.util import *


@harness('C01', cases=lambda tier: [(n, w, '') for n in (1, 2) for w in (1, 2)] +
         ([(3, 1, a + b + c) for a in 'sa' for b in 'sa' for c in 'sa'] if tier != 'quick' else []),
         bounds='histories of up to 2 (thorough 3) set/append operations; degree 0..2 (0..1 for three) and order -3..3 symbolic, so valid and '
                'invalid alike; 1 or 2 complex numbers per entry, symbolic in [-1e4,1e4]', heavy=True)
def history(ctx, steps, width, ops):
    C = ctx.mod('coefficients')
    c = C.Coefficients(default(ctx, width))
    model = {}
    for s in range(steps):
        op = {'s': 'set', 'a': 'append'}[ops[s]] if ops else ctx.choice('op%d' % s, ['set', 'append'])
        l, m = ctx.int('l%d' % s, 0, 2 if steps < 3 else 1), ctx.int('m%d' % s, -3, 3)
        data = [ctx.cplx('d%d.%d' % (s, i)) for i in range(width)]
        arr = ctx.array(data)
        ok, _ = ctx.attempt(lambda: getattr(c, op)(l, m, arr))
        valid = bool(-l <= m) and bool(m <= l) and not (op == 'append' and (l, m) in model)
        ctx.same('step%d.accepted' % s, ok, valid)
        if valid:
            model[(int(l), int(m))] = data
        ctx.give(arr)[0] = 1234.0     # the caller reuses its array
    check_table(ctx, 'final', c, model, width)
    for l in range(0, 4):
        for m in range(-l - 1, l + 2):
            ctx.same('has%d,%d' % (l, m), bool(c.has(l, m)), (l, m) in model)
            if abs(m) <= l:
                ctx.eq('get%d,%d' % (l, m), c.get(l, m), model.get((l, m), [0j] * width), log=False)
    ctx.same('order of contents', [tuple(k) for k, v in c.contents()], sorted(model))
    ctx.eq('default unchanged', c.default_coefficients, [0j] * width)


@harness('C01', cases=lambda tier: [(w,) for w in (1, 2, 3)],
         bounds='one rejected operation (existing key, order out of range, wrong number of values) after 3 entries; '
                'all values symbolic')
def rejected(ctx, width):
    C = ctx.mod('coefficients')
    t = sym_table(ctx, 'c', [(2, -1), (1, 1), (3, 0)], width)
    c = build(ctx, t, default(ctx, width))
    kind = ctx.choice('kind', ['duplicate', 'order', 'order-', 'wide', 'narrow', 'matrix'])
    v = [ctx.cplx('new.%d' % i) for i in range(width)]
    if kind == 'duplicate':
        ctx.raises('duplicate is refused', lambda: c.append(2, -1, ctx.array(v)))
    elif kind == 'order':
        ctx.raises('order above degree is refused', lambda: c.append(4, 5, ctx.array(v)))
        ctx.raises('order above degree is refused by set', lambda: c.set(4, 5, ctx.array(v)))
    elif kind == 'order-':
        ctx.raises('order below -degree is refused', lambda: c.append(4, -5, ctx.array(v)))
        ctx.raises('order below -degree is refused by set', lambda: c.set(4, -5, ctx.array(v)))
    elif kind == 'wide':
        ctx.raises('too many values are refused', lambda: c.append(4, 1, ctx.array(v + [1j])))
    elif kind == 'narrow':
        if width > 1:
            ctx.raises('too few values are refused', lambda: c.append(4, 1, ctx.array(v[:-1])))
    else:
        ctx.raises('a matrix is refused', lambda: c.append(4, 1, ctx.array([v])))
    check_table(ctx, 'unchanged', c, t, width)


@harness('C01', bounds='values given as a scalar, a list and an array; degree and order given as numpy integers; defaults of '
                       'type complex; the returned default array is altered by the caller')
def inputs(ctx):
    C = ctx.mod('coefficients')
    z = ctx.cplx('z')
    np = ctx.np
    deg = np.arange(0, 4)
    how = ctx.choice('how', ['scalar', 'list', 'array', '0d'])
    data = {'scalar': z, 'list': [z], 'array': ctx.array([z]), '0d': ctx.array(z)}[how]
    c = C.Coefficients()
    c.append(deg[3], -deg[2], data)
    ctx.true('found with plain integers', bool(c.has(3, -2)))
    ctx.eq('value', c.get(3, -2), [z])
    c.default_coefficients[0] = 7.0
    ctx.eq('default is protected', c.get(1, 0), [0j])
    ctx.raises('numpy integer is a duplicate', lambda: c.append(deg[3], -deg[2], data))
    c.set(deg[3], -deg[2], 2.0 * z)
    ctx.eq('replaced', c.get(3, -2), [2.0 * z])
    ctx.same('size', c.size, 1)
    d = C.Coefficients()
    ctx.same('a new object is empty', d.size, 0)


@harness('C01', cases=lambda tier: [(w,) for w in (1, 2, 3)],
         bounds='default values given as an array of 1..3 symbolic numbers; the caller alters the array it gave, the array it '
                'got as the default, and the array it got for an unset entry')
def defaults(ctx, width):
    C = ctx.mod('coefficients')
    z = [ctx.cplx('z%d' % i) for i in range(width)]
    v = [ctx.cplx('v%d' % i) for i in range(width)]
    given = ctx.array(z)
    c = C.Coefficients(given)
    c.append(2, 1, ctx.array(v))
    what = ctx.choice('altered', ['given', 'default', 'unset', 'exported', 'none'])
    if what == 'given':
        ctx.give(given)[0] = 1234.0
    elif what == 'default':
        c.default_coefficients[0] = 1234.0
    elif what == 'unset':
        c.get(3, 0)[0] = 1234.0
    elif what == 'exported':
        _, _, a = c.as_arrays()
        a[0] = 1234.0
    ctx.eq('default', c.default_coefficients, z, log=False)
    ctx.eq('unset entry', c.get(1, 0), z, log=False)
    ctx.eq('another unset entry', c.get(3, 0), z, log=False)
    ctx.eq('set entry', c.get(2, 1), v, log=False)
    ctx.same('size', c.size, 1)


@harness('C01', cases=[(w,) for w in (1, 3)], bounds='printed form of sets of up to 3 entries inserted in any of 3 orders, real symbolic values')
def printed(ctx, width):
    C = ctx.mod('coefficients')
    keys = ctx.choice('order', [[(1, 0), (2, -1), (2, 2)], [(2, 2), (1, 0), (2, -1)], [(10, 3), (2, 2)]])
    t = {k: [ctx.real('c%d,%d.%d' % (*k, i), 1.0, 9.0) for i in range(width)] for k in keys}
    c = C.Coefficients(default(ctx, width, False))
    ctx.true('empty', str(c).strip())
    for k in keys:
        c.append(*k, ctx.array(t[k]))
    rows = [x.split(',', 2) for x in str(c).split('\n') if x.count(',') >= 2]
    ctx.same('entries', [(int(r[0]), int(r[1])) for r in rows], sorted(t))
    for r, k in zip(rows, sorted(t)):
        got = [ctx.read_num(x) for x in r[2].replace('[', ' ').replace(']', ' ').split()]
        ctx.close('values%s' % list(k), got, t[k], rel=1e-7)


@harness('C01', cases=[(1,), (3,)],
         bounds='a set of 150 entries of degree up to 60 and orders of both signs in scrambled order, 4 of them symbolic; then one is replaced, one refused and one added')
def large(ctx, width):
    C = ctx.mod('coefficients')
    keys = many_keys(150)
    t = many_table(ctx, keys, width)
    c = ctx.give(build(ctx, t, default(ctx, width)))
    v = [ctx.cplx('new.%d' % i) for i in range(width)]
    c.set(*keys[70], ctx.array(v))
    t[keys[70]] = v
    ctx.raises('duplicate is refused', lambda: c.append(*keys[40], ctx.array(v)))
    c.append(61, 61, ctx.array(v))
    t[(61, 61)] = v
    check_table(ctx, 'final', c, t, width)
    ctx.same('order of contents', [tuple(k) for k, v in c.contents()], sorted(t))
