"""Superposition: everything a magnetogram is turned into is linear in its coefficients, its energies quadratic."""
from symx.harness import harness
from props.util import *
from props import relations as rel

WAYS = {'zdi field': (rel.ZDI_KEYS, 3), 'curve': (rel.ZDI_KEYS, 3), 'pfss field': (rel.PFSS_KEYS, 1), 'image': (rel.ZDI_KEYS, 1),
        'pfss': (rel.PFSS_KEYS, 1), 'zdi': (rel.PFSS_KEYS, 1), 'rotated': (rel.ZDI_KEYS[:3], 1), 'scaled': (rel.ZDI_KEYS, 2)}


def way(ctx, which):
    """The function from a set to its results."""
    if which in ('zdi field', 'curve'):
        f = rel.zdi_fields(ctx, rel.point(ctx)) if which == 'zdi field' else rel.zdi_curve(ctx)
        return lambda c: f(ctx.keep(rel.zdi(ctx, c)))
    if which == 'pfss field':
        return rel.pfss_fields(ctx, rel.point(ctx))
    return {'image': rel.image, 'pfss': rel.to_pfss, 'zdi': rel.to_zdi, 'rotated': rel.rotated, 'scaled': rel.scaled}[which](ctx)


def flat(x):
    from symx.ctx import elems
    return elems(x)[1]


@harness('C38', cases=[(w, how) for w in WAYS for how in ('both', 'overlap', 'cancel', 'tiny')], budget=60,
         bounds='two sets of up to 4 entries of degree up to 4 with symbolic values and a symbolic factor in [-4, 4]: the same entries, overlapping ones, '
                'a set minus itself, and one set a millionth of the other; the fields at symbolic points, the curve of a 2 x 3 grid, an image of 3 x 2 cells, '
                'conversions, one rotation')
def superposition(ctx, which, how):
    keys, width = WAYS[which]
    f = way(ctx, which)
    ka, kb = {'both': (keys, keys), 'overlap': (keys[:-1], keys[1:]), 'cancel': (keys, keys), 'tiny': (keys, keys[:2])}[how]
    ta, tb = sym_table(ctx, 'a', ka, width), sym_table(ctx, 'b', kb, width)
    s = ctx.real('s', -4.0, 4.0)
    if how == 'cancel':
        tb, s = ta, -1.0
    elif how == 'tiny':
        s = 1e-6 * s
    a, b = build(ctx, ta, default(ctx, width)), build(ctx, tb, default(ctx, width))
    fa, fb, fab = f(a), f(b), f(a + s * b)
    for n in sorted(set(fa) | set(fb) | set(fab)):
        zero = [0.0] * len(flat((fa.get(n) if n in fa else fb.get(n) if n in fb else fab.get(n))))
        x, y = [flat(q[n]) if n in q else zero for q in (fa, fb)]
        z = flat(fab[n]) if n in fab else zero
        ctx.eq(n, z, [u + s * v for u, v in zip(x, y)], atol=1e-9)


@harness('C38', cases=[('alike',), ('weak',), ('strong',)], budget=60, bounds='folding of the negative orders of two sets of degree up to 3 with symbolic values, the second alike, a thousand '
         'million times weaker or stronger and on the negative orders only')
def folding(ctx, how):
    fold = ctx.mod('converter').map_to_positive_orders
    ta = sym_table(ctx, 'a', [(1, 1), (3, 2)] + ([(3, -2)] if how == 'alike' else []), 1)
    tb = sym_table(ctx, 'b', [(1, -1), (3, -2)], 1)
    s = {'alike': 1.0, 'weak': 1e-9, 'strong': 1e9}[how]
    a, b = [build(ctx, t, default(ctx, 1)) for t in (ta, tb)]
    fa, fb, fab = [rel.entries(fold(x)) for x in (a, b, a + s * b)]
    for k in sorted(fab):
        x, y = fa.get(k, [0.0])[0], fb.get(k, [0.0])[0]
        ctx.eq('folded %d %d' % k, fab[k], [x + s * y], atol=1e-9 if how == 'alike' else 1e-12 if how == 'weak' else 1.0)


@harness('C38', cases=lambda tier: [(1, 3), (2, 2), (3, 1)] + ([(2, 3), (3, 3)] if tier != 'quick' else []), budget=60, bounds='two sets of 1 to 3 entries of degree up to 3 with symbolic values, a symbolic factor in [0.1, 4]; energies and the '
         'energy matrices')
def energies(ctx, width, n):
    keys = [(1, 0), (2, -1), (3, 2)][-n:]
    ta, tb = sym_table(ctx, 'a', keys, width), sym_table(ctx, 'b', keys, width)
    s = ctx.real('s', 0.1, 4.0)
    a, b = build(ctx, ta, default(ctx, width)), build(ctx, tb, default(ctx, width))

    def e(c):
        z = ctx.keep(rel.zdi(ctx, c))
        return [flat(list(z.energy(dest={}))), flat(list(z.energy_matrix()))]
    ea, eb, es, ep, em = e(a), e(b), e(s * a), e(a + b), e(a - b)
    for i, n in enumerate(('energies', 'matrices')):
        ctx.eq(n + ' of a multiple', es[i], [s * s * x for x in ea[i]], atol=1e-9)
        ctx.eq(n + ' of sum and difference', [x + y for x, y in zip(ep[i], em[i])], [2 * (x + y) for x, y in zip(ea[i], eb[i])], atol=1e-9)


@harness('C38', cases=[('image',), ('maps',), ('weak image',), ('weak maps',)], budget=60,
         bounds='images of 2 x 3 pixels and triples of field maps on 4 x 3 cells with two symbolic cells each, a symbolic factor in [-4, 4]; an axisymmetric image or field of 1000 units with '
                'another of a thousandth of a unit, one cell symbolic')
def analysis(ctx, which):
    s = ctx.real('s', -4.0, 4.0)
    which, weak = which.split()[-1], 'weak' in which
    if which == 'image':
        I = ctx.mod('image_converter')
        u = [[[ctx.real('%s%d%d' % (n, i, j), lin=True) for j in range(3)] for i in range(2)] for n in 'uv']
        if weak:
            u = [[[1000.0, 0.0, -1000.0]] * 2, [[0.001 * ctx.real('w'), 0.001, -0.002], [0.0, -0.003, 0.001]]]
        f = lambda im: {str(k): v for k, v in rel.entries(I.from_image(ctx.array(im), None, 4)[0]).items()}
    else:
        V = ctx.mod('converter')
        g = ctx.keep(ctx.mod('geometry').ZdiGeometry(4, 5))
        P, A = g.centers()
        u = []
        for n in 'uv':
            m = [[[0.5 * i - j + k for j in range(3)] for i in range(4)] for k in range(3)]
            for k in range(3):
                m[k][k][1], m[k][3][k] = ctx.real('%s%d' % (n, k)), ctx.real('%s%d_' % (n, k))
            u.append(m)
        if weak:
            u[0] = [[[1000.0 * x, 1000.0 * y, 1000.0 * x]] * 4 for x, y in ((1.0, 0.0), (0.5, 1.0), (0.5, -1.0))]
            u[0][0] = [[1000.0, 0.0, -1000.0]] * 4
            u[1] = [[[0.001 * (x + 1.0), -0.002 * x, 0.001] for x in (1.0, -1.5, 0.5, 0.0)] for k in range(3)]
            for k in range(3):
                u[1][k][k][1] = 0.001 * ctx.real('w%d' % k)

        def f(m):
            c = V.convert_latlon_to_zdi_coeffs(P, A, *[ctx.array(x) for x in m], max_degree=2)
            return {str(k): v for k, v in rel.entries(c).items()}

    def mix(x, y):
        return [mix(p, q) for p, q in zip(x, y)] if isinstance(x, list) else x + s * y
    a, b, ab = f(u[0]), f(u[1]), f(mix(u[0], u[1]))
    ctx.same('entries', (sorted(ab), sorted(b)), (sorted(a), sorted(a)))
    for n in a:
        ctx.eq(n, ab[n], [x + s * y for x, y in zip(a[n], b[n])], atol=1e-9)
