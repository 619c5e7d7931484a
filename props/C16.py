"""Parts of a magnetogram (dipole, restricted, poloidal, toroidal, copy) are the matching terms of the field, and independent."""
from symx.harness import harness
from props.util import *
from props import oracle

KEYS = [(1, 0), (1, 1), (2, 0), (2, 2), (3, 1)]
WIDE = [(0, 0), (1, -1), (1, 1), (2, -2), (16, 3), (30, -30), (40, 12)]


def make(ctx, t, width=3):
    return ctx.keep(ctx.mod('zdi_magnetogram').from_coefficients(build(ctx, t, default(ctx, width))))


def same(ctx, label, zm, want):
    """zm has exactly the coefficients want = {(l, m): [alpha, beta, gamma]}."""
    keys = [(int(l), int(m)) for l, m in zip(zm.degrees_l, zm.orders_m)]
    ctx.same(label + '.keys', keys, sorted(want))
    for n, got in enumerate((zm.alpha, zm.beta, zm.gamma)):
        ctx.eq('%s.%s' % (label, ('alpha', 'beta', 'gamma')[n]), got, [want[k][n] for k in sorted(want)] if want else [])
    if want:
        ctx.eq(label + '.norm', zm.c_lm, [oracle.clm(*k) for k in sorted(want)], log=False)


def field(ctx, label, zm, t):
    th, ph = ctx.angle('polar', 0, ctx.PI, los=True, his=True), ctx.angle('azimuth', 0, 2 * ctx.PI)
    P, A = ctx.array([[th]]), ctx.array([[ph]])
    w = oracle.zdi_field(ctx, t, th, ph)
    ctx.eq(label + ' radial', zm.get_radial_field(P, A), [[w['rad']]])
    ctx.eq(label + ' polar', zm.get_polar_field(P, A), [[w['pol_pol'] + w['pol_tor']]])
    ctx.eq(label + ' azimuthal', zm.get_azimuthal_field(P, A), [[w['azi_pol'] + w['azi_tor']]])


def change(ctx, zm):
    """Write into every coefficient array of zm."""
    ctx.give(zm)
    for a in (zm.alpha, zm.beta, zm.gamma, zm.degrees_l, zm.orders_m):
        if len(a):
            a[0] = 7


@harness('C16', cases=[(w, k) for w in ('copy', 'poloidal', 'toroidal', 'dipole') for k in (0, 1)],
         bounds='5 coefficients of degree up to 3, three symbolic complex numbers each, every point of the sphere; 7 coefficients of degree 0 to 40 '
                'and orders of both signs')
def parts(ctx, which, wide):
    t = sym_table(ctx, 'c', WIDE if wide else KEYS, 3)
    zm = make(ctx, t)
    r = {'copy': zm.copy, 'poloidal': zm.as_poloidal, 'toroidal': zm.as_toroidal, 'dipole': zm.as_dipole}[which]()
    want = {'copy': t, 'poloidal': {k: [v[0], v[1], 0j] for k, v in t.items()}, 'toroidal': {k: [0j, 0j, v[2]] for k, v in t.items()},
            'dipole': {k: v for k, v in t.items() if k[0] == 1}}[which]
    same(ctx, which, r, want)
    same(ctx, 'original', zm, t)
    if not wide:
        field(ctx, which, r, want)
    if ctx.flag('change'):
        change(ctx, r)
        same(ctx, 'original after changing the part', zm, t)
    else:
        change(ctx, zm)
        same(ctx, 'part after changing the original', r, want)


@harness('C16', cases=[(w,) for w in ('degree', 'order', 'both', 'ranges', 'degree and orders', 'degrees and order')],
         bounds='5 coefficients of degree up to 3; limits symbolic integers in -1..4; single limits or ranges')
def restricted(ctx, which):
    t = sym_table(ctx, 'c', KEYS, 3)
    zm = make(ctx, t)
    if which == 'degree':
        a = ctx.choice('a', [0, 1, 2, 3, 5])
        r = zm.as_restricted(degree_l_range=a)
        inside = lambda l, m: l == a
    elif which == 'order':
        a = ctx.choice('a', [0, 1, 2, 4])
        r = zm.as_restricted(order_m_range=a)
        inside = lambda l, m: m == a
    elif which == 'both':
        a, b = ctx.int('a', -1, 4), ctx.int('b', -1, 4)
        r = zm.as_restricted(degree_l_range=(a, b))
        inside = lambda l, m: bool(a <= l) and bool(b >= l)
    elif which == 'degree and orders':
        a, c, d = ctx.int('a', 1, 3), ctx.int('c', 0, 2), ctx.int('d', 0, 4)
        r = zm.as_restricted(ctx.choice('form', [lambda x: x, lambda x: (x,)])(a), (c, d))
        inside = lambda l, m: bool(l == a) and bool(c <= m) and bool(d >= m)
    elif which == 'degrees and order':
        a, b, c = ctx.int('a', 0, 2), ctx.int('b', 1, 4), ctx.int('c', 0, 3)
        r = zm.as_restricted((a, b), ctx.choice('form', [lambda x: x, lambda x: (x,)])(c))
        inside = lambda l, m: bool(a <= l) and bool(b >= l) and bool(m == c)
    else:
        a, b, c, d = ctx.int('a', 0, 2), ctx.int('b', 2, 3), ctx.int('c', 0, 1), ctx.int('d', 0, 3)
        r = zm.as_restricted((a, b), (c, d))
        inside = lambda l, m: bool(a <= l) and bool(b >= l) and bool(c <= m) and bool(d >= m)
    same(ctx, 'restricted', r, {k: v for k, v in t.items() if inside(*k)})
    same(ctx, 'original', zm, t)


@harness('C16', cases=[(w,) for w in ('degree', 'degrees', 'order', 'orders', 'nothing', 'everything')],
         bounds='7 coefficients of degree 0 to 40 and orders of both signs; limits symbolic integers in -50..50')
def wide(ctx, which):
    t = sym_table(ctx, 'c', WIDE, 3)
    zm = make(ctx, t)
    if which == 'everything':
        r, inside = zm.as_restricted(), lambda l, m: True
    elif which == 'nothing':
        a = ctx.choice('empty', [(3, 2), (41, 99)])
        r, inside = zm.as_restricted(degree_l_range=a), lambda l, m: False
    else:
        a, b = ctx.int('a', -50, 50), ctx.int('b', -50, 50)
        ctx.assume(a <= b)
        r = zm.as_restricted(**{'degree': {'degree_l_range': a}, 'degrees': {'degree_l_range': (a, b)}, 'order': {'order_m_range': a},
                                'orders': {'order_m_range': (a, b)}}[which])
        inside = {'degree': lambda l, m: bool(l == a), 'degrees': lambda l, m: bool(a <= l) and bool(l <= b),
                  'order': lambda l, m: bool(m == a), 'orders': lambda l, m: bool(a <= m) and bool(m <= b)}[which]
    same(ctx, 'restricted', r, {k: v for k, v in t.items() if inside(*k)})
    same(ctx, 'original', zm, t)


@harness('C16', cases=[(w,) for w in (1, 2, 3)], bounds='objects made from 1, 2 or 3 numbers per coefficient, symbolic')
def construct(ctx, width):
    t = sym_table(ctx, 'c', KEYS, width)
    c = build(ctx, t, default(ctx, width))
    zm = ctx.keep(ctx.mod('zdi_magnetogram').from_coefficients(c))
    same(ctx, 'magnetogram', zm, {k: v + [0j] * (3 - width) for k, v in t.items()})
    ctx.same('degree', int(zm.degree()), 3)
    change(ctx, zm)
    check_table(ctx, 'coefficients', c, t, width)


@harness('C16', cases=[('limits',), ('parts',)], bounds='150 entries of degree up to 60 and both signs of the order, four of them symbolic; limits given as numbers and ranges')
def many(ctx, which):
    keys = [k for k in many_keys(150) if k != (0, 0)]
    t = many_table(ctx, keys, 3)
    zm = make(ctx, t)
    if which == 'parts':
        for r, want in ((zm.as_poloidal(), {k: [v[0], v[1], 0j] for k, v in t.items()}), (zm.as_toroidal(), {k: [0j, 0j, v[2]] for k, v in t.items()}),
                        (zm.as_dipole(), {k: v for k, v in t.items() if k[0] == 1}), (zm.copy(), t)):
            same(ctx, 'part', r, want)
    else:
        for dl, ol in ((30, None), ((20, 40), None), (None, 12), ((10, 55), (-30, 7)), (None, (-60, -5))):
            kw = dict([('degree_l_range', dl)] * (dl is not None) + [('order_m_range', ol)] * (ol is not None))
            two = lambda x: (-99, 99) if x is None else x if isinstance(x, tuple) else (x, x)
            (d0, d1), (o0, o1) = two(dl), two(ol)
            same(ctx, 'restricted', zm.as_restricted(**kw), {k: v for k, v in t.items() if d0 <= k[0] <= d1 and o0 <= k[1] <= o1})
    same(ctx, 'original', zm, t)
