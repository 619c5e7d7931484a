"""Cartesian ZDI fields are the spherical components turned into the Cartesian frame; poloidal plus toroidal is the whole."""
from symx.harness import harness
from props.util import *
from props import oracle


def cart(np, th, ph, f):
    st, ct, sp, cp = np.sin(th), np.cos(th), np.sin(ph), np.cos(ph)
    r, p, a = f
    return [r * st * cp + p * ct * cp - a * sp, r * st * sp + p * ct * sp + a * cp, r * ct - p * st]


@harness('C17', cases=lambda tier: [(tuple(keys_upto(2 if tier == 'quick' else 3, 0, 0)), 3, 1), (((1, 0), (3, 2)), 3, 2), (((1, 1),), 1, 1),
                                    (((2, 1), (2, -1)), 2, 1), (((4, 3), (1, 1)), 3, 1)], budget=30,
         bounds='full sets up to degree 2 (thorough 3) and sparse ones up to 4, symbolic coefficients; 1x1 and 1x2 grids of symbolic points, '
                'polar angle in (0, pi), azimuth in [0, 2 pi]')
def cartesian(ctx, keys, width, n):
    np = ctx.np
    t = sym_table(ctx, 'c', keys, width)
    zm = ctx.keep(ctx.mod('zdi_magnetogram').from_coefficients(build(ctx, t, default(ctx, width))))
    pts = [(ctx.angle('polar%d' % i, 0, ctx.PI, los=True, his=True), ctx.angle('azimuth%d' % i, 0, 2 * ctx.PI)) for i in range(n)]
    P, A = ctx.array([[p for p, _ in pts]]), ctx.array([[a for _, a in pts]])
    got = [zm.get_cartesian_field(P, A), zm.get_cartesian_poloidal_field(P, A), zm.get_cartesian_toroidal_field(P, A)]
    want = [[], [], []]
    for p, a in pts:
        w = oracle.zdi_field(ctx, t, p, a)
        want[1].append(cart(np, p, a, (w['rad'], w['pol_pol'], w['azi_pol'])))
        want[2].append(cart(np, p, a, (0.0, w['pol_tor'], w['azi_tor'])))
        want[0].append([x + y for x, y in zip(want[1][-1], want[2][-1])])
    for g, w, name in zip(got, want, ('full', 'poloidal', 'toroidal')):
        ctx.eq(name, g, [w])
    ctx.eq('points', P, [[p for p, _ in pts]])


@harness('C17', cases=[((2, 3), h) for h in LAYOUTS] + [((1, 4), 'rows'), ((3, 1), 'rows'), ((3, 2), 'columns')],
         bounds='grids of 2x3, 1x4 and 3x1 fixed points in four memory layouts with symbolic coefficients; evaluated twice, other points in between')
def grids(ctx, shape, how):
    t = sym_table(ctx, 'c', [(1, 0), (2, 1)], 3)
    zm = ctx.keep(ctx.mod('zdi_magnetogram').from_coefficients(build(ctx, t, default(ctx, 3))))
    pts = [[(0.3 + 0.31 * i + 0.4 * j, 0.2 + 1.1 * i + 0.5 * j) for j in range(shape[1])] for i in range(shape[0])]
    P, A = laid_out(ctx, [[p[0] for p in r] for r in pts], how), laid_out(ctx, [[p[1] for p in r] for r in pts], how)
    want, parts = [], [[], []]
    for r in pts:
        want.append([])
        parts[0].append([])
        parts[1].append([])
        for p, a in r:
            w = oracle.zdi_field(ctx, t, p, a)
            want[-1].append(cart(ctx.np, p, a, (w['rad'], w['pol_pol'] + w['pol_tor'], w['azi_pol'] + w['azi_tor'])))
            parts[0][-1].append(cart(ctx.np, p, a, (w['rad'], w['pol_pol'], w['azi_pol'])))
            parts[1][-1].append(cart(ctx.np, p, a, (0.0, w['pol_tor'], w['azi_tor'])))
    ctx.eq('full', zm.get_cartesian_field(P, A), want)
    zm.get_cartesian_field(P + 0.1, A + 0.1)
    ctx.eq('full again', zm.get_cartesian_field(P, A), want)
    ctx.eq('poloidal', zm.get_cartesian_poloidal_field(P, A), parts[0])
    ctx.eq('toroidal', zm.get_cartesian_toroidal_field(P, A), parts[1])


@harness('C17', cases=[((2, 1), (14, -6)), ((1, 1), (9, 9), (10, 0))],
         bounds='grids of 5 x 9 points, azimuths from -7 to 12, entries of degree up to 14 and both signs of the order, symbolic')
def many_points(ctx, *keys):
    t = sym_table(ctx, 'c', list(keys), 3)
    zm = ctx.keep(ctx.mod('zdi_magnetogram').from_coefficients(build(ctx, t, default(ctx, 3))))
    pts = [[(0.12 + 0.36 * j, -7.0 + 4.4 * i + 0.3 * j) for j in range(9)] for i in range(5)]
    P, A = ctx.array([[p for p, _ in r] for r in pts]), ctx.array([[a for _, a in r] for r in pts])
    want = [[], [], []]
    for r in pts:
        for k in want:
            k.append([])
        for p, a in r:
            w = oracle.zdi_field(ctx, t, p, a)
            want[0][-1].append(cart(ctx.np, p, a, (w['rad'], w['pol_pol'] + w['pol_tor'], w['azi_pol'] + w['azi_tor'])))
            want[1][-1].append(cart(ctx.np, p, a, (w['rad'], w['pol_pol'], w['azi_pol'])))
            want[2][-1].append(cart(ctx.np, p, a, (0.0, w['pol_tor'], w['azi_tor'])))
    for n, w in zip(('get_cartesian_field', 'get_cartesian_poloidal_field', 'get_cartesian_toroidal_field'), want):
        ctx.eq(n, getattr(zm, n)(P, A), w, atol=1e-9)
