"""ZDI field components equal their series definition everywhere on the sphere."""
import math
from symx.harness import harness
from props.util import *
from props import oracle


def _case(tier):
    L = 3 if tier == 'quick' else 5
    out = [(tuple(keys_upto(L, 0, 0)), 3), (((1, 0), (3, 2), (2, 1)), 1), (((2, 2), (1, 1)), 2), (((1, -1), (2, -2), (2, 1)), 3)]
    return out + ([(((l, m),), 3) for l, m in keys_upto(8, 6, 0)] if tier != 'quick' else [(((4, 1),), 3), (((5, 5),), 3), (((9, 4),), 3), (((12, 12),), 3), (((16, 13),), 2), (((20, 18), (11, 9)), 3), (((0, 0), (1, 1)), 3)])


@harness('C15', cases=_case, budget=30,
         bounds='1x1 point grids; polar angle in (0, pi) and azimuth in [0, 2 pi] symbolic; all coefficients symbolic complex '
                'numbers in [-1e4,1e4]; full sets up to degree 3 (thorough 5), single ones and pairs of degree up to 20, 1 to 3 numbers per coefficient, '
                'including negative orders')
def components(ctx, keys, width):
    Z = ctx.mod('zdi_magnetogram')
    t = sym_table(ctx, 'c', keys, width)
    zm = ctx.keep(Z.from_coefficients(build(ctx, t, default(ctx, width))))
    th, ph = ctx.angle('polar', 0, ctx.PI, los=True, his=True), ctx.angle('azimuth', 0, 2 * ctx.PI)
    P, A = ctx.array([[th]]), ctx.array([[ph]])
    w = oracle.zdi_field(ctx, t, th, ph)
    g = zm.get_all()
    ctx.eq('radial', zm.get_radial_field(P, A), [[w['rad']]])
    ctx.eq('polar', zm.get_polar_field(P, A), [[w['pol_pol'] + w['pol_tor']]])
    ctx.eq('azimuthal', zm.get_azimuthal_field(P, A), [[w['azi_pol'] + w['azi_tor']]])
    ctx.eq('radial poloidal', g['radial']['poloidal'](P, A), [[w['rad']]])
    ctx.eq('radial toroidal', g['radial']['toroidal'](P, A), [[0.0]])
    ctx.eq('polar poloidal', g['polar']['poloidal'](P, A), [[w['pol_pol']]])
    ctx.eq('polar toroidal', g['polar']['toroidal'](P, A), [[w['pol_tor']]])
    ctx.eq('azimuthal poloidal', g['azimuthal']['poloidal'](P, A), [[w['azi_pol']]])
    ctx.eq('azimuthal toroidal', g['azimuthal']['toroidal'](P, A), [[w['azi_tor']]])
    b2 = (w['rad'] ** 2 + (w['pol_pol'] + w['pol_tor']) ** 2 + (w['azi_pol'] + w['azi_tor']) ** 2)
    if len(keys) <= 3:
        s = zm.get_field_strength(P, A)
        ctx.eq('strength squared', s ** 2, [[b2]])
        ctx.true('strength is not negative', s >= 0)


@harness('C15', cases=[(0.0,), (3.141592653589793,)], bounds='both poles, azimuth one of three; 6 coefficients of order 0 to 2 and -1, symbolic')
def poles(ctx, polar):
    Z = ctx.mod('zdi_magnetogram')
    t = sym_table(ctx, 'c', [(1, 0), (1, 1), (2, 1), (2, 2), (3, 1), (3, -1)], 3)
    zm = ctx.keep(Z.from_coefficients(build(ctx, t, default(ctx, 3))))
    ph = ctx.choice('azimuth', [0.0, 1.25, 4.0])
    P, A = ctx.array([[polar]]), ctx.array([[ph]])
    w = oracle.zdi_field(ctx, t, polar, ph)
    ctx.eq('radial', zm.get_radial_field(P, A), [[w['rad']]], atol=1e-9)
    ctx.eq('polar', zm.get_polar_field(P, A), [[w['pol_pol'] + w['pol_tor']]], atol=1e-9)
    ctx.eq('azimuthal', zm.get_azimuthal_field(P, A), [[w['azi_pol'] + w['azi_tor']]], atol=1e-9)


GETTERS = ['get_radial_field', 'get_polar_field', 'get_azimuthal_field', 'get_radial_poloidal_field', 'get_polar_toroidal_field']


def expected(ctx, t, rows):
    ws = [[oracle.zdi_field(ctx, t, *p) for p in r] for r in rows]
    pick = [lambda w: w['rad'], lambda w: w['pol_pol'] + w['pol_tor'], lambda w: w['azi_pol'] + w['azi_tor'], lambda w: w['rad'],
            lambda w: w['pol_tor']]
    return {n: [[f(w) for w in r] for r in ws] for n, f in zip(GETTERS, pick)}


@harness('C15', cases=[(h, w) for h in LAYOUTS for w in (3, 1)],
         bounds='a magnetogram evaluated in turn on grids of 2x3, other 2x3 and 3x2 fixed points in four memory layouts, and on whole-number angles; '
                'symbolic coefficients; another magnetogram of the same size in between; the points are not changed')
def history(ctx, how, width):
    Z = ctx.mod('zdi_magnetogram')
    t = sym_table(ctx, 'c', [(1, 0), (2, 1), (3, -2)], width)
    u = sym_table(ctx, 'd', [(1, 1), (2, 0), (3, 3)], width)
    zs = [(ctx.keep(Z.from_coefficients(build(ctx, x, default(ctx, width)))), x) for x in (t, u)]
    g1 = [[(0.3 + 0.31 * i + 0.4 * j, 0.2 + 1.1 * i + 0.5 * j) for j in range(3)] for i in range(2)]
    g2 = [[(p + 0.05, a + 0.5) for p, a in r] for r in g1]
    g3 = [[(p, a) for p, a in c] for c in zip(*g1)]
    g4 = [[(1, 0), (2, 3), (1, 5)], [(3, 1), (2, 6), (1, 1)]]
    order = ctx.choice('order', [0, 1])
    for k, (g, z) in enumerate([(g1, 0), (g2, 0), (g2, 1), (g3, 0), (g1, 1), (g4, 0), (g1, 0)]):
        zm, x = zs[z]
        P, A = laid_out(ctx, [[p for p, _ in r] for r in g], how), laid_out(ctx, [[a for _, a in r] for r in g], how)
        want = expected(ctx, x, g)
        for n in GETTERS if order else GETTERS[::-1]:
            ctx.eq('%s of use %d' % (n, k), getattr(zm, n)(P, A), want[n])
        ctx.eq('points %d' % k, [P, A], [[[q[i] for q in r] for r in g] for i in (0, 1)])


@harness('C15', cases=[(0,), (1,)],
         bounds='6 x 13 points, both poles and azimuths from -7 to 14 among them, and 1 x 1 of the same; 6 entries of degree up to 20 and orders of both signs, symbolic')
def many_points(ctx, k):
    Z = ctx.mod('zdi_magnetogram')
    keys = [[(1, 0), (6, -3), (15, 8)], [(2, 1), (20, 20), (12, -2)]][k]
    t = sym_table(ctx, 'c', keys, 3)
    zm = ctx.keep(Z.from_coefficients(build(ctx, t, default(ctx, 3))))
    g = [[(math.pi * j / 12, -7.0 + 3.0 * i + 0.11 * j) for j in range(13)] for i in range(6)]
    P, A = ctx.array([[p for p, _ in r] for r in g]), ctx.array([[a for _, a in r] for r in g])
    want = expected(ctx, t, g)
    for n in GETTERS:
        ctx.eq(n, getattr(zm, n)(P, A), want[n], atol=1e-9)
    P, A = ctx.array([[2.5]]), ctx.array([[30.0]])
    want = expected(ctx, t, [[(2.5, 30.0)]])
    for n in GETTERS:
        ctx.eq(n + ' of one point', getattr(zm, n)(P, A), want[n], atol=1e-9)
