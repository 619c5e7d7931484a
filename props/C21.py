"""Cartesian evaluation of the potential field: same field as the spherical evaluation, turned into the Cartesian frame."""
from symx.harness import harness
from props.util import *
from props import oracle


def setup(ctx, keys):
    t = sym_table(ctx, 'g', keys, 1)
    return t, build(ctx, t, default(ctx, 1))


def cart(c, s, cp, sp, f):
    r, p, a = f
    return [r * s * cp + p * c * cp - a * sp, r * s * sp + p * c * sp + a * cp, r * c - p * s]


@harness('C21', cases=lambda tier: [(((1, 0), (1, 1)),), (((2, 1),),), (((3, 2), (2, 0)),), (((9, 8),),), (((16, 15),),)] + ([(tuple(keys_upto(2, 1, 0)),), (((5, 3),),)]
                                                                                                if tier != 'quick' else []), budget=60,
         bounds='up to 5 symbolic coefficients of degree up to 3 (thorough 5) or single ones of degree 9 and 16; points given by symbolic radius in [1, 2.5] and angles off the axis, '
                'so every point of the shell; and points inside and outside')
def consistent(ctx, keys):
    F, T = ctx.mod('pfss_magnetogram'), ctx.mod('coordinate_transforms')
    np = ctx.np
    t, c = setup(ctx, keys)
    region = ctx.choice('region', ['inside', 'shell', 'outside'])
    r = ctx.real('r', *{'inside': (0.25, 0.98), 'shell': (1.01, 2.49), 'outside': (2.51, 9.0)}[region])
    th, ph = ctx.angle('polar', 0.05, 3.09), ctx.angle('azimuth', -3.1, 3.1)
    x, y, z = r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)
    got = F.evaluate_cartesian(c, ctx.array([x]), ctx.array([y]), ctx.array([z]))
    if region == 'inside':
        f = [0.0] * 3
    elif region == 'shell':
        f = oracle.pfss_field(ctx, t, r, th, ph, 1.0, 2.5)
    else:
        f = [q * (2.5 / r) ** 2 for q in oracle.pfss_field(ctx, t, 2.5, th, ph, 1.0, 2.5)]
    w = list(f) + cart(np.cos(th), np.sin(th), np.cos(ph), np.sin(ph), f)
    for g, v, n in zip(got, w, ('radial', 'polar', 'azimuthal', 'x', 'y', 'z')):
        ctx.eq(n, g, [v])


@harness('C21', cases=[(s,) for s in ('grid', 'axis', 'origin', 'refuses')],
         bounds='2x2 arrays of fixed points in all regions, points on the axis at symbolic heights, the origin; symbolic coefficients')
def points(ctx, kind):
    import math
    F = ctx.mod('pfss_magnetogram')
    keys = [(1, 0), (1, 1), (2, 1), (3, 2)]
    t, c = setup(ctx, keys)
    if kind == 'grid':
        pts = [(1.1, 0.3, -0.4), (-0.2, 1.4, 1.0), (0.1, 0.2, -0.3), (-3.0, -1.0, 0.5)]
        how = ctx.choice('layout', LAYOUTS)
        sh = lambda i: laid_out(ctx, [[pts[0][i], pts[1][i]], [pts[2][i], pts[3][i]]], how)
        got = F.evaluate_cartesian(c, sh(0), sh(1), sh(2))
        ctx.same('shapes', [g.shape for g in got], [(2, 2)] * 6)
        for k, (x, y, z) in enumerate(pts):
            r = math.sqrt(x * x + y * y + z * z)
            th, ph = math.acos(z / r), math.atan2(y, x)
            f = [0.0] * 3 if r < 1 else oracle.pfss_field(ctx, t, min(r, 2.5), th, ph, 1.0, 2.5)
            if r > 2.5:
                f = [v * (2.5 / r) ** 2 for v in f]
            w = list(f) + cart(math.cos(th), math.sin(th), math.cos(ph), math.sin(ph), f)
            for g, v, n in zip(got, w, ('radial', 'polar', 'azimuthal', 'x', 'y', 'z')):
                ctx.eq('%s%d' % (n, k), g[k // 2, k % 2], v)
    elif kind == 'axis':
        s = ctx.choice('side', [1.0, -1.0])
        z = ctx.real('z', 1.0, 2.5)
        got = F.evaluate_cartesian(c, ctx.array([0.0]), ctx.array([0.0]), ctx.array([s * z]))
        f = oracle.pfss_field(ctx, t, z, 0.0 if s > 0 else ctx.PI, 0.0, 1.0, 2.5)
        w = cart(s, 0.0, 1.0, 0.0, f)
        for g, v, n in zip(got[3:], w, ('x', 'y', 'z')):
            ctx.eq(n, g, [v], atol=1e-9)
    elif kind == 'origin':
        got = F.evaluate_cartesian(c, ctx.array([0.0, 1.5]), ctx.array([0.0, 0.0]), ctx.array([0.0, 0.3]))
        for g, n in zip(got, ('radial', 'polar', 'azimuthal', 'x', 'y', 'z')):
            ctx.eq(n, g[0], 0.0)
    else:
        a = ctx.array([1.5])
        ctx.raises('stellar radius beyond the source surface', lambda: F.evaluate_cartesian(c, a, a, a, radius_star=3.0, radius_source_surface=2.0))


@harness('C21', cases=[((1, 1),), ((2, 0),)], budget=60, bounds='symbolic stellar and source surface radii passed on; points of the shell')
def radii(ctx, key):
    F = ctx.mod('pfss_magnetogram')
    np = ctx.np
    t, c = setup(ctx, [key])
    r0, rss = ctx.real('r0', 0.5, 0.9), ctx.real('rss', 3.0, 6.0)
    r, th, ph = ctx.real('r', 1.0, 2.9), ctx.angle('polar', 0.05, 3.09), ctx.angle('azimuth', -3.1, 3.1)
    x, y, z = r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)
    got = F.evaluate_cartesian(c, ctx.array([x]), ctx.array([y]), ctx.array([z]), radius_star=r0, radius_source_surface=rss)
    f = oracle.pfss_field(ctx, t, r, th, ph, r0, rss)
    w = list(f) + cart(np.cos(th), np.sin(th), np.cos(ph), np.sin(ph), f)
    for g, v, n in zip(got, w, ('radial', 'polar', 'azimuthal', 'x', 'y', 'z')):
        ctx.eq(n, g, [v])


@harness('C21', cases=[(3,), (40,), (150,)], bounds='3 to 150 points in one call, all regions mixed; entries of degree 1 to 12, symbolic')
def many_points(ctx, n):
    import math
    F = ctx.mod('pfss_magnetogram')
    t, c = setup(ctx, [(1, 1), (4, 0), (12, 7), (6, 6)])
    sph = [((0.3, 1.1, 1.7, 2.4, 4.0, 2.1, 0.9, 11.0)[(3 * i) % 8], 0.1 + 2.9 * ((7 * i) % n) / n, -3.1 + 6.2 * i / n) for i in range(n)]
    xyz = [(r * math.sin(p) * math.cos(a), r * math.sin(p) * math.sin(a), r * math.cos(p)) for r, p, a in sph]
    got = F.evaluate_cartesian(c, *[ctx.array([q[i] for q in xyz]) for i in range(3)])
    ctx.same('lengths', [len(g) for g in got], [n] * 6)
    for i, (r, p, a) in enumerate(sph):
        f = [0.0] * 3 if r < 1 else [x * (min(r, 2.5) / r) ** 2 for x in oracle.pfss_field(ctx, t, min(r, 2.5), p, a, 1.0, 2.5)]
        w = list(f) + cart(math.cos(p), math.sin(p), math.cos(a), math.sin(a), f)
        for g, x, k in zip(got, w, ('radial', 'polar', 'azimuthal', 'x', 'y', 'z')):
            ctx.eq('%s%d' % (k, i), g[i], x, atol=1e-9)
