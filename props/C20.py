"""Potential field evaluation: the series between the star and the source surface, zero inside the star, r^-2 outside."""
from symx.harness import harness
from props.util import *
from props import oracle


def _cases(tier):
    out = [(tuple(keys_upto(1, 0, 0)),), (((2, 1), (1, 0)),), (((3, 2),),), (((2, 0), (2, 2)),), (((9, 8),),), (((16, 14),),)]
    return out + ([(tuple(keys_upto(3, 0, 0)),), (((5, 4),),), (((8, 3),),), (((6, 6), (6, 0)),)] if tier != 'quick' else [])


def setup(ctx, keys):
    t = sym_table(ctx, 'g', keys, 1)
    return t, build(ctx, t, default(ctx, 1))


def radii(ctx):
    """Keyword arguments and the effective radii: defaults, or symbolic ones."""
    how = ctx.choice('radii', ['default', 'source', 'both'])
    if how == 'default':
        return {}, 1.0, 2.5
    rss = ctx.real('rss', 1.75, 6.0)
    if how == 'source':
        return {'radius_source_surface': rss}, 1.0, rss
    r0 = ctx.real('r0', 0.5, 1.5)
    return {'radius_star': r0, 'radius_source_surface': rss}, r0, rss


@harness('C20', cases=_cases, budget=40,
         bounds='sets of degree up to 3 (thorough 8) and single coefficients of degree 9 and 16, symbolic; radius, polar angle in (0, pi), azimuth in [0, 2 pi], stellar '
                'and source surface radius symbolic; the three regions are separate paths')
def spherical(ctx, keys):
    F = ctx.mod('pfss_magnetogram')
    t, c = setup(ctx, keys)
    kw, r0, rss = radii(ctx)
    r = ctx.real('r', 0.25, 12.0)
    th, ph = ctx.angle('polar', 0, ctx.PI, los=True, his=True), ctx.angle('azimuth', 0, 2 * ctx.PI)
    region = ctx.choice('region', ['inside', 'shell', 'outside'])
    if region == 'inside':
        ctx.assume(r < r0)
    elif region == 'shell':
        ctx.assume(r0 <= r)
        ctx.assume(r <= rss)
    else:
        ctx.assume(r > rss)
    got = F.evaluate_spherical(c, ctx.array([r]), ctx.array([th]), ctx.array([ph]), **kw)
    if region == 'inside':
        want = [0.0, 0.0, 0.0]
    elif region == 'shell':
        want = oracle.pfss_field(ctx, t, r, th, ph, r0, rss)
    else:
        want = [x * (rss / r) ** 2 for x in oracle.pfss_field(ctx, t, rss, th, ph, r0, rss)]
    for g, w, n in zip(got, want, ('radial', 'polar', 'azimuthal')):
        ctx.eq(n, g, [w])
    check_table(ctx, 'coefficients', c, t, 1)


@harness('C20', cases=[(s,) for s in ('axis', 'mix', 'grid', 'whole', 'scalar')],
         bounds='points on the axis (polar angle 0 and pi), several radii at once, 2-D arrays in four memory layouts, whole-number angles and radii, a scalar radius; symbolic coefficients and radii')
def shapes(ctx, kind):
    F = ctx.mod('pfss_magnetogram')
    if kind == 'axis':
        keys = [(1, 0), (1, 1), (2, 0), (2, 1), (3, 1), (2, 2)]
        t, c = setup(ctx, keys)
        r = ctx.real('r', 1.0, 2.5)
        end = ctx.choice('end', [0.0, ctx.PI])
        az = ctx.choice('azimuth', [0.0, 1.25, 4.0])
        got = F.evaluate_spherical(c, ctx.array([r]), ctx.array([end]), ctx.array([az]))
        want = oracle.pfss_field(ctx, t, r, end, az, 1.0, 2.5)
        for g, w, n in zip(got, want, ('radial', 'polar', 'azimuthal')):
            ctx.eq('on the axis ' + n, g, [w], atol=1e-9)
        return
    t, c = setup(ctx, [(1, 0), (2, 1)])
    if kind == 'mix':
        rs = [ctx.real('r%d' % i, *b) for i, b in enumerate(((0.25, 0.99), (1.0, 2.5), (2.51, 9.0), (1.0, 2.5)))]
        pts = [(0.4, 0.1), (1.2, 5.0), (2.2, 3.0), (1.5, 6.2)]
        got = F.evaluate_spherical(c, ctx.array(rs), ctx.array([p for p, _ in pts]), ctx.array([a for _, a in pts]))
    elif kind == 'whole':
        pts = [(1, 0), (2, 3), (3, 5)]
        rs = [ctx.real('r%d' % i, 1.0, 2.5) for i in range(3)] if ctx.flag('real radii') else [2, 1, 2]
        got = F.evaluate_spherical(c, ctx.array(rs), ctx.array([p for p, _ in pts]), ctx.array([a for _, a in pts]))
    elif kind == 'grid':
        pts = [(0.4 + 0.3 * i, 0.1 + 0.9 * i) for i in range(6)]
        rs = [ctx.real('r%d' % i, 1.0, 2.5) for i in range(6)]
        how = ctx.choice('layout', LAYOUTS)
        sh = lambda x: laid_out(ctx, [x[:3], x[3:]], how)
        F.evaluate_spherical(c, sh([1.2] * 6), sh([p + 0.1 for p, _ in pts]), sh([a + 0.3 for _, a in pts]))
        args = [sh(rs), sh([p for p, _ in pts]), sh([a for _, a in pts])]
        got = F.evaluate_spherical(c, *args)
        ctx.eq('points', args, [[x[:3], x[3:]] for x in (rs, [p for p, _ in pts], [a for _, a in pts])])
        ctx.same('shapes', [g.shape for g in got], [(2, 3)] * 3)
        got = [g.reshape(6) for g in got]
    else:
        pts = [(0.4 + 0.3 * i, 0.1 + 0.9 * i) for i in range(3)]
        rs = [ctx.real('r', 1.0, 2.5)] * 3
        got = F.evaluate_spherical(c, rs[0], ctx.array([p for p, _ in pts]), ctx.array([a for _, a in pts]))
    for i, ((p, a), r) in enumerate(zip(pts, rs)):
        if kind == 'mix' and i == 0:
            w = [0.0] * 3
        elif kind == 'mix' and i == 2:
            w = [x * (2.5 / r) ** 2 for x in oracle.pfss_field(ctx, t, 2.5, p, a, 1.0, 2.5)]
        else:
            w = oracle.pfss_field(ctx, t, r, p, a, 1.0, 2.5)
        for g, x, n in zip(got, w, ('radial', 'polar', 'azimuthal')):
            ctx.eq('%s%d' % (n, i), g[i], x)


@harness('C20', cases=[((2, 1),), ((1, 0),)], budget=40, bounds='one coefficient; continuity at both boundaries: source surface from inside '
         'and outside, purely radial field there; symbolic radii and angles')
def surface(ctx, key):
    F = ctx.mod('pfss_magnetogram')
    t, c = setup(ctx, [key])
    rss = ctx.real('rss', 1.75, 6.0)
    th, ph = ctx.angle('polar', 0, ctx.PI, los=True, his=True), ctx.angle('azimuth', 0, 2 * ctx.PI)
    x = F.evaluate_spherical(c, ctx.array([rss]), ctx.array([th]), ctx.array([ph]), radius_source_surface=rss)
    ctx.eq('polar', x[1], [0.0])
    ctx.eq('azimuthal', x[2], [0.0])
    # the stellar surface carries exactly the magnetogram, whatever the source surface radius
    y = F.evaluate_spherical(c, 1.0, ctx.array([th]), ctx.array([ph]), radius_source_surface=rss)
    ctx.eq('surface map', y[0], [oracle.pfss_field(ctx, t, 1.0, th, ph, 1.0, 2.5)[0]])
    ctx.raises('stellar radius beyond the source surface', lambda: F.evaluate_spherical(c, 1.0, ctx.array([1.0]), ctx.array([1.0]),
               radius_star=rss + 1.0, radius_source_surface=rss))


@harness('C20', cases=[(3,), (40,), (150,)], bounds='3 to 150 points in one call, all regions mixed and radii on both boundaries, azimuths from -7 to 14; entries of degree 1 to 12, symbolic')
def many_points(ctx, n):
    F = ctx.mod('pfss_magnetogram')
    t, c = setup(ctx, [(1, 1), (4, 0), (12, 7), (6, 6)])
    rs = [(0.3, 1.0, 1.7, 2.5, 4.0, 2.1, 0.999, 11.0)[(3 * i) % 8] for i in range(n)]
    pts = [(0.1 + 2.9 * ((7 * i) % n) / n, -7.0 + 21.0 * i / n) for i in range(n)]
    got = F.evaluate_spherical(c, ctx.array(rs), ctx.array([p for p, _ in pts]), ctx.array([a for _, a in pts]))
    ctx.same('lengths', [len(g) for g in got], [n] * 3)
    for i, ((p, a), r) in enumerate(zip(pts, rs)):
        w = [0.0] * 3 if r < 1 else [x * (min(r, 2.5) / r) ** 2 for x in oracle.pfss_field(ctx, t, min(r, 2.5), p, a, 1.0, 2.5)]
        for g, x, k in zip(got, w, ('radial', 'polar', 'azimuthal')):
            ctx.eq('%s%d' % (k, i), g[i], x, atol=1e-9)
