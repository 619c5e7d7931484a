"""Coordinate transforms: round trips, and orthogonal frame matrices that agree with each other."""
from symx.harness import harness
from props.util import *


@harness('C22', cases=[(1,), (2,)], budget=40, bounds='every point with coordinates in [-10,10] at least 1e-9 off the polar axis (1 or 2 points), symbolic')
def from_rectangular(ctx, n):
    T = ctx.mod('coordinate_transforms')
    np = ctx.np
    p = [[ctx.real('%s%d' % (c, i), -10, 10) for c in 'xyz'] for i in range(n)]
    for q in p:
        ctx.assume(q[0] * q[0] + q[1] * q[1] >= 1e-18)
    col = lambda k: ctx.array([q[k] for q in p])
    r, pl, az = T.spherical_coordinates_from_rectangular(col(0), col(1), col(2))
    ctx.true('radius is not negative', r >= 0)
    for i, (x, y, z) in enumerate(p):
        ctx.eq('radius%d' % i, r[i] * r[i], x * x + y * y + z * z)
        ctx.eq('z%d' % i, r[i] * np.cos(pl[i]), z)
        ctx.eq('x%d' % i, r[i] * np.sin(pl[i]) * np.cos(az[i]), x)
        ctx.eq('y%d' % i, r[i] * np.sin(pl[i]) * np.sin(az[i]), y)
        ctx.true('polar range%d' % i, (pl[i] >= 0) & (pl[i] <= 3.1416))
        ctx.true('azimuth range%d' % i, (az[i] >= -3.1416) & (az[i] <= 3.1416))
    x, y, z = T.rectangular_coordinates_from_spherical(r, pl, az)
    ctx.eq('back', [x, y, z], [[q[k] for q in p] for k in range(3)])
    ctx.eq('input', [col(0), col(1), col(2)], [[q[k] for q in p] for k in range(3)])


@harness('C22', cases=[(s,) for s in ('scalar', 'vector', 'grid')], budget=40,
         bounds='every radius in [0, 10], polar angle in [0, pi] and azimuth in [-7, 7], symbolic')
def from_spherical(ctx, shape):
    T = ctx.mod('coordinate_transforms')
    np = ctx.np
    r, th, ph = ctx.real('r', 0, 10), ctx.angle('polar', 0, ctx.PI), ctx.angle('azimuth', -7, 7)
    w = [r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)]
    wrap = {'scalar': lambda v: v, 'vector': lambda v: ctx.array([v]), 'grid': lambda v: ctx.array([[v]])}[shape]
    got = T.rectangular_coordinates_from_spherical(wrap(r), wrap(th), wrap(ph))
    for g, v, n in zip(got, w, 'xyz'):
        ctx.eq(n, g, wrap(v))


@harness('C22', cases=[(s,) for s in ('origin', 'north', 'south', 'x', 'negative x', 'int')], bounds='special points at symbolic distances')
def special(ctx, which):
    T = ctx.mod('coordinate_transforms')
    d = ctx.real('d', 0.5, 10)
    p = {'origin': (0.0, 0.0, 0.0), 'north': (0.0, 0.0, d), 'south': (0.0, 0.0, -d), 'x': (d, 0.0, 0.0), 'negative x': (-d, 0.0, 0.0),
         'int': (3.0, 0.0, 4.0)}[which]
    w = {'origin': (0.0, None, None), 'north': (d, 0.0, None), 'south': (d, ctx.PI, None), 'x': (d, ctx.PI / 2, 0.0),
         'negative x': (d, ctx.PI / 2, ctx.PI), 'int': (5.0, 0.6435011087932844, 0.0)}[which]
    got = T.spherical_coordinates_from_rectangular(*[ctx.array([v]) for v in p])
    for g, v, n in zip(got, w, ('radius', 'polar', 'azimuth')):
        if v is not None:
            ctx.eq(n, g, [v])
    ctx.eq('back', T.rectangular_coordinates_from_spherical(*got), [[v] for v in p], atol=1e-9)


@harness('C22', cases=[(1,), (2,)], bounds='1 or 2 pairs of symbolic angles, polar [0, pi], azimuth [-7, 7], and a symbolic vector')
def matrices(ctx, n):
    T = ctx.mod('coordinate_transforms')
    np = ctx.np
    a = [(ctx.angle('polar%d' % i, 0, ctx.PI), ctx.angle('azimuth%d' % i, -7, 7)) for i in range(n)]
    th, ph = ctx.array([x for x, _ in a]), ctx.array([y for _, y in a])
    M, N = T.spherical_to_rectangular_transformation_matrix(th, ph), T.rectangular_to_spherical_transformation_matrix(th, ph)
    ctx.same('shapes', [M.shape, N.shape], [(n, 3, 3)] * 2)
    for i, (p, q) in enumerate(a):
        ct, st, cp, sp = np.cos(p), np.sin(p), np.cos(q), np.sin(q)
        rows = [[st * cp, st * sp, ct], [ct * cp, ct * sp, -st], [-sp, cp, 0.0]]
        ctx.eq('frame%d' % i, N[i], rows)
        for j in range(3):
            for k in range(3):
                ctx.eq('inverse%d.%d%d' % (i, j, k), sum([M[i, j, h] * N[i, h, k] for h in range(3)], 0.0), float(j == k))
                ctx.eq('transpose%d.%d%d' % (i, j, k), M[i, j, k], N[i, k, j])


@harness('C22', cases=[(30,), (200,)], bounds='30 and 200 points in one call, two with symbolic coordinates, the others fixed in all octants; 2-D arrays too')
def many(ctx, n):
    import math
    T = ctx.mod('coordinate_transforms')
    np = ctx.np
    p = [[7.0 * math.sin(1.3 * i + 0.2), 5.0 * math.cos(2.1 * i), 9.0 * math.sin(0.7 * i * i + 0.1)] for i in range(n)]
    for i in (1, n - 2):
        p[i] = [ctx.real('%s%d' % (c, i), -10, 10) for c in 'xyz']
        ctx.assume(p[i][0] * p[i][0] + p[i][1] * p[i][1] >= 1e-18)
    for shape in ((n,), (n // 10, 10)):
        q = [ctx.array([v[k] for v in p]).reshape(shape) for k in range(3)]
        r, pl, az = T.spherical_coordinates_from_rectangular(*q)
        ctx.same('shapes', [tuple(v.shape) for v in (r, pl, az)], [shape] * 3)
        r1, pl1, az1 = [v.reshape(n) for v in (r, pl, az)]
        for i, (x, y, z) in enumerate(p):
            ctx.eq('radius%d' % i, r1[i] * r1[i], x * x + y * y + z * z)
            ctx.eq('z%d' % i, r1[i] * np.cos(pl1[i]), z)
            ctx.eq('x%d' % i, r1[i] * np.sin(pl1[i]) * np.cos(az1[i]), x)
            ctx.eq('y%d' % i, r1[i] * np.sin(pl1[i]) * np.sin(az1[i]), y)
        back = T.rectangular_coordinates_from_spherical(r, pl, az)
        ctx.eq('back', [v.reshape(n) for v in back], [[v[k] for v in p] for k in range(3)])


@harness('C22', cases=[(40,)], bounds='the matrices of 40 pairs of fixed angles, one of them symbolic')
def many_matrices(ctx, n):
    import math
    T = ctx.mod('coordinate_transforms')
    np = ctx.np
    a = [(math.pi * i / (n - 1), -7.0 + 14.0 * ((7 * i) % n) / n) for i in range(n)]
    a[n // 2] = ctx.angle('polar', 0, ctx.PI), ctx.angle('azimuth', -7, 7)
    th, ph = ctx.array([x for x, _ in a]), ctx.array([y for _, y in a])
    M, N = T.spherical_to_rectangular_transformation_matrix(th, ph), T.rectangular_to_spherical_transformation_matrix(th, ph)
    ctx.same('shapes', [M.shape, N.shape], [(n, 3, 3)] * 2)
    for i, (p, q) in enumerate(a):
        ct, st, cp, sp = np.cos(p), np.sin(p), np.cos(q), np.sin(q)
        rows = [[st * cp, st * sp, ct], [ct * cp, ct * sp, -st], [-sp, cp, 0.0]]
        ctx.eq('to spherical %d' % i, N[i], rows)
        ctx.eq('to rectangular %d' % i, M[i], [[rows[j][k] for j in range(3)] for k in range(3)])
