"""Points are evaluated independently: the result at a point does not depend on the others, on their order or on the shape of the arrays."""
from symx.harness import harness
from props.util import *
from props import relations as rel
from props.C38 import flat

FIXED = [(0.3, 1.0), (1.2, -2.0), (2.9, 6.5), (1.5707963267948966, 0.0), (1.2, 4.0)]
SHAPES = {'row': [[0, 1, 2, 3, 4, 5]], 'column': [[0], [1], [2], [3]], 'block': [[0, 1, 2], [3, 4, 5]], 'back': [[5, 4, 3], [2, 1, 0]], 'twice': [[0, 0], [2, 0]],
          'list': [0, 3, 2, 5], 'between': [[0, 3], [1, 5], [0, 3]], 'deep': [[[0, 1], [2, 3]], [[4, 5], [1, 0]]], 'one': [0]}


def take(idx, vals):
    return [take(i, vals) for i in idx] if isinstance(idx, list) else vals[idx]


def unfold(idx):
    return [j for i in idx for j in unfold(i)] if isinstance(idx, list) else [idx]


def shape(idx):
    return (len(idx),) + shape(idx[0]) if isinstance(idx, list) else ()


def arrange(ctx, idx, vals, how):
    """The values at the indices as an array of that shape, in one of several layouts."""
    a = take(idx, vals)
    if how == 'flipped':
        return ctx.array(a[::-1])[::-1]
    if how == 'strided':
        return ctx.array([v for x in a for v in (x, x)])[::2]
    if how == 'transposed':
        return ctx.array([list(x) for x in zip(*a)]).T
    return ctx.array(a)


def compare(ctx, f, points, idx, how):
    """f of arrays of coordinates gives a dict of arrays of the shape of the points; compare with the results at single points."""
    n = len(points[0])
    got = f(*[arrange(ctx, idx, [p[i] for p in points], how) for i in range(n)])
    single = {}
    for j in unfold(idx):
        if j not in single:
            single[j] = f(*[ctx.array([x]) for x in points[j]])
    for k in got:
        ctx.same('shape of ' + k, tuple(got[k].shape), shape(idx))
        ctx.eq(k, flat(got[k]), [flat(single[j][k])[0] for j in unfold(idx)], atol=1e-9)


LAYOUTS2 = [('row', 'plain'), ('column', 'plain'), ('block', 'plain'), ('block', 'transposed'), ('block', 'strided'), ('back', 'flipped'), ('twice', 'plain'), ('list', 'plain'), ('between', 'plain'),
            ('deep', 'plain'), ('one', 'plain')]


@harness('C40', cases=LAYOUTS2, budget=60, bounds='every component and part of a magnetogram of 4 coefficients at up to 6 points, one with symbolic angles in [0, pi] and [0, 2 pi], '
         'the first of the array or elsewhere; 11 arrangements')
def zdi(ctx, idx, how):
    z = ctx.keep(rel.zdi(ctx, build(ctx, {k: [1.0 - 0.5j * i, 0.7 + i + 0.2j, 0.4j + 1.5 - i] for i, k in enumerate(rel.ZDI_KEYS)}, default(ctx, 3))))
    g = z.get_all()

    def f(P, A):
        out = {'%s %s' % (c, s): g[c][s](P, A) for c in g for s in g[c]}
        out.update({n: getattr(z, n)(P, A) for n in ('get_radial_field', 'get_polar_field', 'get_azimuthal_field', 'get_field_strength')})
        for n in ('get_cartesian_field', 'get_cartesian_poloidal_field', 'get_cartesian_toroidal_field'):
            x = getattr(z, n)(P, A)
            out.update({n + 'xyz'[i]: x[..., i] for i in range(3)})
        return out
    th, ph = rel.point(ctx)
    compare(ctx, f, [(th, ph)] + FIXED, SHAPES[idx], how)


@harness('C40', cases=LAYOUTS2, budget=60, bounds='the field of a potential-field set of 4 coefficients at up to 6 points, one with a symbolic radius in [1, 2.4] and symbolic angles, '
         'others inside the star, on and outside the source surface; 11 arrangements')
def pfss(ctx, idx, how):
    F = ctx.mod('pfss_magnetogram')
    c = build(ctx, {k: [1.0 - 0.5j * i] for i, k in enumerate(rel.PFSS_KEYS)}, default(ctx, 1))
    th, ph = rel.point(ctx)
    pts = [(ctx.real('r', 1.0, 2.4), th, ph)] + [(r,) + p for r, p in zip((1.0, 0.5, 3.0, 2.5, 1.7), FIXED)]
    compare(ctx, lambda *p: dict(zip(('radial', 'polar', 'azimuthal'), F.evaluate_spherical(c, *p))), pts, SHAPES[idx], how)


@harness('C40', cases=LAYOUTS2, budget=60, bounds='the field of a potential-field set of 4 coefficients at up to 6 Cartesian points (inside the star, at its centre, beyond the source surface, on the axis), '
         'one with a symbolic x in [1, 2]; 11 arrangements')
def cartesian(ctx, idx, how):
    F = ctx.mod('pfss_magnetogram')
    c = build(ctx, {k: [1.0 - 0.5j * i] for i, k in enumerate(rel.PFSS_KEYS)}, default(ctx, 1))
    pts = [(ctx.real('x', 1.0, 2.0), 0.0, 0.0), (0.0, 0.0, 1.5), (-1.0, 0.5, 0.7), (3.0, -2.0, 1.0), (0.0, 0.0, 0.0), (0.0, -1.3, 0.4)]

    def f(*p):
        q = F.evaluate_cartesian(c, *p)
        return {'%d' % i: x for i, x in enumerate(q)}
    compare(ctx, f, pts, SHAPES[idx], how)


@harness('C40', cases=LAYOUTS2, budget=60, bounds='coordinate transforms and transformation matrices at up to 6 points, one symbolic; 11 arrangements')
def transforms(ctx, idx, how):
    T = ctx.mod('coordinate_transforms')
    th, ph = rel.point(ctx)
    pts = [(th, ph)] + FIXED

    def f(P, A):
        out = {}
        for n in ('spherical_to_rectangular_transformation_matrix', 'rectangular_to_spherical_transformation_matrix'):
            m = getattr(T, n)(P, A)
            out.update({'%s %d%d' % (n, i, j): m[..., i, j] if tuple(m.shape[-2:]) == (3, 3) else m[i, j] for i in range(3) for j in range(3)})
        return out
    if len(shape(SHAPES[idx])) == 1:
        compare(ctx, f, pts, SHAPES[idx], how)
    r = ctx.real('r', 0.1, 10.0)
    compare(ctx, lambda *p: dict(zip('xyz', T.rectangular_coordinates_from_spherical(*p))), [(r, th, ph)] + [(0.5 + i,) + p for i, p in enumerate(FIXED)], SHAPES[idx], how)
    x, y, w = [ctx.real(n, 0.1, 10.0) for n in 'xyw']
    compare(ctx, lambda *p: dict(zip('rpa', T.spherical_coordinates_from_rectangular(*p))), [(x, y, w), (1.0, 0.0, 0.0), (0.0, 0.0, -2.0), (-1.0, 2.0, 0.5), (0.3, -0.4, -1.0), (0.0, 0.0, 0.0)],
            SHAPES[idx], how)


@harness('C40', cases=[(i, w) for i in ('list', 'one', 'back1', 'twice1', 'block') for w in ('speed', 'density')], budget=60,
         bounds='speed and density of a stellar wind at up to 6 distances below the surface, on it, on both sides of the sonic distance and at it, one symbolic; 5 arrangements')
def wind(ctx, idx, what):
    from props.C27 import star
    T, rho, R, M, rs = star(ctx)
    S = ctx.mod('parker_solution').ParkerSolution(temperature=T, base_density=rho, stellar_radius=R, stellar_mass=M)
    rs = S.radius_sonic
    pts = [(rs * ctx.real('r', 0.01, 100),), (rs,), (R,), (25 * rs,), (0.3 * R,), (rs * 0.7,)]
    idx = dict(SHAPES, back1=[5, 3, 1, 0], twice1=[0, 0, 2, 0])[idx]
    below = [bool(p[0] < R) for p in pts]
    unit = S.speed_sonic if what == 'speed' else rho
    compare(ctx, lambda r: {what: getattr(S, what)(r) / unit}, pts, idx, 'plain')


@harness('C40', cases=[('plain',), ('flipped',), ('strided',)], budget=60, bounds='longitudinal field at up to 5 observer azimuths, one symbolic, alone and together in three orders')
def observers(ctx, how):
    L = ctx.mod('longitudinal_field')
    z = ctx.keep(rel.zdi(ctx, build(ctx, {k: [1.0 - 0.5j * i, 0.7 + i + 0.2j, 0.4j + 1.5 - i] for i, k in enumerate(rel.ZDI_KEYS)}, default(ctx, 3))))
    g = ctx.keep(ctx.mod('geometry').ZdiGeometry(3, 4))
    a = ctx.angle('azimuth', 0, 2 * ctx.PI)
    for idx in ([0, 1, 2, 3], [3, 1, 0], [2, 2, 0]):
        compare(ctx, lambda x: {'longitudinal field': L.get_longitudinal_field_curve(g, z, 1.1, x)}, [(a,), (0.0,), (4.0,), (2.0,)], idx, how)
