"""Everything a set of coefficients is turned into, as functions from a set to a list of named results (used by the relational checks)."""
import math

ZDI_KEYS = [(1, 0), (1, 1), (2, -1), (3, 2)]
PFSS_KEYS = [(1, 0), (1, 1), (2, 1), (4, 3)]


def zdi(ctx, c):
    return ctx.mod('zdi_magnetogram').from_coefficients(c)


def point(ctx):
    return (ctx.angle('polar', 0, ctx.PI, los=True, his=True), ctx.angle('azimuth', 0, 2 * ctx.PI))


def zdi_fields(ctx, p):
    """Field components of a magnetogram at the symbolic point p and at four fixed ones."""
    th, ph = p
    P, A = ctx.array([[th]]), ctx.array([[ph]])
    P4, A4 = ctx.array([[0.4, 1.7], [2.2, 3.0]]), ctx.array([[0.1, 4.0], [6.0, 2.5]])

    def f(z):
        out = {}
        g = z.get_all()
        for comp, parts in g.items():
            for part, fn in parts.items():
                out['%s %s' % (comp, part)] = fn(P, A)
        for n in ('get_radial_field', 'get_polar_field', 'get_azimuthal_field'):
            out[n] = getattr(z, n)(P4, A4)
        for n in ('get_cartesian_field', 'get_cartesian_poloidal_field', 'get_cartesian_toroidal_field'):
            out[n] = list(getattr(z, n)(P, A))
        return out
    return f


def zdi_curve(ctx):
    g = ctx.keep(ctx.mod('geometry').ZdiGeometry(3, 4))
    az = ctx.array([0.0, 1.0, 4.0])
    return lambda z: {'longitudinal field': ctx.mod('longitudinal_field').get_longitudinal_field_curve(g, z, 1.1, az)}


def pfss_fields(ctx, p):
    F = ctx.mod('pfss_magnetogram')
    th, ph = p
    r = ctx.real('r', 1.0, 2.4)
    R, P, A = ctx.array([r, 3.0, 0.5, 2.5]), ctx.array([th, 1.0, 1.0, 2.0]), ctx.array([ph, 2.0, 2.0, -1.0])
    X, Y, Z = ctx.array([1.1, -2.0, 0.5]), ctx.array([0.3, 2.0, -0.5]), ctx.array([-0.7, 0.5, 1.0])

    def f(c):
        out = dict(zip(('radial', 'polar', 'azimuthal'), F.evaluate_spherical(c, R, P, A)))
        out.update(zip(('r', 'p', 'a', 'x', 'y', 'z'), F.evaluate_cartesian(c, X, Y, Z, radius_source_surface=1.7)))
        return out
    return f


def image(ctx):
    g = ctx.keep(ctx.mod('geometry').ZdiGeometry(4, 3))
    return lambda c: {'image': ctx.mod('image_converter').to_image(c, g)}


def entries(c):
    return {(int(k[0]), int(k[1])): list(v) for k, v in c.contents()}


def to_pfss(ctx):
    return lambda c: {'pfss%s' % list(k): v for k, v in entries(ctx.mod('converter').convert_zdi_to_pfss(c)).items()}


def to_zdi(ctx):
    return lambda c: {'zdi%s' % list(k): v for k, v in entries(ctx.mod('converter').convert_pfss_to_zdi(c)).items()}


def rotated(ctx):
    a = ctx.array([20.0, 50.0, -130.0])
    return lambda c: {'rotated%s' % list(k): v for k, v in entries(ctx.mod('rotate').rotate_magnetogram_euler_zyz_deg(c, a)).items()}


def folded(ctx):
    return lambda c: {'folded%s' % list(k): v for k, v in entries(ctx.mod('converter').map_to_positive_orders(c)).items()}


def scaled(ctx):
    return lambda c: {'scaled%s' % list(k): v for k, v in entries(c.scale(lambda l, m: (l + 1.0) / (m * m + 2.0), 2)).items()}
