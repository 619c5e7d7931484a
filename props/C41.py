"""Whole numbers, single precision and other containers for the same values give the same results."""
from symx.harness import harness
from props.util import *
from props import relations as rel
from props.C38 import flat

KINDS = ['whole', 'short', 'readonly', 'columns', 'strided', 'reversed']


def variant(ctx, x, kind):
    """Whole values x (list or list of lists) as an array of another type or arrangement."""
    fl = lambda v: [fl(q) for q in v] if isinstance(v, list) else float(v)
    if kind == 'whole':
        return ctx.array(x)
    if kind == 'short':
        return ctx.keep(ctx.array(x).astype(ctx.np.int32))
    a = fl(x)
    if kind == 'float':
        return ctx.array(a)
    if kind == 'readonly':
        a = ctx.np.array(a)
        a.flags.writeable = False
        return a
    if not isinstance(x[0], list):
        a = [a]
    r = laid_out(ctx, a, kind)
    return r if isinstance(x[0], list) else r[0]


def both(ctx, f, args, kind):
    want, got = f(*[variant(ctx, x, 'float') for x in args]), f(*[variant(ctx, x, kind) for x in args])
    ctx.same('results', sorted(got), sorted(want))
    for k in want:
        ctx.same('shape of ' + k, tuple(ctx.np.shape(got[k])), tuple(ctx.np.shape(want[k])))
        ctx.eq(k, flat(got[k]), flat(want[k]), atol=1e-9)


P, A, R = [[0, 1, 2], [3, 1, 2]], [[0, 2, 4], [6, -1, 0]], [[1, 2, 3], [0, 4, 1]]


@harness('C41', cases=[(k,) for k in KINDS], budget=60, bounds='ZDI fields at 6 points of whole angles, the coefficients (4, degree up to 3) symbolic; 6 kinds of arrays')
def zdi(ctx, kind):
    z = ctx.keep(rel.zdi(ctx, build(ctx, sym_table(ctx, 'a', rel.ZDI_KEYS, 3), default(ctx, 3))))

    def f(P, A):
        g = z.get_all()
        out = {'%s %s' % (c, s): g[c][s](P, A) for c in g for s in g[c]}
        out['cartesian'] = z.get_cartesian_field(P, A)
        return out
    both(ctx, f, [P, A], kind)


@harness('C41', cases=[(k, w) for k in KINDS for w in ('spherical', 'cartesian')], budget=60,
         bounds='potential fields at 6 points of whole coordinates (inside the star, on its surface, beyond the source surface), the coefficients (4, degree up to 4) symbolic; 6 kinds of arrays')
def pfss(ctx, kind, which):
    F = ctx.mod('pfss_magnetogram')
    c = build(ctx, sym_table(ctx, 'a', rel.PFSS_KEYS, 1), default(ctx, 1))
    if which == 'spherical':
        both(ctx, lambda *p: dict(zip('rpa', F.evaluate_spherical(c, *p))), [R, P, A], kind)
    else:
        both(ctx, lambda *p: {str(i): x for i, x in enumerate(F.evaluate_cartesian(c, *p, radius_source_surface=3))}, [[[1, 2, 3], [0, 0, -1]], [[0, -2, 1], [0, 1, 1]], [[0, 1, -4], [2, 0, 1]]], kind)


@harness('C41', cases=[(k,) for k in KINDS], budget=60, bounds='transforms at 6 points of whole coordinates, one of the coordinates scaled by a symbolic factor in [0.5, 2]; 6 kinds of arrays')
def transforms(ctx, kind):
    T = ctx.mod('coordinate_transforms')
    s = ctx.real('s', 0.5, 2.0)
    both(ctx, lambda r, p, a: dict(zip('xyz', T.rectangular_coordinates_from_spherical(r * s, p, a))), [R, P, A], kind)
    both(ctx, lambda x, y, z: dict(zip('rpa', T.spherical_coordinates_from_rectangular(x, y, z))), [[[1, 2, 3], [0, 0, -1]], [[0, -2, 1], [0, 1, 1]], [[0, 1, -4], [2, 0, 1]]], kind)


@harness('C41', cases=[(k, w) for k in KINDS for w in ('speed', 'density')], budget=60, bounds='wind at 5 distances of whole stellar radii; temperature, base density and mass symbolic with a sonic '
         'radius of 2.6, 9 or 20.3 stellar radii; 6 kinds of arrays')
def wind(ctx, kind, what):
    from props.C27 import KB, G, MP
    T, rho, rs = ctx.real('T', 3e5, 1e7), ctx.real('rho', 1e-16, 1e-9), ctx.choice('sonic radius', [2.6, 9.0, 20.3])
    S = ctx.mod('parker_solution').ParkerSolution(temperature=T, base_density=rho, stellar_radius=1, stellar_mass=rs * T * (4 * KB / (G * MP)))
    r = [1, 2, 9, 0, 40]
    unit = S.speed_sonic if what == 'speed' else rho
    both(ctx, lambda x: {what: getattr(S, what)(x) / unit}, [r], kind)


@harness('C41', cases=[(k,) for k in KINDS], budget=60, bounds='longitudinal field at 4 whole observer azimuths and polar angle 1, grid of 2 x 3 cells and grids given by whole corners, the coefficients symbolic')
def observers(ctx, kind):
    L, G = ctx.mod('longitudinal_field'), ctx.mod('geometry')
    z = ctx.keep(rel.zdi(ctx, build(ctx, sym_table(ctx, 'a', rel.ZDI_KEYS, 3), default(ctx, 3))))
    g = ctx.keep(G.ZdiGeometry(3, 4))
    both(ctx, lambda a: {'curve': L.get_longitudinal_field_curve(g, z, 1, a)}, [[0, 1, 4, -2]], kind)

    def grid(p, a):
        g = ctx.keep(G.ZdiGeometry(p, a))
        c = g.centers()
        return {'areas': g.areas(), 'polar': c[0], 'azimuth': c[1], 'normals': g.unit_normals(), 'curve': L.get_longitudinal_field_curve(g, z, 1, ctx.array([0.0, 1.0]))}
    both(ctx, grid, [[0, 1, 3], [0, 1, 4, 6]], kind)


@harness('C41', cases=[(k,) for k in KINDS], budget=60, bounds='ZDI fields and energies of 4 whole coefficients of each kind given as arrays, at a symbolic point; 6 kinds of arrays')
def coefficients(ctx, kind):
    Z = ctx.mod('zdi_magnetogram')
    f0 = rel.zdi_fields(ctx, rel.point(ctx))
    l, m = [[k[i] for k in rel.ZDI_KEYS] for i in (0, 1)]

    def f(a, b, c):
        z = ctx.keep(Z.ZdiMagnetogram(ctx.array(l), ctx.array(m), a, b, c))
        d = {}
        out = dict(f0(z), **{'energy%d' % i: e for i, e in enumerate(z.energy(dest=d))})
        out.update({'matrix%d' % i: e for i, e in enumerate(z.energy_matrix())})
        return dict(out, total=d['magnetogram.total.energy.B2'])
    both(ctx, f, [[1, -2, 3, 2], [0, 3, -1, 4], [2, 2, -3, 1]], kind)


@harness('C41', cases=[(k,) for k in KINDS], budget=60, bounds='images of 2 x 3 whole pixels and triples of whole field maps on 4 x 3 cells analysed; potential field of 4 whole coefficients at a symbolic point; rotation by whole angles')
def sets(ctx, kind):
    I, V = ctx.mod('image_converter'), ctx.mod('converter')
    ent = lambda c: {str(k): v for k, v in rel.entries(c).items()}
    both(ctx, lambda x: ent(I.from_image(x, None, 4)[0]), [[[1, 0, 7], [2, 9, 4]]], kind)
    g = ctx.keep(ctx.mod('geometry').ZdiGeometry(4, 5))
    PP, AA = g.centers()
    n = [[(3 * i + 5 * j + 2 * i * j) % 7 for j in range(3)] for i in range(4)]
    both(ctx, lambda a, b, c: ent(V.convert_latlon_to_zdi_coeffs(PP, AA, a, b, c, max_degree=2)), [n, [[2 * x - 3 for x in r] for r in n], [[x - 3 for x in r] for r in n]], kind)
    t = sym_table(ctx, 'a', rel.ZDI_KEYS[:3], 1)
    c = build(ctx, t, default(ctx, 1))
    both(ctx, lambda a: ent(ctx.mod('rotate').rotate_magnetogram_euler_zyz_deg(c, a)), [[20, 50, -130]], kind)
    f0 = rel.pfss_fields(ctx, rel.point(ctx))
    both(ctx, lambda v: f0(build(ctx, {k: [v[i]] for i, k in enumerate(rel.PFSS_KEYS)}, ctx.np.zeros(1, dtype=v.dtype))), [[1, -2, 3, 2]], kind)


@harness('C41', cases=[(t, w) for t in ('int8', 'int16', 'int32') for w in ('spherical', 'cartesian', 'field')], budget=60,
         bounds='points whose coordinates are a quarter to nine tenths of the largest number of a short integer type: transforms scaled by a symbolic factor in [0.5, 2], and the potential field '
                'of 4 coefficients (degree up to 4) with symbolic values')
def narrow(ctx, kind, which):
    T, F = ctx.mod('coordinate_transforms'), ctx.mod('pfss_magnetogram')
    n = {'int8': 127, 'int16': 32767, 'int32': 2147483647}[kind]
    x, y, z = ([int(n * k) for k in v] for v in ((0.8, -0.6, 0.0, 0.5), (0.9, 0.25, -0.7, 0.5), (0.7, -0.85, 0.6, 0.5)))
    s = ctx.real('s', 0.5, 2.0)
    want, got = ([ctx.array(v).astype(getattr(ctx.np, t)) for v in (x, y, z)] for t in ('float64', kind))
    if which == 'spherical':
        f = lambda p: T.spherical_coordinates_from_rectangular(*p)
        a, b = f(want), f(got)
        ctx.eq('coordinates', [u * s for u in flat(b[0])] + flat(b[1]) + flat(b[2]), [u * s for u in flat(a[0])] + flat(a[1]) + flat(a[2]), atol=1e-9)
    elif which == 'cartesian':
        q = ctx.array([1.0, 2.0, 0.3, 3.0]), ctx.array([0.0, 4.0, -1.0, 2.0])
        ctx.eq('coordinates', [u * s for v in T.rectangular_coordinates_from_spherical(got[0], *q) for u in flat(v)],
               [u * s for v in T.rectangular_coordinates_from_spherical(want[0], *q) for u in flat(v)], atol=1e-9)
    else:
        c = build(ctx, sym_table(ctx, 'a', rel.PFSS_KEYS, 1), default(ctx, 1))
        for v, w in zip(F.evaluate_cartesian(c, *got, radius_source_surface=1.0 * n), F.evaluate_cartesian(c, *want, radius_source_surface=1.0 * n)):
            ctx.eq('field', flat(v), flat(w), atol=1e-12)
