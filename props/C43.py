"""Results belong to the caller: changing an array or a set that was returned changes no later result and nothing that was given."""
import os
from symx.harness import harness
from props.util import *
from props import relations as rel
from props.C38 import flat


def parts_of(x):
    """The arrays and sets in a result."""
    if isinstance(x, dict):
        return [y for k in sorted(x, key=str) for y in parts_of(x[k])]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in parts_of(y)]
    if type(x).__name__ == 'Coefficients':
        return [x]
    if type(x).__name__ == 'ZdiMagnetogram':
        return [x.degrees_l, x.orders_m, x.alpha, x.beta, x.gamma]
    if type(x).__name__ == 'ZdiGeometry':
        return list(x.corners())
    return [x]


def value(p):
    if type(p).__name__ == 'Coefficients':
        return [(tuple(int(i) for i in k), list(v)) for k, v in p.contents()]
    return flat(p)


def spoil(p):
    if type(p).__name__ == 'Coefficients':
        for k, v in list(p.contents()):
            v[...] = 77
        p.set(7, 6, p.default_coefficients + 5)
        d = p.default_coefficients
        d[...] = 9
    elif hasattr(p, 'shape') and p.shape != () and p.flags.writeable:
        p[...] = 1 if p.dtype.kind == 'b' else 77


def check(ctx, f, mode):
    """f() twice; between, everything the first returned is overwritten ('spoiled'), or it is looked at again after the second ('kept'); or f() once, each of its results overwritten after the last one was looked at ('each')."""
    a = parts_of(f())
    w = [value(p) for p in a]
    if mode == 'each':
        b = []
        for p in a:
            b.append(value(p))
            spoil(p)
    elif mode == 'spoiled':
        for p in a:
            spoil(p)
        b = [value(p) for p in parts_of(f())]
    else:
        g = parts_of(f())
        for p in g:
            spoil(p)
        b = [value(p) for p in a]
    ctx.same('number of results', len(b), len(w))
    for i, (x, y) in enumerate(zip(b, w)):
        if x and isinstance(x[0], tuple):
            ctx.same('entries of %d' % i, [k for k, v in x], [k for k, v in y])
            for (k, v), (_, u) in zip(x, y):
                ctx.eq('result %d%s' % (i, list(k)), v, u, atol=1e-9)
        else:
            ctx.same('size of %d' % i, len(x), len(y))
            ctx.eq('result %d' % i, x, y, atol=1e-9)


MODES = ['spoiled', 'kept', 'each']


def point(ctx):
    th, ph = rel.point(ctx)
    return ctx.array([[th, 0.7]]), ctx.array([[ph, 4.0]])


@harness('C43', cases=[(m,) for m in MODES], budget=60, warm=False, bounds='every getter, part, energy and copy of a magnetogram of 4 coefficients with symbolic values at two points, one symbolic')
def zdi(ctx, mode):
    Z = ctx.mod('zdi_magnetogram')
    c = build(ctx, sym_table(ctx, 'a', rel.ZDI_KEYS, 3), default(ctx, 3))
    z = ctx.keep(Z.from_coefficients(c))
    P, A = point(ctx)

    def f():
        g = z.get_all()
        out = [g[c][s](P, A) for c in sorted(g) for s in sorted(g[c])]
        for n in ('radial', 'polar', 'azimuthal', 'cartesian', 'cartesian_poloidal', 'cartesian_toroidal'):
            out.append(getattr(z, 'get_%s_field' % n)(P, A))
        out += [z.energy(dest={}), z.energy_matrix(), z.copy(), z.as_dipole(), z.as_poloidal(), z.as_toroidal(), z.as_restricted((1, 2), (-1, 0)), Z.from_coefficients(c)]
        return out + [Z.get_c_lm(z.degrees_l, z.orders_m)]
    check(ctx, f, mode)


@harness('C43', cases=[(n, m) for n in ('dipole', 'monopole', 'radial', 'one') for m in MODES], budget=60, warm=False,
         bounds='restrictions that remove nothing, parts, copies, energies and matrices of magnetograms of one degree or one coefficient, symbolic values')
def simple(ctx, which, mode):
    Z = ctx.mod('zdi_magnetogram')
    keys = {'dipole': [(1, -1), (1, 0), (1, 1)], 'monopole': [(0, 0)], 'radial': [(1, 0), (2, 1)], 'one': [(2, 1)]}[which]
    t = sym_table(ctx, 'a', keys, 3)
    if which in ('monopole', 'radial'):
        t = {k: [v[0], 0.0, v[2]] for k, v in t.items()}
    z = ctx.keep(Z.from_coefficients(build(ctx, t, default(ctx, 3))))
    P, A = point(ctx)

    def f():
        out = [z.energy(dest={}), z.energy_matrix(), z.copy(), z.as_poloidal(), z.as_toroidal(), z.as_restricted((0, 5), (-5, 5)), z.as_restricted((0, 5)), z.as_restricted()]
        return out + ([z.as_dipole()] if which == 'dipole' else []) + [z.get_radial_field(P, A), z.get_polar_field(P, A), z.get_azimuthal_field(P, A)]
    check(ctx, f, mode)


@harness('C43', cases=[(m,) for m in MODES], budget=60, warm=False, bounds='potential fields of 4 coefficients with symbolic values at 4 points, one symbolic; their factors; planes')
def pfss(ctx, mode):
    F, A = ctx.mod('pfss_magnetogram'), ctx.mod('associated_legendre')
    c = build(ctx, sym_table(ctx, 'a', rel.PFSS_KEYS, 1), default(ctx, 1))
    th, ph = rel.point(ctx)
    R, P, Q = ctx.array([ctx.real('r', 1.0, 2.4), 3.0, 0.5, 2.5]), ctx.array([th, 1.0, 1.0, 2.0]), ctx.array([ph, 2.0, 2.0, -1.0])
    X, Y, W = ctx.array([1.1, -2.0, 0.5]), ctx.array([0.3, 2.0, -0.5]), ctx.array([-0.7, 0.5, 1.0])
    l, m = ctx.array([1, 2]), ctx.array([0, 1])
    check(ctx, lambda: [F.evaluate_spherical(c, R, P, Q), F.evaluate_cartesian(c, X, Y, W), F.r_l(2, R, 1.0, 2.5), F.phi_lm(1, 2.0, 3.0, Q), A.calculate_lpmn(l, m, P),
                        F.calculate_all_theta(l, m, P)], mode)


@harness('C43', cases=[(m,) for m in MODES], budget=60, warm=False, bounds='transforms at 3 points, one symbolic; wind speed and density at 3 radii; points on the Fibonacci sphere')
def points(ctx, mode):
    T, S = ctx.mod('coordinate_transforms'), ctx.mod('parker_solution').ParkerSolution(1.5e6)
    th, ph = rel.point(ctx)
    r = ctx.real('r', 0.1, 10.0)
    R, P, Q = ctx.array([r, 3.0, 0.5]), ctx.array([th, 1.0, 2.0]), ctx.array([ph, 2.0, -1.0])
    W = ctx.array([S.stellar_radius * k for k in (1.0, 0.5, 30.0)])
    check(ctx, lambda: [T.rectangular_coordinates_from_spherical(R, P, Q), T.spherical_coordinates_from_rectangular(R, Q, P), T.spherical_to_rectangular_transformation_matrix(P, Q),
                        T.rectangular_to_spherical_transformation_matrix(P, Q), S.speed(W), S.density(W)], mode)


@harness('C43', cases=[(m,) for m in MODES], budget=60, warm=False, bounds='everything a grid of 3 x 4 corners tells, and the longitudinal field of 4 coefficients with symbolic values on it')
def grid(ctx, mode):
    G, L = ctx.mod('geometry'), ctx.mod('longitudinal_field')
    g = ctx.keep(G.ZdiGeometry(3, 4))
    z = ctx.keep(rel.zdi(ctx, build(ctx, sym_table(ctx, 'a', rel.ZDI_KEYS, 3), default(ctx, 3))))
    az, d = ctx.array([0.0, 1.0, 4.0]), ctx.array([0.6, 0.0, 0.8])
    check(ctx, lambda: [g.corners(), g.centers(), g.areas(), g.unit_normals(), g.corners_cartesian(), g.centers_cartesian(), g.projected_visible_area_fraction(d),
                        L.get_longitudinal_field_curve(g, z, 1.1, az), L.get_longitudinal_field_curve(g, z, 1.1)], mode)


@harness('C43', cases=[(m,) for m in MODES], budget=60, warm=False, bounds='images of 3 x 2 cells, harmonics, coefficients of images of 2 x 3 symbolic pixels and of field maps on 4 x 3 cells')
def analysis(ctx, mode):
    I, V, G = ctx.mod('image_converter'), ctx.mod('converter'), ctx.mod('geometry')
    g, g5 = ctx.keep(G.ZdiGeometry(4, 3)), ctx.keep(G.ZdiGeometry(4, 5))
    c = build(ctx, sym_table(ctx, 'a', rel.ZDI_KEYS, 1), default(ctx, 1))
    im = ctx.array([[ctx.real('u%d%d' % (i, j), lin=True) for j in range(3)] for i in range(2)])
    P, A = g.centers()
    P5, A5 = g5.centers()
    m = [ctx.array([[0.5 * i - j + k + (ctx.real('m%d' % k) if i == j else 0.0) for j in range(3)] for i in range(4)]) for k in range(3)]
    check(ctx, lambda: [I.to_image(c, g), I.from_image(im, None, 3), I.spherical_harmonic(1, 2, A, P), I.spherical_harmonic(-1, 2, A, P, use_cache=False),
                        V.convert_latlon_to_zdi_coeffs(P5, A5, *m, max_degree=2), V.convert_latlon_to_zdi(P5, A5, *m, max_degree=1)], mode)


@harness('C43', cases=[(m,) for m in MODES], budget=60, warm=False, bounds='sums, products, scalings, copies, parts, stacks, arrays, conversions, foldings and rotations of sets of 4 entries with symbolic values, and sets read from a file')
def sets(ctx, mode):
    C, V, R, Q = ctx.mod('coefficients'), ctx.mod('converter'), ctx.mod('rotate'), ctx.mod('reader_writer')
    a = build(ctx, sym_table(ctx, 'a', rel.PFSS_KEYS, 1), default(ctx, 1))
    b = build(ctx, sym_table(ctx, 'b', rel.PFSS_KEYS[1:], 1), default(ctx, 1))
    s = build(ctx, sym_table(ctx, 's', rel.ZDI_KEYS[:3], 1), default(ctx, 1))
    e = ctx.array([20.0, 50.0, -130.0])
    name = os.path.join(ctx.tmpdir(), 'a.dat')
    with open(name, 'w') as h:
        h.write('header\n1 0 1.5 0\n2 1 -0.5 2.5\n')

    def f():
        t = C.hstack((a, b))
        out = [a + b, a - b, a * b, a * 2.0, a ** 2, a / 4.0, a.copy(), C.copy(a), a.truncated(2), a.scale(lambda l, m: l + 1.0), C.zeros_like(a), C.empty_like(a), t, t.hsplit(), C.isclose(a, b)]
        out += [a.as_arrays(), a.as_arrays(include_unset=False), C.from_arrays(*a.as_arrays(include_unset=False)), V.convert_zdi_to_pfss(a), V.convert_pfss_to_zdi(a), V.map_to_positive_orders(s)]
        return out + [R.rotate_magnetogram_euler_zyz_deg(s, e), Q.read_magnetogram_file(name), [a.default_coefficients], [a.get(6, 2)]]
    check(ctx, f, mode)
