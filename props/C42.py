"""Turning a magnetogram about its axis, or mirroring it in the equator, turns or mirrors everything computed from it."""
import math
from symx.harness import harness
from props.util import *
from props import relations as rel
from props.C38 import flat


def phase(ctx, m, a):
    """exp(i m a)"""
    np = ctx.np
    return np.cos(m * a) + 1j * np.sin(m * a)


def turned(ctx, t, a, sign=-1):
    return {k: [x * phase(ctx, sign * k[1], a) for x in v] for k, v in t.items()}


def mirrored(t):
    return {(l, m): [x * (-1) ** (l + m + (i == 2)) for i, x in enumerate(v)] for (l, m), v in t.items()}


def angle_of(ctx, how):
    return ctx.angle('turn', -ctx.PI, ctx.PI) if how == 'any' else math.radians(how)


ANGLES = ['any', 90.0, 37.0, -180.0]


@harness('C42', cases=[(h,) for h in ANGLES + ['mirror']], budget=60,
         bounds='4 ZDI coefficients of degree up to 3 and both signs of the order with symbolic values, a symbolic point; every turning angle and three fixed ones; the mirror image')
def zdi(ctx, how):
    t = sym_table(ctx, 'a', rel.ZDI_KEYS, 3)
    th, ph = rel.point(ctx)
    a = 0.0 if how == 'mirror' else angle_of(ctx, how)
    u = mirrored(t) if how == 'mirror' else turned(ctx, t, a)
    z0, z1 = [ctx.keep(rel.zdi(ctx, build(ctx, x, default(ctx, 3)))) for x in (t, u)]
    g0, g1 = z0.get_all(), z1.get_all()
    P, A = ctx.array([[th]]), ctx.array([[ph]])
    Q = ctx.array([[ctx.PI - th]]) if how == 'mirror' else P
    B = ctx.array([[ph + a]])
    for c in g0:
        for s in g0[c]:
            f = -1 if how == 'mirror' and c == 'polar' else 1
            ctx.eq('%s %s' % (c, s), g1[c][s](Q, B), f * g0[c][s](P, A), atol=1e-9)
    x0, x1 = z0.get_cartesian_field(P, A)[0, 0], z1.get_cartesian_field(Q, B)[0, 0]
    ca, sa = ctx.np.cos(a), ctx.np.sin(a)
    ctx.eq('cartesian', [x1[0], x1[1], x1[2]], [x0[0] * ca - x0[1] * sa, x0[0] * sa + x0[1] * ca, -x0[2] if how == 'mirror' else x0[2]], atol=1e-9)


@harness('C42', cases=[(h,) for h in ANGLES + ['mirror']], budget=60,
         bounds='4 potential-field coefficients of degree up to 4 with symbolic values, a symbolic point between the star and the source surface and one beyond; the same turns')
def pfss(ctx, how):
    F = ctx.mod('pfss_magnetogram')
    t = sym_table(ctx, 'a', rel.PFSS_KEYS, 1)
    th, ph = rel.point(ctx)
    r = ctx.real('r', 1.0, 2.4)
    a = 0.0 if how == 'mirror' else angle_of(ctx, how)
    u = mirrored(t) if how == 'mirror' else turned(ctx, t, a, 1)
    c0, c1 = [build(ctx, x, default(ctx, 1)) for x in (t, u)]
    p = lambda th: ctx.array([ctx.PI - th if how == 'mirror' else th, ctx.PI - 1.0 if how == 'mirror' else 1.0])
    f0 = F.evaluate_spherical(c0, ctx.array([r, 3.0]), ctx.array([th, 1.0]), ctx.array([ph, 2.0]))
    f1 = F.evaluate_spherical(c1, ctx.array([r, 3.0]), p(th), ctx.array([ph + a, 2.0 + a]))
    for n, x, y in zip(('radial', 'polar', 'azimuthal'), f0, f1):
        ctx.eq(n, y, -x if how == 'mirror' and n == 'polar' else x, atol=1e-9)
    if how == 'any':
        return
    ca, sa = math.cos(a), math.sin(a)
    x, y, z = 1.1, -0.8, 0.9
    f0 = F.evaluate_cartesian(c0, ctx.array([x]), ctx.array([y]), ctx.array([z]))
    f1 = F.evaluate_cartesian(c1, ctx.array([x * ca - y * sa]), ctx.array([x * sa + y * ca]), ctx.array([-z if how == 'mirror' else z]))
    v0, v1 = [q[0] for q in f0[3:]], [q[0] for q in f1[3:]]
    ctx.eq('cartesian', v1, [v0[0] * ca - v0[1] * sa, v0[0] * sa + v0[1] * ca, -v0[2] if how == 'mirror' else v0[2]], atol=1e-9)


@harness('C42', cases=[(3, 1), (3, -1), (4, 2), (4, 'mirror')], budget=60,
         bounds='4 coefficients with symbolic values; longitudinal field on grids of 2 or 3 bands of 3 or 4 cells, turned by whole cells or mirrored, at two observer azimuths and polar angles')
def curve(ctx, naz, how):
    L = ctx.mod('longitudinal_field')
    g = ctx.keep(ctx.mod('geometry').ZdiGeometry(4, naz + 1))
    P, A = g.corners()
    t = sym_table(ctx, 'a', rel.ZDI_KEYS, 3)
    a = 0.0 if how == 'mirror' else 2 * math.pi / naz * how
    u = mirrored(t) if how == 'mirror' else turned(ctx, t, a)
    z0, z1 = [ctx.keep(rel.zdi(ctx, build(ctx, x, default(ctx, 3)))) for x in (t, u)]
    for inc in (0.9, 1.8):
        b0 = L.get_longitudinal_field_curve(g, z0, inc, ctx.array([0.3, 4.0]))
        b1 = L.get_longitudinal_field_curve(g, z1, math.pi - inc if how == 'mirror' else inc, ctx.array([0.3 + a, 4.0 + a]))
        ctx.eq('longitudinal field at %g' % inc, b1, b0, atol=1e-9)


@harness('C42', cases=[(h,) for h in ANGLES + ['mirror']], budget=60,
         bounds='energies, energy matrices and coefficients after conversion, of 3 coefficients of degree up to 3 and order >= 1 with symbolic values; the same turns')
def numbers(ctx, how):
    keys = [(1, 1), (2, 1), (3, 2)]
    t = sym_table(ctx, 'a', keys, 3)
    a = 0.0 if how == 'mirror' else angle_of(ctx, how)
    u = mirrored(t) if how == 'mirror' else turned(ctx, t, a)
    c0, c1 = [build(ctx, x, default(ctx, 3)) for x in (t, u)]
    z0, z1 = [ctx.keep(rel.zdi(ctx, c)) for c in (c0, c1)]
    for n, x, y in zip(('alpha', 'beta', 'gamma'), z0.energy(dest={}), z1.energy(dest={})):
        ctx.eq('energy of ' + n, y, x, atol=1e-9)
    for i, (x, y) in enumerate(zip(z0.energy_matrix(), z1.energy_matrix())):
        ctx.eq('matrix %d' % i, y, x, atol=1e-9)
    p0, p1 = [rel.entries(ctx.mod('converter').convert_zdi_to_pfss(c)) for c in (c0, c1)]
    ctx.same('entries', sorted(p1), sorted(p0))
    for (l, m) in p0:
        f = phase(ctx, -m, a)
        w = mirrored({(l, m): p0[l, m]})[l, m] if how == 'mirror' else [x * f for x in p0[l, m]]
        ctx.eq('converted %d %d' % (l, m), p1[l, m], w, atol=1e-9)


@harness('C42', cases=[(h,) for h in ANGLES + ['mirror']], budget=60, bounds='folding of the negative orders of 4 coefficients of degree up to 2 with symbolic values; the same turns')
def folding(ctx, how):
    t = sym_table(ctx, 'a', [(1, 1), (1, -1), (2, -2), (2, 1)], 1)
    a = 0.0 if how == 'mirror' else angle_of(ctx, how)
    u = mirrored(t) if how == 'mirror' else turned(ctx, t, a)
    p0, p1 = [rel.entries(ctx.mod('converter').map_to_positive_orders(build(ctx, x, default(ctx, 1)))) for x in (t, u)]
    ctx.same('entries', sorted(p1), sorted(p0))
    for (l, m) in p0:
        w = mirrored({(l, m): p0[l, m]})[l, m] if how == 'mirror' else [x * phase(ctx, -m, a) for x in p0[l, m]]
        ctx.eq('folded %d %d' % (l, m), p1[l, m], w, atol=1e-9)
