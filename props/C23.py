"""Geometry of the surface grid: exact cell areas, centres, normals and projections."""
import math
from symx.harness import harness
from props.util import *


def corners(ctx, npol, naz):
    """Symbolic increasing corner angles."""
    pol = [ctx.angle('polar%d' % i, 0, ctx.PI, unit=0.5) for i in range(npol)]
    az = [ctx.angle('azimuth%d' % i, -ctx.PI, 2 * ctx.PI, unit=0.5) for i in range(naz)]
    for x in (pol, az):
        for a, b in zip(x, x[1:]):
            ctx.assume(b - a >= 0.01)
    ctx.assume(az[-1] - az[0] <= 2 * ctx.PI - 0.001)
    ctx.assume(pol[-1] - pol[0] <= ctx.PI - 0.001)
    return pol, az


@harness('C23', cases=lambda tier: [(2, 2), (3, 2), (2, 4), (4, 3)] + ([(6, 5)] if tier != 'quick' else []), budget=40,
         bounds='up to 4 x 3 (thorough 6 x 5) corners at every increasing polar angle in [0, pi] and azimuth in [-pi, 2 pi], symbolic')
def cells(ctx, npol, naz):
    G = ctx.mod('geometry')
    np = ctx.np
    pol, az = corners(ctx, npol, naz)
    g = ctx.keep(G.ZdiGeometry(ctx.array(pol), ctx.array(az)))
    ctx.same('shape', tuple(g.shape), (naz, npol))
    P, A = g.corners()
    ctx.eq('corners', [P, A], [[[p for p in pol] for a in az], [[a for p in pol] for a in az]])
    cp = [(a + b) / 2 for a, b in zip(pol, pol[1:])]
    ca = [(a + b) / 2 for a, b in zip(az, az[1:])]
    P, A = g.centers()
    ctx.eq('centers', [P, A], [[[p for p in cp] for a in ca], [[a for p in cp] for a in ca]])
    ar = g.areas()
    w = [[(np.cos(p0) - np.cos(p1)) * (a1 - a0) for p0, p1 in zip(pol, pol[1:])] for a0, a1 in zip(az, az[1:])]
    ctx.eq('areas', ar, w)
    ctx.eq('total area', np.sum(ar), (np.cos(pol[0]) - np.cos(pol[-1])) * (az[-1] - az[0]))
    x, y, z = g.corners_cartesian()
    ctx.eq('corner points', [x, y, z], [[[f(p, a) for p in pol] for a in az] for f in (
        lambda p, a: np.sin(p) * np.cos(a), lambda p, a: np.sin(p) * np.sin(a), lambda p, a: np.cos(p))])
    cen = [[[f(p, a) for p in cp] for a in ca] for f in (
        lambda p, a: np.sin(p) * np.cos(a), lambda p, a: np.sin(p) * np.sin(a), lambda p, a: np.cos(p))]
    ctx.eq('center points', list(g.centers_cartesian()), cen)
    n = g.unit_normals()
    ctx.same('normals shape', tuple(n.shape), (naz - 1, npol - 1, 3))
    ctx.eq('normals', [n[..., k] for k in range(3)], cen)
    # asking again gives the same answer
    ctx.eq('areas again', g.areas(), w)
    ctx.eq('centers again', list(g.centers()), [[[p for p in cp] for a in ca], [[a for p in cp] for a in ca]])


@harness('C23', cases=[(2, 1), (2, 2), (3, 4), (4, None), (9, None), (None, None)], heavy=True,
         bounds='grids given by the number of corners (up to 9 x 18), and the default grid of 64 x 129 cells')
def whole(ctx, npol, naz):
    G = ctx.mod('geometry')
    np = ctx.np
    if npol is None:
        g, npol, naz = ctx.keep(G.ZdiGeometry()), 65, 130
    elif naz is None:
        g, naz = ctx.keep(G.ZdiGeometry(npol)), 2 * npol
    else:
        naz += 1
        g = ctx.keep(G.ZdiGeometry(npol, naz))
    ctx.same('shape', tuple(g.shape), (naz, npol))
    P, A = g.corners()
    ctx.eq('polar corners', P[0], [math.pi * i / (npol - 1) for i in range(npol)])
    ctx.eq('azimuth corners', A[:, 0], [2 * math.pi * i / (naz - 1) for i in range(naz)])
    ar = g.areas()
    ctx.same('cells', tuple(ar.shape), (naz - 1, npol - 1))
    ctx.true('areas are positive', ar > 0)
    ctx.eq('the cells cover the sphere', np.sum(ar), 4 * math.pi)
    # the visible hemisphere of a direction, with a symbolic length
    s = ctx.real('length', 0.01, 100)
    f = g.projected_visible_area_fraction(ctx.array([0.6 * s, 0.0, 0.8 * s]))
    cp, ca = g.centers()
    w = np.sin(cp) * np.cos(ca) * 0.6 + np.cos(cp) * 0.8
    if npol <= 9:
        for i in range(naz - 1):
            for j in range(npol - 1):
                ctx.eq('visible%d,%d' % (i, j), f[i, j], max(0.0, float(w[i, j])) if abs(float(w[i, j])) > 1e-12 else 0.0,
                       log=False, atol=1e-9)


@harness('C23', cases=[(2, 2), (3, 3)], budget=40, bounds='cells at symbolic angles, every direction with components in [-10,10] and length at least '
                           '0.1 (cells whose normal is within 1e-6 of the limb are left out)')
def projection(ctx, npol, naz):
    G = ctx.mod('geometry')
    np = ctx.np
    if npol == 2:
        pol, az = corners(ctx, npol, naz)
    else:
        pol, az = [0.3, 1.2, 2.5], [0.1, 2.0, 5.5]
    g = ctx.keep(G.ZdiGeometry(ctx.array(pol), ctx.array(az)))
    d = [ctx.real('d%d' % i, -10, 10) for i in range(3)]
    n2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
    ctx.assume(n2 >= 0.01)
    f = g.projected_visible_area_fraction(ctx.array(d))
    ctx.same('shape', tuple(f.shape), (naz - 1, npol - 1))
    ctx.true('not negative', f >= 0)
    nrm = np.sqrt(n2)
    for i in range(naz - 1):
        for j in range(npol - 1):
            p, a = (pol[j] + pol[j + 1]) / 2, (az[i] + az[i + 1]) / 2
            w = (d[0] * np.sin(p) * np.cos(a) + d[1] * np.sin(p) * np.sin(a) + d[2] * np.cos(p)) / nrm
            if w > 1e-6:
                ctx.eq('visible%d,%d' % (i, j), f[i, j], w)
            else:
                ctx.assume(w < -1e-6)
                ctx.eq('hidden%d,%d' % (i, j), f[i, j], 0.0)


@harness('C23', bounds='corner arrays (rising, falling or unordered) spanning more than pi or 2 pi by any symbolic excess are refused')
def refused(ctx):
    G = ctx.mod('geometry')
    e = ctx.real('excess', 0.01, 5)
    which = ctx.choice('which', ['polar', 'azimuth'])
    if which == 'polar':
        for p in ([0.0, 1.0, ctx.PI + e], [ctx.PI + e, 1.0, 0.0], [0.5, 0.5 + ctx.PI + e, 1.0], [1.0, 0.0, ctx.PI + e, 1.5]):
            ctx.raises('polar range', lambda: G.ZdiGeometry(ctx.array(p), ctx.array([0.0, 1.0])))
    else:
        for a in ([0.0, 1.0, 2 * ctx.PI + e], [2 * ctx.PI + e, 1.0, 0.0], [0.5, 0.5 + 2 * ctx.PI + e, 1.0], [1.0, -1.0, 2 * ctx.PI + e, 1.5]):
            ctx.raises('azimuth range', lambda: G.ZdiGeometry(ctx.array([0.0, 1.0]), ctx.array(a)))


@harness('C23', cases=[(0,), (1,)], budget=40, bounds='two grids of 2 x 1 and 1 x 2 cells at symbolic angles used in turn; arrays given to or received from one are overwritten by the caller')
def independent(ctx, first):
    G = ctx.mod('geometry')
    np = ctx.np
    pol, az = corners(ctx, 3, 2)
    grids = [(pol, az), ([0.5, 2.0], [0.25, 1.0, 4.0])]
    if first:
        grids = grids[::-1]
    gs = []
    for p, a in grids:
        pa, aa = ctx.array(p), ctx.array(a)
        gs.append(ctx.keep(G.ZdiGeometry(pa, aa)))
        ctx.give(pa)
        pa *= 0.5
        ctx.give(aa)
        aa += 0.125
    d = [0.0, 0.6, -0.8]
    for again in range(2):
        for g, (p, a) in zip(gs, grids):
            cp, ca = [(x + y) / 2 for x, y in zip(p, p[1:])], [(x + y) / 2 for x, y in zip(a, a[1:])]
            ctx.eq('corners', list(g.corners()), [[list(p) for _ in a], [[x for _ in p] for x in a]])
            ar, cen, n, xyz = g.areas(), g.centers(), g.unit_normals(), g.centers_cartesian()
            ctx.eq('areas', ar, [[(np.cos(p0) - np.cos(p1)) * (a1 - a0) for p0, p1 in zip(p, p[1:])] for a0, a1 in zip(a, a[1:])])
            ctx.eq('centers', list(cen), [[cp for _ in ca], [[x for _ in cp] for x in ca]])
            c = [[[f(y, x) for y in cp] for x in ca] for f in (lambda y, x: np.sin(y) * np.cos(x), lambda y, x: np.sin(y) * np.sin(x), lambda y, x: np.cos(y))]
            ctx.eq('normals', [n[..., k] for k in range(3)], c)
            ctx.eq('center points', list(xyz), c)
            corner = list(g.corners_cartesian())
            ctx.eq('corner points', corner, [[[f(y, x) for y in p] for x in a] for f in (
                lambda y, x: np.sin(y) * np.cos(x), lambda y, x: np.sin(y) * np.sin(x), lambda y, x: np.cos(y))])
            for q in [ar, n] + list(cen) + list(xyz) + corner:
                q *= 3.0


@harness('C23', cases=[(v,) for v in ((1, 0, 0), (0, -2, 0), (3, 0, 4), (0, 0, -1), (2, -3, 6))], bounds='directions given as whole numbers; grid of 3 x 2 cells; the direction is not changed')
def whole_direction(ctx, v):
    G = ctx.mod('geometry')
    pol, az = [0.3, 1.2, 2.5], [0.1, 2.0, 4.0, 5.5]
    s = ctx.real('stretch', 0.75, 1.25)
    g = ctx.keep(G.ZdiGeometry(ctx.array([0.3 * s, 1.2, 2.5]), ctx.array(az)))
    d = ctx.array(list(v))
    f = g.projected_visible_area_fraction(d)
    ctx.same('direction unchanged', [int(x) for x in d], list(v))
    n = math.sqrt(sum(x * x for x in v))
    pol[0] = 0.3 * s
    np = ctx.np
    for i in range(3):
        for j in range(2):
            p, a = (pol[j] + pol[j + 1]) / 2, (az[i] + az[i + 1]) / 2
            w = (v[0] * np.sin(p) * np.cos(a) + v[1] * np.sin(p) * np.sin(a) + v[2] * np.cos(p)) / n
            ctx.eq('visible%d,%d' % (i, j), f[i, j], w if bool(w > 0) else 0.0, atol=1e-9)
