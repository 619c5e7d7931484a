"""Field maps on a latitude-longitude grid are converted to the coefficients of that field."""
import math
from symx.harness import harness
from props.util import *
from props import oracle

PI = math.pi


def grid(npl, naz, shift=0.0):
    """Cell centres, first index azimuth, second index polar angle (plain floats)."""
    dp, da = PI / npl, 2 * PI / naz
    pl = [(j + 0.5) * dp for j in range(npl)]
    az = [(i + 0.5) * da + shift for i in range(naz)]
    return pl, az, dp, da


def projections(l, m, pl, az, fr, fp, fa, area):
    """Sums over the cells of the field times the conjugate (vector) harmonics, weighted by sin(polar) * area."""
    a = b = g = 0j
    k = oracle.clm(l, m) * (1 if m == 0 else 2)
    for i in range(len(az)):
        er, ei = math.cos(m * az[i]), -math.sin(m * az[i])
        e = complex(er, ei)
        for j in range(len(pl)):
            c, s = math.cos(pl[j]), math.sin(pl[j])
            p, dp, ps = oracle.plm(l, m, c, s), oracle.dplm(l, m, c, s), oracle.plm_over_sin(l, m, c, s)
            w = k * s * area[i][j]
            a = a + fr[i][j] * (w * p * e)
            if l:
                b = b + fp[i][j] * (-w * dp * e / l) + fa[i][j] * (1j * w * ps * e / l)
                g = g + fp[i][j] * (-1j * w * ps * e / l) + fa[i][j] * (-w * dp * e / l)
    return [a, b, g]


@harness('C14', cases=lambda tier: [(6, 8, 2), (5, 6, 3), (8, 10, 1)] + ([(8, 12, 6), (12, 16, 4)] if tier != 'quick' else []), budget=60,
         bounds='grids of 5x6 to 8x10 (thorough 12x16) cells with every field value symbolic in [-10,10]; degree up to 3 (thorough 6); '
                'cell size implied or given')
def projection(ctx, npl, naz, L):
    V = ctx.mod('converter')
    np = ctx.np
    how = ctx.choice('area', ['implied', 'number'])
    shift = ctx.choice('shift', [0.0, 0.35])
    pl, az, dp, da = grid(npl, naz, shift)
    f = [[[ctx.real('%s%d,%d' % (n, i, j), lin=True) for j in range(npl)] for i in range(naz)] for n in 'rpa']
    P = ctx.array([[pl[j] for j in range(npl)] for i in range(naz)])
    A = ctx.array([[az[i] for j in range(npl)] for i in range(naz)])
    F = [ctx.array(x) for x in f]
    if how == 'implied':
        area, kw = [[dp * da] * npl] * naz, {}
    else:
        area, kw = [[1.25 * dp * da] * npl] * naz, {'area': 1.25 * dp * da}
    c = V.convert_latlon_to_zdi_coeffs(P, A, *F, max_degree=L, **kw)
    want = {k: projections(k[0], k[1], pl, az, *f, area) for k in keys_upto(L, 0, 0)}
    check_table(ctx, 'coefficients', c, want, 3)
    for x, y, n in zip(F, f, ('radial', 'polar', 'azimuthal')):
        ctx.eq('input ' + n, x, y)
    ctx.eq('input angles', P, [[pl[j] for j in range(npl)] for i in range(naz)])


@harness('C14', cases=[('list',), ('one',), ('default',), ('zero',)],
         bounds='4 x 6 cells, symbolic values; degrees and orders given as a list in any sequence, of degree up to 20 and both signs of the order, as single numbers, the default '
                'highest degree (5) and 0')
def listed(ctx, kind):
    V = ctx.mod('converter')
    npl, naz = 4, 6
    pl, az, dp, da = grid(npl, naz, 0.2)
    f = [[[ctx.real('%s%d,%d' % (n, i, j), lin=True) for j in range(npl)] for i in range(naz)] for n in 'rpa']
    P = ctx.array([[pl[j] for j in range(npl)] for i in range(naz)])
    A = ctx.array([[az[i] for j in range(npl)] for i in range(naz)])
    F = [ctx.array(x) for x in f]
    if kind == 'list':
        keys = [(9, 8), (3, 2), (0, 0), (20, 18), (15, 15), (1, 1), (12, 0), (2, -1), (9, -7), (3, -3)]
        c = V.get_zdi_coeffs(P, A, [k[0] for k in keys], [k[1] for k in keys], *F)
    elif kind == 'one':
        keys = [ctx.choice('key', [(0, 0), (2, 0), (7, 6), (4, -3)])]
        c = V.get_zdi_coeffs(P, A, keys[0][0], keys[0][1], *F)
    elif kind == 'zero':
        keys = [(0, 0)]
        c = V.convert_latlon_to_zdi_coeffs(P, A, *F, max_degree=0)
    else:
        keys = keys_upto(5, 0, 0)
        c = V.convert_latlon_to_zdi_coeffs(P, A, *F)
    area = [[dp * da] * npl] * naz
    check_table(ctx, 'coefficients', c, {k: projections(k[0], k[1], pl, az, *f, area) for k in keys}, 3)
    for x, y, n in zip(F, f, ('radial', 'polar', 'azimuthal')):
        ctx.eq('input ' + n, x, y)


@harness('C14', cases=lambda tier: [(16, 24, (n,), 2) for n in range(3)] + [(14, 20, (0, 1, 2), 1)] +
         ([(24, 40, (n,), 4) for n in range(3)] if tier != 'quick' else []), budget=120, heavy=True,
         bounds='field of symbolic coefficients of degree up to 2 (thorough 4) sampled on grids of 16x24 (24x40) cell centres; every '
                'recovered coefficient within 4 percent of the largest possible coefficient (discretisation error)')
def recovers(ctx, npl, naz, sets, L):
    V, Z, G = ctx.mod('converter'), ctx.mod('zdi_magnetogram'), ctx.mod('geometry')
    keys = keys_upto(L, 0, 0)
    t = {}
    for l, m in keys:
        v = []
        for n in range(3):
            if n not in sets or (n and l == 0):
                v.append(0j)
            elif m == 0:
                v.append(ctx.real('c%d[%d,%d]' % (n, l, m), -1, 1, lin=True) + 0j)
            else:
                v.append(ctx.cplx('c%d[%d,%d]' % (n, l, m), -1, 1))
        t[(l, m)] = v
    zg = ctx.keep(G.ZdiGeometry(npl + 1, naz + 1))
    P, A = zg.centers()
    zm = ctx.keep(Z.from_coefficients(build(ctx, t, default(ctx, 3))))
    z2 = V.convert_latlon_to_zdi(P, A, zm.get_radial_field(P, A), zm.get_polar_field(P, A), zm.get_azimuthal_field(P, A), max_degree=L)
    ctx.same('keys', [(int(l), int(m)) for l, m in zip(z2.degrees_l, z2.orders_m)], keys)
    for n, got in enumerate((z2.alpha, z2.beta, z2.gamma)):
        ctx.close('set %d' % n, got, [t[k][n] for k in keys], abs_=0.04)
