"""The longitudinal field curve is the area weighted mean of the line of sight component over the visible disc."""
import math
from symx.harness import harness
from props.util import *
from props import oracle
from props.stubs import Recorder

BOUNDS = 'grids of 2 x 3 to 4 x 6 cells; symbolic coefficients; '


def direction(np, p, a):
    return [np.sin(p) * np.cos(a), np.sin(p) * np.sin(a), np.cos(p)]


def magnetogram(ctx, keys):
    Z = ctx.mod('zdi_magnetogram')
    n = len(keys)
    t = [[ctx.cplx('%s%d,%d' % (s, *k)) for k in keys] for s in 'abg']
    np_ = lambda c, x: ctx.array(x)
    z = ctx.keep(Z.ZdiMagnetogram(np_(ctx, [k[0] for k in keys]), np_(ctx, [k[1] for k in keys]), *[ctx.array(x) for x in t]))
    return z, {k: [t[0][i], t[1][i], t[2][i]] for i, k in enumerate(keys)}


def expected(ctx, field, cp, ca, ar, obs):
    """Explicit sum over the cells; field[i][j] is a Cartesian vector."""
    num = den = 0.0
    for i, a in enumerate(ca):
        for j, p in enumerate(cp):
            mu = sum(x * y for x, y in zip(direction(ctx.np, p, a), obs))
            if mu > 0:
                wgt = mu * ar[i][j]
                num = num + wgt * sum(x * y for x, y in zip(field[i][j], obs))
                den = den + wgt
    return num / den


@harness('C25', cases=lambda tier: [(3, 4, 1.1), (3, 4, 0.0), (5, 7, 0.6)] + ([(4, 7, 2.3), (6, 9, 1.4)] if tier != 'quick' else []),
         bounds=BOUNDS + 'observer at fixed polar angles and azimuths, several at once; oracle field from the series definition')
def curve(ctx, npol, naz, incl):
    L, G = ctx.mod('longitudinal_field'), ctx.mod('geometry')
    np = ctx.np
    z, t = magnetogram(ctx, [(1, 0), (1, 1), (2, 1)])
    g = ctx.keep(G.ZdiGeometry(npol, naz))
    az = [0.0, 1.0, 3.0, 6.0]
    got = L.get_longitudinal_field_curve(g, z, incl, ctx.array(az))
    ctx.same('shape', tuple(got.shape), (4,))
    pc, ac = [math.pi * i / (npol - 1) for i in range(npol)], [2 * math.pi * i / (naz - 1) for i in range(naz)]
    cp, ca = [(a + b) / 2 for a, b in zip(pc, pc[1:])], [(a + b) / 2 for a, b in zip(ac, ac[1:])]
    ar = [[(math.cos(p0) - math.cos(p1)) * (a1 - a0) for p0, p1 in zip(pc, pc[1:])] for a0, a1 in zip(ac, ac[1:])]
    field = []
    for a in ca:
        row = []
        for p in cp:
            f = oracle.zdi_field(ctx, t, p, a)
            row.append(oracle.to_cartesian(np, f['rad'], f['pol_pol'] + f['pol_tor'], f['azi_pol'] + f['azi_tor'], p, a))
        field.append(row)
    for k, a in enumerate(az):
        obs = [math.sin(incl) * math.cos(a), math.sin(incl) * math.sin(a), math.cos(incl)]
        ctx.eq('longitudinal field %d' % k, got[k], expected(ctx, field, cp, ca, ar, obs))


def grid_oracle(pc, ac):
    cp, ca = [(a + b) / 2 for a, b in zip(pc, pc[1:])], [(a + b) / 2 for a, b in zip(ac, ac[1:])]
    return cp, ca, [[(math.cos(p0) - math.cos(p1)) * (a1 - a0) for p0, p1 in zip(pc, pc[1:])] for a0, a1 in zip(ac, ac[1:])]


def field_oracle(ctx, t, cp, ca):
    out = []
    for a in ca:
        row = []
        for p in cp:
            f = oracle.zdi_field(ctx, t, p, a)
            row.append(oracle.to_cartesian(ctx.np, f['rad'], f['pol_pol'] + f['pol_tor'], f['azi_pol'] + f['azi_tor'], p, a))
        out.append(row)
    return out


GRIDS = [([0.0, 0.7, 1.5, 2.9], [0.0, 1.0, 3.5, 2 * math.pi]), ([0.3, 1.4, math.pi], [0.5, 2.0, 4.0, 5.5, 6.0])]


@harness('C25', cases=[(((3, -2), (6, 6)), 1.1), (((12, 5),), 2.4), (((1, -1), (2, 0), (4, 3)), math.pi)],
         bounds='two uneven grids of 9 and 8 cells used in turn with two magnetograms of degree up to 12, orders of both signs; symbolic coefficients; two azimuths')
def in_turn(ctx, keys, incl):
    L, G = ctx.mod('longitudinal_field'), ctx.mod('geometry')
    z1, t1 = magnetogram(ctx, list(keys))
    Z = ctx.mod('zdi_magnetogram')
    a = ctx.cplx('single', -50, 50)
    z2 = ctx.keep(Z.ZdiMagnetogram(ctx.array([1]), ctx.array([1]), ctx.array([a]), ctx.array([2.0 * a]), ctx.array([-0.5 * a])))
    t2 = {(1, 1): [a, 2.0 * a, -0.5 * a]}
    gs = [ctx.keep(G.ZdiGeometry(ctx.array(p), ctx.array(q))) for p, q in GRIDS]
    for k, (n, z, t, az) in enumerate([(0, z1, t1, [0.2, 4.0]), (0, z2, t2, [0.2, 4.0]), (1, z2, t2, [0.2]), (0, z1, t1, [1.9]), (1, z1, t1, [6.0])]):
        got = L.get_longitudinal_field_curve(gs[n], z, incl, ctx.array(az))
        cp, ca, ar = grid_oracle(*GRIDS[n])
        f = field_oracle(ctx, t, cp, ca)
        want = [expected(ctx, f, cp, ca, ar, [math.sin(incl) * math.cos(x), math.sin(incl) * math.sin(x), math.cos(incl)]) for x in az]
        ctx.eq('longitudinal field %d' % k, got, want)


@harness('C25', cases=lambda tier: [(2, 2)] + ([(3, 3), (2, 4)] if tier != 'quick' else []), budget=60,
         bounds='grids up to 2 x 2 (thorough 2 x 3) cells, observer at every polar angle in [0, pi] and azimuth in [0, 2 pi], '
                'symbolic coefficients')
def observer(ctx, npol, naz):
    L, G = ctx.mod('longitudinal_field'), ctx.mod('geometry')
    np = ctx.np
    z, t = magnetogram(ctx, [(1, 0), (1, 1)])
    pc, ac = ([0.4, 1.5, 2.6][:npol], [0.2, 2.2, 3.9, 6.0][:naz])
    g = ctx.keep(G.ZdiGeometry(ctx.array(pc), ctx.array(ac)))
    p, a = ctx.angle('observer polar', 0, ctx.PI), ctx.angle('observer azimuth', 0, 2 * ctx.PI)
    cp, ca = [(x + y) / 2 for x, y in zip(pc, pc[1:])], [(x + y) / 2 for x, y in zip(ac, ac[1:])]
    ar = [[(math.cos(p0) - math.cos(p1)) * (a1 - a0) for p0, p1 in zip(pc, pc[1:])] for a0, a1 in zip(ac, ac[1:])]
    obs = direction(np, p, a)
    mus = [sum(x * y for x, y in zip(direction(np, q, b), obs)) for q in cp for b in ca]
    seen = [bool(m > 0.01) for m in mus]
    for m, s in zip(mus, seen):
        if not s:
            ctx.assume(m <= 0)
    if not any(seen):
        return
    got = L.get_longitudinal_field_curve(g, z, p, ctx.array([a]))
    field = []
    for b in ca:
        row = []
        for q in cp:
            f = oracle.zdi_field(ctx, t, q, b)
            row.append(oracle.to_cartesian(np, f['rad'], f['pol_pol'] + f['pol_tor'], f['azi_pol'] + f['azi_tor'], q, b))
        field.append(row)
    ctx.eq('longitudinal field', got, [expected(ctx, field, cp, ca, ar, obs)])


@harness('C25', cases=[(n,) for n in (4, 7)], bounds='default azimuths: one per row of grid corners from 0 to 360 degrees; observer '
         'azimuths given as whole numbers; symbolic coefficients')
def azimuths(ctx, naz):
    L, G = ctx.mod('longitudinal_field'), ctx.mod('geometry')
    np = ctx.np
    z, t = magnetogram(ctx, [(1, 0), (1, 1), (2, 2)])
    g = ctx.keep(G.ZdiGeometry(3, naz))
    got = L.get_longitudinal_field_curve(g, z, 1.3)
    ctx.same('shape', tuple(got.shape), (naz,))
    each = [L.get_longitudinal_field_curve(g, z, 1.3, ctx.array([2 * math.pi * k / (naz - 1)]))[0] for k in range(naz)]
    ctx.eq('default azimuths', got, each)
    whole = L.get_longitudinal_field_curve(g, z, 1.3, ctx.array([0, 2, 5]))
    ctx.eq('whole azimuths', whole, list(L.get_longitudinal_field_curve(g, z, 1.3, ctx.array([0.0, 2.0, 5.0]))))
    x = ctx.array([0.5, 1.5])
    L.get_longitudinal_field_curve(g, z, 1.3, x)
    ctx.eq('azimuths unchanged', x, [0.5, 1.5])


@harness('C25', cases=[(n,) for n in (None, 3)], budget=60, bounds='curves on a grid of 2 x 3 cells, default or 3 given azimuths; coefficients are fixed numbers times one '
         'symbolic amplitude of either sign')
def drawn(ctx, n):
    L, G, Z = ctx.mod('longitudinal_field'), ctx.mod('geometry'), ctx.mod('zdi_magnetogram')
    np = ctx.np
    a = ctx.real('amplitude', -10.0, 10.0)
    ctx.assume((a > 0.1) | (a < -0.1))
    co = [[a * (1.0 + 0.5j), a * (-2.0 + 1.0j)], [a * 0.5j, a * (1.0 - 1.0j)], [a * (1.0 + 0j), a * (0.25 + 0.5j)]]
    z = ctx.keep(Z.ZdiMagnetogram(ctx.array([1, 2]), ctx.array([0, 1]), *[ctx.array(x) for x in co]))
    g = ctx.keep(G.ZdiGeometry(3, 4))
    given = None if n is None else [0.0, 1.0, 4.5]
    want_az = [2 * math.pi * k / 3 for k in range(4)] if n is None else given
    args = (ctx.array(given),) if given else ()
    ax = Recorder('ax', attrs=dict(xaxis=Recorder()))
    want = L.get_longitudinal_field_curve(g, z, 1.1, *args)
    got_ax, data = L.plot_longitudinal_field_curve(ax, g, z, 1.1, *args)
    ctx.true('axes', got_ax is ax)
    ctx.eq('returned', [list(data[0]), list(data[1])], [want_az, list(want)])
    calls = ax.of('plot')
    ctx.same('one curve', len(calls), 1)
    ctx.eq('curve', [list(calls[0][0][0]), list(calls[0][0][1])], [[x * 180 / math.pi for x in want_az], list(want)])
    ctx.eq('mean line', ax.of('axhline')[0][0][0], sum(want, 0.0) / len(want_az))
    lo, hi = ax.of('set_ylim')[0][0][0]
    for w in want:
        ctx.true('inside', (w <= hi) & (w >= lo))


@harness('C25', cases=[(9, 17, 0.9), (16, 11, 2.2)], bounds='grids of 8 x 16 and 15 x 10 cells, 12 azimuths from -4 to 11; entries of degree up to 9, three symbolic')
def large(ctx, npol, naz, incl):
    L, G = ctx.mod('longitudinal_field'), ctx.mod('geometry')
    z, t = magnetogram(ctx, [(1, 0), (4, -3), (9, 7)])
    az = [-4.0 + 1.3 * i for i in range(12)]
    got = L.get_longitudinal_field_curve(ctx.keep(G.ZdiGeometry(npol, naz)), z, incl, ctx.array(az))
    cp, ca, ar = grid_oracle([math.pi * i / (npol - 1) for i in range(npol)], [2 * math.pi * i / (naz - 1) for i in range(naz)])
    f = field_oracle(ctx, t, cp, ca)
    ctx.eq('longitudinal field', got, [expected(ctx, f, cp, ca, ar, [math.sin(incl) * math.cos(x), math.sin(incl) * math.sin(x), math.cos(incl)]) for x in az])
