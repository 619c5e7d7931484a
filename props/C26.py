"""Images and spherical harmonic coefficients: synthesis is the exact sum, analysis the exact quadrature, and they match."""
import math
from symx.harness import harness
from props.util import *
from props import oracle


def ylm(l, m, p, a):
    """Spherical harmonic at a concrete point."""
    return oracle.clm(l, m) * oracle.plm(l, m, math.cos(p), math.sin(p)) * complex(math.cos(m * a), math.sin(m * a))


def cells(npol, naz):
    """Cell centres of the whole sphere: npol x naz cells."""
    return [math.pi * (i + 0.5) / npol for i in range(npol)], [2 * math.pi * (i + 0.5) / naz for i in range(naz)]


@harness('C26', cases=lambda tier: [(2, 3), (3, 4)] + ([(5, 8)] if tier != 'quick' else []),
         bounds='images of up to 4 x 3 (thorough 8 x 5) pixels, symbolic; degrees below 3 (thorough 4); grid derived from the image or given')
def analysis(ctx, npol, naz):
    I, G = ctx.mod('image_converter'), ctx.mod('geometry')
    np = ctx.np
    img = [[ctx.real('p%d,%d' % (i, j), lin=True) for j in range(npol)] for i in range(naz)]
    arr = ctx.array(img)
    lmax = 3 if npol < 5 else 4
    given = ctx.flag('grid given')
    zg = ctx.keep(G.ZdiGeometry(npol + 1, naz + 1)) if given else None
    c, g = I.from_image(arr, zg, lmax)
    if given:
        ctx.true('the given grid is used', g is zg)
    P, A = cells(npol, naz)
    ctx.eq('grid', list(g.centers()), [[[p for p in P] for a in A], [[a for p in P] for a in A]])
    w = math.pi / npol * 2 * math.pi / naz
    want = {}
    for l in range(lmax):
        for m in range(-l, l + 1):
            want[(l, m)] = [sum(img[i][j] * (ylm(l, m, P[j], A[i]).conjugate() * math.sin(P[j]) * w) for i in range(naz) for j in range(npol))]
    check_table(ctx, 'coefficients', c, want, 1)
    ctx.eq('image unchanged', arr, img)


@harness('C26', cases=lambda tier: [(((0, 0), (1, 0), (1, -1), (2, 1)),), (((3, 3), (3, -2)),)] + ([(tuple(keys_upto(4)),)] if tier != 'quick' else []),
         bounds='symbolic complex coefficients of both signs of the order, degree up to 3 (thorough 4), grids of 3 x 5 and 2 x 2 cells')
def synthesis(ctx, keys):
    I, G = ctx.mod('image_converter'), ctx.mod('geometry')
    np = ctx.np
    t = sym_table(ctx, 'c', keys, 1)
    c = build(ctx, t, default(ctx, 1))
    npol, naz = ctx.choice('grid', [(3, 5), (2, 2)])
    im = I.to_image(c, ctx.keep(G.ZdiGeometry(npol + 1, naz + 1)))
    P, A = cells(npol, naz)
    ctx.eq('image', im, [[sum(t[k][0] * ylm(k[0], k[1], p, a) for k in keys) for p in P] for a in A])
    check_table(ctx, 'coefficients', c, t, 1)


@harness('C26', cases=[(2, 3, 9), (2, 2, None), (3, 2, 0)], bounds='images of 2 x 3, 2 x 2 and 3 x 2 symbolic pixels, real or complex; every degree below the '
         'limit of 9, the default (30) or 0')
def high_degree(ctx, npol, naz, lmax):
    I = ctx.mod('image_converter')
    px = ctx.cplx if ctx.flag('complex') else lambda n: ctx.real(n, lin=True)
    img = [[px('p%d,%d' % (i, j)) for j in range(npol)] for i in range(naz)]
    c, g = I.from_image(ctx.array(img)) if lmax is None else I.from_image(ctx.array(img), lmax=lmax)
    P, A = cells(npol, naz)
    w = math.pi / npol * 2 * math.pi / naz
    want = {}
    for l, m in keys_upto((30 if lmax is None else lmax) - 1):
        want[(l, m)] = [sum(img[i][j] * (ylm(l, m, P[j], A[i]).conjugate() * math.sin(P[j]) * w) for i in range(naz) for j in range(npol))]
    got = table(c)
    ctx.same('entries', sorted(got), sorted(want))
    for k in want:
        ctx.eq('value%s' % list(k), got.get(k, [0j]), want[k], log=False, atol=1e-9)


@harness('C26', cases=[(((9, -8), (12, 11)),), (((20, 19), (29, -29)),)], bounds='pairs of symbolic coefficients of degree 9 to 29 on 3 x 4 and 2 x 2 cells')
def high_synthesis(ctx, keys):
    I, G = ctx.mod('image_converter'), ctx.mod('geometry')
    t = sym_table(ctx, 'c', keys, 1)
    c = build(ctx, t, default(ctx, 1))
    npol, naz = ctx.choice('grid', [(3, 4), (2, 2)])
    im = I.to_image(c, ctx.keep(G.ZdiGeometry(npol + 1, naz + 1)))
    P, A = cells(npol, naz)
    ctx.eq('image', im, [[sum(t[k][0] * ylm(k[0], k[1], p, a) for k in keys) for p in P] for a in A])


@harness('C26', cases=lambda tier: [(8, 16, 3)] + ([(16, 32, 4)] if tier != 'quick' else []), heavy=True,
         bounds='synthesis followed by analysis on 8 x 16 (thorough 16 x 32) cells gives the coefficients of degree below 3 (4) back within 6% '
                '(3%) of the largest one; symbolic coefficients in [-1,1]')
def roundtrip(ctx, npol, naz, lmax):
    I, G = ctx.mod('image_converter'), ctx.mod('geometry')
    keys = [(1, 0), (1, 1), (2, -1), (2, 2), (0, 0)] + ([(3, 1)] if lmax > 3 else [])
    t = {k: [ctx.cplx('c%d,%d' % k, -1, 1)] for k in keys}
    c = build(ctx, t, default(ctx, 1))
    im = I.to_image(c, ctx.keep(G.ZdiGeometry(npol + 1, naz + 1)))
    d, _ = I.from_image(im, None, lmax)
    ctx.same('entries', [tuple(k) for k, v in d.contents()], keys_upto(lmax - 1))
    for k in keys_upto(lmax - 1):
        ctx.close('value%s' % list(k), d.get(*k), t.get(k, [0j]), abs_=0.06 if npol < 16 else 0.03)


@harness('C26', cases=[(0,), (1,), (2,)], bounds='conversions on alternating grids of equal shape, in every order of three; symbolic coefficients: '
         'each result is that of a first conversion')
def history(ctx, first):
    I, G = ctx.mod('image_converter'), ctx.mod('geometry')
    np = ctx.np
    keys = [(1, 0), (2, 1)]
    t = sym_table(ctx, 'c', keys, 1)
    c = build(ctx, t, default(ctx, 1))
    pol = [[0.0, 1.0, 2.0], [0.1, 1.1, 2.1], [0.0, 1.0, 2.0]]
    az = [[0.0, 2.0, 4.0], [0.0, 2.0, 4.0], [0.5, 2.5, 4.5]]
    for step, k in enumerate([first, (first + 1) % 3, first, (first + 2) % 3]):
        g = ctx.keep(G.ZdiGeometry(ctx.array(pol[k]), ctx.array(az[k])))
        P, A = [(a + b) / 2 for a, b in zip(pol[k], pol[k][1:])], [(a + b) / 2 for a, b in zip(az[k], az[k][1:])]
        im = I.to_image(c, g)
        ctx.eq('image%d' % step, im, [[sum(t[q][0] * ylm(q[0], q[1], p, a) for q in keys) for p in P] for a in A])
        im *= 0.0   # the caller reuses the image


@harness('C26', bounds='one point at symbolic angles, degree up to 3, both ways of evaluating harmonics')
def harmonic(ctx):
    I = ctx.mod('image_converter')
    np = ctx.np
    p, a = ctx.angle('polar', 0, ctx.PI, los=True, his=True), ctx.angle('azimuth', 0, 2 * ctx.PI)
    cache = ctx.flag('cache')
    for l, m in ((0, 0), (1, 0), (1, 1), (1, -1), (2, -1), (2, 2), (3, -3), (3, 2)):
        y = I.spherical_harmonic(m, l, ctx.array([[a]]), ctx.array([[p]]), use_cache=cache)
        k = oracle.clm(l, m) * oracle.plm(l, m, np.cos(p), np.sin(p))
        e = oracle.Angles(ctx, p, a).e(m)
        ctx.eq('value%d,%d' % (l, m), y, [[k * (e[0] + 1j * e[1])]])


@harness('C26', cases=[(12, 24), (31, 7)], bounds='images of 12 x 24 and 31 x 7 pixels, three of them symbolic; degrees below 4; and the image of 30 coefficients of degree up to 6, three symbolic')
def large(ctx, npol, naz):
    I, G = ctx.mod('image_converter'), ctx.mod('geometry')
    img = [[math.sin(1.1 * i + 0.6 * j) + 0.3 for j in range(npol)] for i in range(naz)]
    for i, j in ((0, 0), (naz // 2, npol // 3), (naz - 1, npol - 1)):
        img[i][j] = ctx.real('p%d,%d' % (i, j), lin=True)
    c, g = I.from_image(ctx.array(img), None, 4)
    P, A = cells(npol, naz)
    w = math.pi / npol * 2 * math.pi / naz
    want = {}
    for l in range(4):
        for m in range(-l, l + 1):
            want[(l, m)] = [sum(img[i][j] * (ylm(l, m, P[j], A[i]).conjugate() * math.sin(P[j]) * w) for i in range(naz) for j in range(npol))]
    check_table(ctx, 'coefficients', c, want, 1)
    keys = many_keys(30, 6)
    t = many_table(ctx, keys, 1, 'c', 3)
    im = I.to_image(build(ctx, t, default(ctx, 1)), ctx.keep(G.ZdiGeometry(npol + 1, naz + 1)))
    ctx.same('shape', tuple(im.shape), (naz, npol))
    at = [(0, 0), (1, 2), (naz // 2, npol // 3), (naz - 1, 0), (naz - 2, npol - 1)]
    ctx.eq('image', [im[i][j] for i, j in at], [sum(t[k][0] * ylm(k[0], k[1], P[j], A[i]) for k in sorted(keys)) for i, j in at])
