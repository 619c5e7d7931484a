"""Radial dependence of the potential field: boundary values and derivative."""
from symx.harness import harness
from props.util import *


@harness('C19', cases=lambda tier: [(l,) for l in list(range(0, 9 if tier == 'quick' else 21)) + [12, 15, 16, 20, 25, 30, 45, 60][0 if tier == 'quick' else 4:]],
         bounds='degree 0 to 8 (thorough 20) and 12, 15, 16, 20, 25, 30, 45, 60; evaluation radius, stellar radius and source surface radius symbolic, 0.5 <= r0 < rss <= 8, '
                'r0 <= r <= rss')
def radial(ctx, l):
    F = ctx.mod('pfss_magnetogram')
    r0 = ctx.real('r0', 0.5, 1.5)
    rss = ctx.real('rss', 1.75, 8.0)
    r = ctx.real('r', 0.5, 8.0)
    ctx.assume(r0 <= r)
    ctx.assume(r <= rss)
    v, d = F.r_l(l, r, r0, rss)
    n = 2 * l + 1
    norm = (l + 1) * rss ** n + l * r0 ** n
    # R = r0^(l+2) (rss^n - r^n) / (r^(l+1) norm)
    ctx.eq('value', v * r ** (l + 1) * norm, r0 ** (l + 2) * (rss ** n - r ** n))
    ctx.eq('derivative', d * r ** (l + 2) * norm, -r0 ** (l + 2) * ((l + 1) * rss ** n + l * r ** n))


@harness('C19', cases=lambda tier: [(l,) for l in list(range(0, 9 if tier == 'quick' else 21)) + [12, 15, 16, 20, 25, 30, 45, 60][0 if tier == 'quick' else 4:]],
         bounds='degree 0 to 8 (thorough 20) and 12, 15, 16, 20, 25, 30, 45, 60; stellar and source surface radius symbolic')
def boundaries(ctx, l):
    F = ctx.mod('pfss_magnetogram')
    r0, rss = ctx.real('r0', 0.5, 1.5), ctx.real('rss', 1.75, 8.0)
    ctx.eq('no potential at the source surface', F.r_l(l, rss, r0, rss)[0], 0.0)
    ctx.eq('unit radial field at the stellar surface', F.r_l(l, r0, r0, rss)[1], -1.0)


@harness('C19', cases=lambda tier: [(l,) for l in [0, 1, 2, 3, 4, 5, 6, 11, 17, 30, 59]], bounds='degree 0 to 6, 11, 17, 30, 59; arrays of 3 symbolic radii')
def arrays(ctx, l):
    F = ctx.mod('pfss_magnetogram')
    r = [ctx.real('r%d' % i, 1.0, 2.5) for i in range(3)]
    v, d = F.r_l(l, ctx.array(r), 1.0, 2.5)
    for i in range(3):
        a, b = F.r_l(l, r[i], 1.0, 2.5)
        ctx.eq('value%d' % i, v[i], a)
        ctx.eq('derivative%d' % i, d[i], b)


@harness('C19', cases=lambda tier: [(m,) for m in [0, 1, 2, 3, 4, 5, 8, 12, 16, 31, 60, -1, -2, -5]], bounds='order 0 to 5, 8, 12, 16, 31, 60, -1, -2, -5; azimuth and both coefficients symbolic')
def azimuthal(ctx, m):
    F = ctx.mod('pfss_magnetogram')
    g, h, ph = ctx.real('g', lin=True), ctx.real('h', lin=True), ctx.angle('azimuth', -2 * ctx.PI, 2 * ctx.PI)
    v, d = F.phi_lm(m, g, h, ph)
    c, s = (1.0, 0.0) if m == 0 else (ctx.np.cos(m * ph), ctx.np.sin(m * ph))
    ctx.eq('value', v, g * c + h * s)
    ctx.eq('derivative', d, m * (h * c - g * s))
