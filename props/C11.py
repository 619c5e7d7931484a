"""Converting PFSS to ZDI coefficients gives the potential field on the stellar surface."""
from symx.harness import harness
from props.util import *
from props import oracle


@harness('C11', cases=lambda tier: [(tuple(keys_upto(2 if tier == 'quick' else 3, 1, 0)),), (((1, 1), (3, 0)),), (((4, 3),),), (((5, 0), (5, 5)),), (((9, 8),),), (((16, 14),),), (((20, 19), (1, 0)),)],
         bounds='full sets up to degree 2 (thorough 3) and sparse ones up to 20, symbolic coefficients; every polar angle in (0, pi) and azimuth in '
                '[0, 2 pi]; stellar radius 1, source surface 2.5')
def surface_field(ctx, keys):
    V = ctx.mod('converter')
    Z, F = ctx.mod('zdi_magnetogram'), ctx.mod('pfss_magnetogram')
    t = sym_table(ctx, 'g', keys, 1)
    p = build(ctx, t, default(ctx, 1))
    z = V.convert_pfss_to_zdi(p)
    check_table(ctx, 'input', p, t, 1)
    th, ph = ctx.angle('polar', 0, ctx.PI, los=True, his=True), ctx.angle('azimuth', 0, 2 * ctx.PI)
    zm = ctx.keep(Z.from_coefficients(z))
    P, A = ctx.array([[th]]), ctx.array([[-ph]])
    got = [zm.get_radial_field(P, A), zm.get_polar_field(P, A), zm.get_azimuthal_field(P, A)]
    br, bt, bp = oracle.pfss_field(ctx, t, 1.0, th, ph, 1.0, 2.5)
    ctx.eq('radial', got[0], [[br]])
    ctx.eq('polar', got[1], [[bt]])
    ctx.eq('azimuthal', got[2], [[-bp]])
    er, et, ep = F.evaluate_spherical(p, 1.0, ctx.array([th]), ctx.array([ph]))
    ctx.eq('evaluated PFSS radial', er, [br])
    ctx.eq('evaluated PFSS polar', et, [bt])
    ctx.eq('evaluated PFSS azimuthal', ep, [bp])


@harness('C11', cases=lambda tier: [(n,) for n in (12, 20, 30, 60, 120)], bounds='every degree up to 30, order >= 0, and a part of the orders of every degree up to 120; symbolic value each')
def coefficients(ctx, lmax):
    V = ctx.mod('converter')
    keys = [k for k in keys_upto(lmax, {12: 0, 20: 13, 30: 21, 60: 31, 120: 61}[lmax], 0) if lmax <= 30 or k[1] in (0, 1, k[0] // 2, k[0] - 1, k[0])]
    t = {k: [ctx.cplx('a%d,%d' % k)] for k in keys}
    p = build(ctx, t, default(ctx, 1))
    z = V.convert_pfss_to_zdi(p)
    want = {}
    for k in keys:
        a = t[k][0] / oracle.zdi_to_pfss_factor(*k)
        want[k] = [a, a * oracle.beta_over_alpha(k[0]), 0j]
    check_table(ctx, 'coefficients', z, want, 3)
    first = z.hsplit()[0]
    check_table(ctx, 'back again', V.convert_zdi_to_pfss(first), t, 1)
    zt = sym_table(ctx, 'z', keys[:6], 1)
    back = V.convert_pfss_to_zdi(V.convert_zdi_to_pfss(build(ctx, zt, default(ctx, 1)))).hsplit()[0]
    check_table(ctx, 'zdi to pfss and back', back, zt, 1)
