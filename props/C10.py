"""Converting ZDI to PFSS coefficients keeps the radial surface field (azimuth measured the other way)."""
from symx.harness import harness
from props.util import *
from props import oracle


@harness('C10', cases=lambda tier: [(tuple(keys_upto(3 if tier == 'quick' else 4, 1, 0)),), (((1, 1), (2, 0)),), (((0, 0), (4, 4)),),
                                    (((5, 2),),), (((6, 5), (3, 3)),), (((9, 8),), ), (((16, 14),),), (((20, 19), (1, 0)),)],
         bounds='full sets up to degree 3 (thorough 4) and sparse ones up to 20, symbolic coefficients; every polar angle in (0, pi) and azimuth '
                'in [0, 2 pi]; surface radius 1')
def surface_field(ctx, keys):
    V = ctx.mod('converter')
    Z, F = ctx.mod('zdi_magnetogram'), ctx.mod('pfss_magnetogram')
    t = sym_table(ctx, 'a', keys, 1)
    z = build(ctx, t, default(ctx, 1))
    p = V.convert_zdi_to_pfss(z)
    check_table(ctx, 'input', z, t, 1)
    th, ph = ctx.angle('polar', 0, ctx.PI, los=True, his=True), ctx.angle('azimuth', 0, 2 * ctx.PI)
    br, _, _ = F.evaluate_spherical(p, 1.0, ctx.array([th]), ctx.array([ph]))
    w = oracle.zdi_field(ctx, t, th, -ph)['rad']
    ctx.eq('radial field', br, [w])
    bz = Z.from_coefficients(z).get_radial_field(ctx.array([[th]]), ctx.array([[-ph]]))
    ctx.eq('radial field of the ZDI magnetogram', bz, [[w]])
    check_table(ctx, 'coefficients', p, {k: [v[0] * oracle.zdi_to_pfss_factor(*k)] for k, v in t.items()}, 1)


@harness('C10', cases=lambda tier: [(n,) for n in (20, 30, 60, 150)],
         bounds='every degree up to 30 and order >= 0, a part of the orders of every degree up to 150, some negative orders; symbolic value each')
def factor(ctx, lmax):
    V = ctx.mod('converter')
    keys = [k for k in keys_upto(lmax, {20: 0, 30: 21, 60: 31, 150: 61}[lmax], 0) if lmax <= 30 or k[1] in (0, 1, k[0] // 2, k[0] - 1, k[0])]
    if lmax == 20:
        keys += [(1, -1), (2, -1), (2, -2), (3, -1), (3, -3), (9, -4), (20, -20), (20, -19)]
    t = {k: [ctx.cplx('a%d,%d' % k)] for k in keys}
    p = V.convert_zdi_to_pfss(build(ctx, t, default(ctx, 1)))
    for k in keys:
        ctx.eq('value%s' % list(k), p.get(*k), [t[k][0] * oracle.zdi_to_pfss_factor(*k)], log=False)
        ctx.eq('factor%s' % list(k), V.forward_conversion_factor(*k), oracle.zdi_to_pfss_factor(*k), log=False)
    np = ctx.np
    L, M = ctx.array([k[0] for k in keys]), ctx.array([k[1] for k in keys])
    ctx.eq('factor of arrays', V.forward_conversion_factor(L, M), [oracle.zdi_to_pfss_factor(*k) for k in keys], log=False)
