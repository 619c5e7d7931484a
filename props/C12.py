"""Folding negative orders onto positive ones leaves the radial field unchanged everywhere."""
from symx.harness import harness
from props.util import *
from props import oracle


def _cases(tier):
    full = tuple(keys_upto(1, 0))
    out = [(full,), (((1, -1), (2, 1), (2, -2), (2, 0)),), (((0, 0), (3, -2), (3, 2)),), (((3, 3),),), (((3, -1),),), (((9, -7), (9, 8)),), (((16, -15), (16, 15)),)]
    if tier != 'quick':
        out += [(((4, -3), (4, 3)),), (((5, -4), (5, 5)),), (tuple(keys_upto(2, 2)),), (tuple(keys_upto(3, 3, None))[:4],)]
    return out


@harness('C12', cases=_cases, budget=30,
         bounds='1 to 5 coefficients of degree up to 3 (thorough 5), 9 and 16 with any orders, each a symbolic complex number in [-1e4,1e4]; every '
                'polar angle in (0, pi) and azimuth in [0, 2 pi]')
def fold(ctx, keys):
    V, Z = ctx.mod('converter'), ctx.mod('zdi_magnetogram')
    t = sym_table(ctx, 'c', keys, 1)
    c = build(ctx, t, default(ctx, 1))
    r = V.map_to_positive_orders(c)
    check_table(ctx, 'input', c, t, 1)
    L = max(k[0] for k in keys)
    got = table(r)
    ctx.same('entries', sorted(got), keys_upto(L, 0, 0))
    want = {}
    for l, m in keys_upto(L, 0, 0):
        a, b = t.get((l, m), [0j])[0], t.get((l, -m), [0j])[0]
        if m == 0:
            want[(l, m)] = a
        else:
            # Re(b c_{l,-m} P_l^{-m} e^{-im phi}) = (-1)^m Re(conj(b) c_{lm} P_l^m e^{im phi})
            s = (-1) ** m
            want[(l, m)] = (a.real + s * b.real) + 1j * (a.imag - s * b.imag)
    for k in want:
        ctx.eq('value%s' % list(k), got.get(k, [None])[0], want[k], atol=1e-9)
    th, ph = ctx.angle('polar', 0, ctx.PI, los=True, his=True), ctx.angle('azimuth', 0, 2 * ctx.PI)
    P, A = ctx.array([[th]]), ctx.array([[ph]])
    w = oracle.zdi_field(ctx, t, th, ph)['rad']
    ctx.eq('field before', Z.from_coefficients(c).get_radial_field(P, A), [[w]])
    w2 = oracle.zdi_field(ctx, {k: [v] for k, v in want.items()}, th, ph)['rad']
    ctx.eq('reference fields agree', w2, w)


@harness('C12', cases=lambda tier: [(tuple(keys_upto(2, 0, 0)),), (((1, 0), (3, 2)),)],
         bounds='sets without negative orders, degree up to 3, symbolic values')
def already_positive(ctx, keys):
    V = ctx.mod('converter')
    t = sym_table(ctx, 'c', keys, 1)
    r = V.map_to_positive_orders(build(ctx, t, default(ctx, 1)))
    L = max(k[0] for k in keys)
    got = table(r)
    ctx.same('entries', sorted(got), keys_upto(L, 0, 0))
    for k in keys_upto(L, 0, 0):
        ctx.eq('value%s' % list(k), got[k], t.get(k, [0j]), atol=1e-9)


@harness('C12', bounds='40 entries of degree up to 60, 4 of them symbolic')
def large(ctx):
    V = ctx.mod('converter')
    keys = many_keys(40)
    t = many_table(ctx, keys, 1)
    c = build(ctx, t, default(ctx, 1))
    got = table(V.map_to_positive_orders(c))
    check_table(ctx, 'input', c, t, 1)
    L = max(k[0] for k in keys)
    ctx.same('entries', sorted(got), keys_upto(L, 0, 0))
    for l, m in keys_upto(L, 0, 0):
        a, b = t.get((l, m), [0j])[0], t.get((l, -m), [0j])[0]
        s = (-1) ** m
        ctx.eq('value%s' % [l, m], got[(l, m)], [a if m == 0 else (a.real + s * b.real) + 1j * (a.imag - s * b.imag)], atol=1e-9)
