"""The order in which entries are given, and entries that are zero, make no difference to anything computed from them."""
from symx.harness import harness
from props.util import *
from props import relations as rel
from props.C38 import way, flat, WAYS

ORDERS = [[2, 0, 3, 1], [3, 2, 1, 0], [1, 3, 0, 2]]


@harness('C39', cases=[(w, o) for w in WAYS for o in range(3)], budget=60,
         bounds='sets of 4 entries of degree up to 4 with symbolic values, entered in order or in one of three others, with and without two more entries that are zero; '
                'the fields at symbolic points, the curve of a 2 x 3 grid, an image, conversions, one rotation')
def sets(ctx, which, order):
    keys, width = WAYS[which]
    f = way(ctx, which)
    t = sym_table(ctx, 'a', keys, width)
    a = build(ctx, t, default(ctx, width))
    u = {keys[i]: t[keys[i]] for i in ORDERS[order] if i < len(keys)}
    zeros = {(2, 0): [0j] * width, (3, 3): [0j] * width} if ctx.flag('zeros') else {}
    if order == 1:
        u = dict(zeros, **{}) | u
    else:
        u = u | zeros
    b = build(ctx, u, default(ctx, width))
    fa, fb = f(a), f(b)
    for n in sorted(set(fa) | set(fb)):
        x = flat(fa[n]) if n in fa else [0.0] * len(flat(fb[n]))
        y = flat(fb[n]) if n in fb else [0.0] * len(flat(fa[n]))
        ctx.eq(n, y, x, atol=1e-9)


@harness('C39', cases=[(o, w) for o in range(3) for w in ('field', 'curve')], budget=60,
         bounds='magnetograms made from 4 entries given as arrays in order or in one of three others, with and without zero entries; symbolic values; fields and curve as above')
def arrays(ctx, order, which):
    t = sym_table(ctx, 'a', rel.ZDI_KEYS, 3)
    f = rel.zdi_fields(ctx, rel.point(ctx)) if which == 'field' else rel.zdi_curve(ctx)
    zero = ctx.flag('zeros')
    res = []
    for o in ([0, 1, 2, 3], ORDERS[order]):
        ks = [rel.ZDI_KEYS[i] for i in o]
        vals = [[t[k][i] for k in ks] for i in range(3)]
        if zero and o is not None and len(res):
            ks = [(4, 0)] + ks + [(2, 2)]
            vals = [[0j] + v + [0j] for v in vals]
        res.append(f(ctx.keep(ctx.mod('zdi_magnetogram').ZdiMagnetogram(ctx.array([k[0] for k in ks]), ctx.array([k[1] for k in ks]), *[ctx.array(v) for v in vals]))))
    for n in res[0]:
        ctx.eq(n, flat(res[1][n]), flat(res[0][n]), atol=1e-9)


@harness('C39', cases=[(o, z) for o in range(3) for z in (False, True)], budget=60,
         bounds='energies and energy matrices of the same magnetograms, entry by entry; the dipole, poloidal, toroidal and restricted parts')
def parts(ctx, order, zero):
    t = sym_table(ctx, 'a', rel.ZDI_KEYS, 3)
    Z = ctx.mod('zdi_magnetogram')
    res = []
    for o in ([0, 1, 2, 3], ORDERS[order]):
        ks = [rel.ZDI_KEYS[i] for i in o]
        vals = [[t[k][i] for k in ks] for i in range(3)]
        if zero and res:
            ks = ks[:1] + [(2, 2)] + ks[1:]
            vals = [v[:1] + [0j] + v[1:] for v in vals]
        z = ctx.keep(Z.ZdiMagnetogram(ctx.array([k[0] for k in ks]), ctx.array([k[1] for k in ks]), *[ctx.array(v) for v in vals]))
        d = {}
        e = z.energy(dest=d)
        out = {('energy', i, k): e[i][j] for i in range(3) for j, k in enumerate(ks)}
        out['total'] = d['magnetogram.total.energy.B2']
        for i, m in enumerate(z.energy_matrix()):
            out[('matrix', i)] = flat(m)
        for n, p in (('dipole', z.as_dipole()), ('poloidal', z.as_poloidal()), ('toroidal', z.as_toroidal()), ('restricted', z.as_restricted((1, 2), (-1, 0)))):
            for j, k in enumerate(zip(p.degrees_l, p.orders_m)):
                for i, v in enumerate((p.alpha, p.beta, p.gamma)):
                    out[(n, i, int(k[0]), int(k[1]))] = v[j]
        res.append(out)
    for n in sorted(set(res[0]) | set(res[1]), key=str):
        a, b = res[0].get(n, 0.0), res[1].get(n, 0.0)
        ctx.eq(str(n), b, a, atol=1e-9)


@harness('C39', cases=[(o,) for o in range(3)], budget=60, bounds='files of a set of 4 entries with symbolic values: written from sets filled in another order they are the same; read '
         'from lines in another order they give the same set')
def files(ctx, order):
    import os
    R = ctx.mod('reader_writer')
    t = sym_table(ctx, 'a', rel.PFSS_KEYS, 1, lo=-1e3, hi=1e3)
    ks = [rel.PFSS_KEYS[i] for i in ORDERS[order]]
    names = [os.path.join(ctx.tmpdir(), n) for n in ('a.dat', 'b.dat')]
    for n, x in zip(names, (t, {k: t[k] for k in ks})):
        R.write_magnetogram_file(build(ctx, x, default(ctx, 1)), n)
    got = [entries_of(ctx, R, n) for n in names]
    ctx.same('entries written', sorted(got[1]), sorted(got[0]))
    for k in got[0]:
        ctx.close('value%s' % list(k), got[1].get(k, [0j]), got[0][k], rel=1e-5, abs_=1e-9)
    text = ['header', 'x']
    for k in ks:
        text.append('%d %d %s %s' % (k[0], k[1], ctx.num_text(t[k][0].real), ctx.num_text(t[k][0].imag)))
    with open(names[0], 'w') as f:
        f.write('\n'.join(text) + '\n')
    got = entries_of(ctx, R, names[0])
    ctx.same('entries read', sorted(got), sorted(t))
    for k in t:
        ctx.close('read%s' % list(k), got.get(k, [0j]), t[k], rel=1e-9, abs_=1e-12)


def entries_of(ctx, R, name):
    return rel.entries(R.read_magnetogram_file(name))
