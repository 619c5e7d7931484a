"""Energies and energy fractions are surface integrals of the squared field components."""
import io
import math
import sys
from symx.harness import harness
from props.util import *
from props import oracle

PI = math.pi


def mean_square(l, m, a, b, g):
    """Surface integral of B_r^2 of alpha, of the tangential poloidal B^2 of beta and of the toroidal B^2 of gamma."""
    def part(z):
        return 0.5 * (z.real * z.real + z.imag * z.imag) if m else z.real * z.real
    k = l / (l + 1)
    return part(a), k * part(b), k * part(g)


def total(t):
    return {k: mean_square(*k, *(v + [0j] * (3 - len(v)))) for k, v in t.items()}


def _sets(tier):
    out = [(tuple(keys_upto(2, 1, 0)), 3), (((1, 1), (2, 0), (4, 2)), 3), (((3, 3),), 3), (((1, 0), (2, 1)), 1),
           (((0, 0), (1, 0), (2, 2)), 3), (((1, -1), (2, 1), (3, -2)), 3), (((1, 1), (16, 0), (25, 7), (30, 30)), 3)]
    return out + ([(tuple(keys_upto(4, 1, 0)), 3), (((15, 7), (16, 0), (1, 1)), 3)] if tier != 'quick' else [])


@harness('C18', cases=_sets, bounds='1 to 5 (thorough 14) coefficients of degree 0 to 4 and 15 to 30, orders of both signs, symbolic complex values in [-1e4,1e4]')
def energies(ctx, keys, width):
    t = sym_table(ctx, 'c', keys, width)
    zm = ctx.keep(ctx.mod('zdi_magnetogram').from_coefficients(build(ctx, t, default(ctx, width))))
    d = {}
    got = zm.energy(dest=d)
    e = total(t)
    for n in range(3):
        ctx.eq(('alpha', 'beta', 'gamma')[n], got[n], [e[k][n] for k in sorted(t)])
        ctx.true('energies are real numbers', ctx.symbolic or not hasattr(got[n][0], 'dtype') or got[n].dtype.kind == 'f')
    ctx.eq('total', d['magnetogram.total.energy.B2'], sum([sum(x) for x in e.values()], 0.0))
    er, ep, et = zm.energy_matrix()
    L = max(k[0] for k in keys)
    for l in range(L + 1):
        for m in range(-L, L + 1):
            x = e.get((l, m), (0.0, 0.0, 0.0))
            ctx.eq('radial matrix', er[l, m + L], x[0], log=False)
            ctx.eq('poloidal matrix', ep[l, m + L], x[0] + x[1], log=False)
            ctx.eq('toroidal matrix', et[l, m + L], x[2], log=False)
    ctx.same('matrix shape', [x.shape for x in (er, ep, et)], [(L + 1, 2 * L + 1)] * 3)


def gauss(n):
    """Nodes and weights of n-point Gauss-Legendre quadrature on [-1, 1]."""
    xs, ws = [], []
    c = [float(x) for x in oracle.legendre_coeffs(n)]
    d = [i * c[i] for i in range(1, n + 1)]
    f = lambda q, x: sum(v * x ** i for i, v in enumerate(q))
    for i in range(n):
        x = math.cos(PI * (i + 0.75) / (n + 0.5))
        for _ in range(60):
            x -= f(c, x) / f(d, x)
        xs.append(x)
        ws.append(2 / ((1 - x * x) * f(d, x) ** 2))
    return xs, ws


@harness('C18', cases=lambda tier: [(((1, 0), (1, 1)),), (((2, 0), (2, 2)),), (((1, 1), (2, 1)),)] +
         ([(((3, 1), (3, 2)),), (((1, 0), (3, 0)),), (tuple(keys_upto(2, 1, 0)),)] if tier != 'quick' else []), budget=60,
         bounds='sets of two coefficients of degree up to 2 (thorough 3), three symbolic complex numbers each; the integral of the squared '
                'components evaluated exactly by quadrature over the field the magnetogram returns')
def integrals(ctx, keys):
    t = sym_table(ctx, 'c', keys, 3)
    zm = ctx.keep(ctx.mod('zdi_magnetogram').from_coefficients(build(ctx, t, default(ctx, 3))))
    L = max(k[0] for k in keys)
    xs, ws = gauss(L + 1)
    naz = 2 * L + 1
    az = [2 * PI * j / naz for j in range(naz)]
    P, A = ctx.array([[math.acos(x)] * naz for x in xs]), ctx.array([az for _ in xs])
    sq = [0.0, 0.0]
    g = zm.get_all()
    f = {(c, s): g[c][s](P, A) for c in ('radial', 'polar', 'azimuthal') for s in ('poloidal', 'toroidal')}
    for i, w in enumerate(ws):
        for j in range(naz):
            for n, s in enumerate(('poloidal', 'toroidal')):
                for c in ('radial', 'polar', 'azimuthal'):
                    x = f[c, s][i, j]
                    sq[n] = sq[n] + x * x * (w * 2 * PI / naz)
    a, b, c = zm.energy(dest={})
    ctx.eq('poloidal', a.sum() + b.sum(), sq[0])
    ctx.eq('toroidal', c.sum(), sq[1])


@harness('C18', cases=[(((1, 0), (1, 1), (2, 0), (3, 1)),), (((1, 1), (2, 1), (3, 0)),), (((1, 0), (4, 4), (5, 0)),), (((0, 0), (1, 0), (1, 1), (2, 1)),), (((1, -1), (1, 0), (3, -3)),),
                       (((1, 0), (14, 3), (15, 15), (16, 0)),), (((1, 1), (20, 5), (30, 0)),)],
         bounds='3 or 4 coefficients of degree 0 to 5 and 14 to 30, orders of both signs, one of the numbers of each symbolic and bounded away from 0, so no fraction is 0/0')
def fractions(ctx, keys):
    t = {}
    for i, k in enumerate(keys):
        t[k] = [ctx.real('a%d,%d' % k, 0.5, 4) + 0j, (1.0 - 0.5j) * (i + 1), 1j * ctx.real('g%d,%d' % k, 0.5, 4) + 0.25]
    zm = ctx.keep(ctx.mod('zdi_magnetogram').from_coefficients(build(ctx, t, default(ctx, 3))))
    d = {}
    zm.energy(dest=d)
    e = total(t)
    S = lambda f: sum([f(l, m, *e[l, m]) for l, m in keys], 0.0)
    E = S(lambda l, m, a, b, g: a + b + g)
    pol, tor = S(lambda l, m, a, b, g: a + b), S(lambda l, m, a, b, g: g)
    get = lambda n: d['magnetogram.' + n]

    def frac(name, num, den):
        ctx.eq(name, get(name) * den, num)
    frac('radial.energy.fraction', S(lambda l, m, a, b, g: a), E)
    frac('poloidal.energy.fraction', pol, E)
    frac('toroidal.energy.fraction', tor, E)
    for n, name in ((1, 'dipole'), (2, 'quadrupole'), (3, 'octopole')):
        frac('total.energy.%s.fraction' % name, S(lambda l, m, a, b, g: (a + b) * (l == n)), pol)
        frac('total.energy.toroidal.l%d.fraction' % n, S(lambda l, m, a, b, g: g * (l == n)), tor)
    for n in range(1, 16):
        frac('pol.energy.l%d.fraction' % n, S(lambda l, m, a, b, g: (a + b) * (l == n)), pol)
        frac('tor.energy.l%d.fraction' % n, S(lambda l, m, a, b, g: g * (l == n)), tor)
    frac('total.energy.axisymmetric.fraction', S(lambda l, m, a, b, g: (a + b + g) * (m == 0)), E)
    frac('total.energy.radial.axisymmetric.fraction', S(lambda l, m, a, b, g: a * (m == 0)), pol)
    frac('total.energy.poloidal.axisymmetric.fraction', S(lambda l, m, a, b, g: (a + b) * (m == 0)), pol)
    frac('total.energy.toroidal.axisymmetric.fraction', S(lambda l, m, a, b, g: g * (m == 0)), tor)
    frac('total.energy.dipole.axisymmetric.fraction', S(lambda l, m, a, b, g: (a + b) * (m == 0 and l == 1)),
         S(lambda l, m, a, b, g: (a + b) * (l == 1)))


@harness('C18', cases=[(k, f, x) for k in (((1, 0), (1, 1), (2, 0), (3, 1)), ((1, -1), (1, 0), (2, 2), (5, 0))) for f in (False, True) for x in (1.0, 1234.5)],
         bounds='printed report of sets of 4 coefficients of degree up to 5, one of the numbers of each symbolic and bounded away from 0, of the order of 1 and of 1e4; with and without the table of every degree and order')
def report(ctx, keys, show, size):
    t = {}
    for i, k in enumerate(keys):
        t[k] = [size * (ctx.real('a%d,%d' % k, 0.5, 4) + 0.3j), size * ((1.0 - 0.57j) * (i + 1)), size * (1j * ctx.real('g%d,%d' % k, 0.5, 4) + 0.25)]
    zm = ctx.keep(ctx.mod('zdi_magnetogram').from_coefficients(build(ctx, t, default(ctx, 3))))
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        got = zm.energy(**({'show_fractions': True} if show else {}))
        text = sys.stdout.getvalue()
        sys.stdout.truncate(0)
        zm.energy(dest={}, show_fractions=show)
        silent = not sys.stdout.getvalue()
    finally:
        sys.stdout = old
    ctx.true('nothing printed when a dictionary is given', silent)
    e = total(t)
    for n in range(3):
        ctx.eq(('alpha', 'beta', 'gamma')[n], got[n], [e[k][n] for k in sorted(t)])
    S = lambda f: sum([f(l, m, *e[l, m]) for l, m in keys], 0.0)
    E = S(lambda l, m, a, b, g: a + b + g)
    pol, tor = S(lambda l, m, a, b, g: a + b), S(lambda l, m, a, b, g: g)
    want = {'Radial energy': (S(lambda l, m, a, b, g: a), E), 'Poloidal energy': (pol, E), 'Toroidal energy': (tor, E)}
    for n, name in ((1, 'dipole'), (2, 'quadrupole'), (3, 'octopole')):
        want['poloidal l%d (%s)' % (n, name)] = (S(lambda l, m, a, b, g: (a + b) * (l == n)), pol)
        want['toroidal l%d' % n] = (S(lambda l, m, a, b, g: g * (l == n)), tor)
    want['axisymmetric'] = (S(lambda l, m, a, b, g: (a + b + g) * (m == 0)), E)
    want['poloidal axisymmetric'] = (S(lambda l, m, a, b, g: (a + b) * (m == 0)), pol)
    want['toroidal axisymmetric'] = (S(lambda l, m, a, b, g: g * (m == 0)), tor)
    want['dipole axisymmetric'] = (S(lambda l, m, a, b, g: (a + b) * (m == 0 and l == 1)), S(lambda l, m, a, b, g: (a + b) * (l == 1)))
    seen, rows, tot = {}, [], []
    for line in text.split('\n'):
        w = line.split()
        if '%' in line:
            i = next(i for i, x in enumerate(w) if x.endswith('%') and x != '%')
            seen[' '.join(w[:i]).rstrip('*: ')] = w[i][:-1]
        elif line.startswith('Total energy'):
            tot.append(w[2])
        elif len(w) == 5 and w[0].lstrip('-').isdigit():
            rows.append(w)
    ctx.same('lines', sorted(seen), sorted(want))
    for k, (num, den) in want.items():
        if k in seen:
            d = ctx.read_num(seen[k]) - 100 * num / den
            ctx.true(k + ' rounded', (d <= 0.0501) & (d >= -0.0501))
    ctx.same('total given', len(tot), 1)
    ctx.close('total', ctx.read_num(tot[0]), E, rel=5.01e-3)
    ctx.same('table', [(int(r[0]), int(r[1])) for r in rows], sorted(t) if show else [])
    for r in rows:
        for n in range(3):
            ctx.close('table %s' % r[:2], ctx.read_num(r[2 + n]) * E, e[int(r[0]), int(r[1])][n], rel=1e-6)


@harness('C18', cases=[(60,), (300,)], bounds='60 and 300 entries of degree up to 60 and both signs of the order, three numbers each, those of four entries symbolic')
def large(ctx, n):
    keys = many_keys(n)
    t = many_table(ctx, keys, 3)
    zm = ctx.keep(ctx.mod('zdi_magnetogram').from_coefficients(build(ctx, t, default(ctx, 3))))
    d = {}
    got = zm.energy(dest=d)
    e = total(t)
    for i in range(3):
        ctx.eq(('alpha', 'beta', 'gamma')[i], got[i], [e[k][i] for k in sorted(t)])
    S = lambda f: sum([f(l, m, *e[l, m]) for l, m in sorted(e)], 0.0)
    E, pol, tor = S(lambda l, m, a, b, g: a + b + g), S(lambda l, m, a, b, g: a + b), S(lambda l, m, a, b, g: g)
    ctx.eq('total', d['magnetogram.total.energy.B2'] / E, 1.0)
    for name, num, den in (('radial.energy.fraction', S(lambda l, m, a, b, g: a), E), ('poloidal.energy.fraction', pol, E), ('toroidal.energy.fraction', tor, E),
                           ('total.energy.axisymmetric.fraction', S(lambda l, m, a, b, g: (a + b + g) * (m == 0)), E),
                           ('total.energy.toroidal.axisymmetric.fraction', S(lambda l, m, a, b, g: g * (m == 0)), tor),
                           ('total.energy.poloidal.axisymmetric.fraction', S(lambda l, m, a, b, g: (a + b) * (m == 0)), pol)):
        ctx.eq(name, d['magnetogram.' + name] * den / E, num / E)
    for l in (1, 2, 3, 7, 15):
        ctx.eq('poloidal fraction of degree %d' % l, d['magnetogram.pol.energy.l%d.fraction' % l] * pol / E, S(lambda q, m, a, b, g: (a + b) * (q == l)) / E)
        ctx.eq('toroidal fraction of degree %d' % l, d['magnetogram.tor.energy.l%d.fraction' % l] * tor / E, S(lambda q, m, a, b, g: g * (q == l)) / E)
    if n < 100:
        L = max(k[0] for k in keys)
        for k, x in zip(('radial', 'poloidal', 'toroidal'), zm.energy_matrix()):
            ctx.same(k + ' shape', tuple(x.shape), (L + 1, 2 * L + 1))
            ctx.eq(k + ' matrix', [x[l, m + L] for l, m in keys], [{'radial': v[0], 'poloidal': v[0] + v[1], 'toroidal': v[2]}[k] for v in map(e.get, keys)])
            ctx.eq(k + ' whole', x.sum() / E, {'radial': S(lambda l, m, a, b, g: a), 'poloidal': pol, 'toroidal': tor}[k] / E)
