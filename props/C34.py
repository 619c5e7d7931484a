"""Energy plots: the drawn matrices, curves and pies are the energies and fractions of the magnetogram."""
import os
import sys
from symx.harness import harness
from props.util import *
from props.stubs import Recorder, Image, patched
from props import oracle
from props.C18 import total
from props.C33 import scaled_input


def magnetogram(ctx, keys, free):
    """Magnetogram with the numbers of the entries in free symbolic, the others fixed; and its energies."""
    t = {}
    for i, k in enumerate(keys):
        if k in free:
            t[k] = [ctx.real('%s%d,%d.re' % (s, *k), 1.0, 20.0) + 1j * ctx.real('%s%d,%d.im' % (s, *k), -20.0, 20.0) for s in 'abg']
        else:
            t[k] = [complex(3 + i, 1 - i), complex(-2 * i, 5), complex(0.5, i + 1)]
    np = ctx.np
    m = ctx.keep(ctx.mod('zdi_magnetogram').ZdiMagnetogram(ctx.array([k[0] for k in keys]), ctx.array([k[1] for k in keys]),
                                                 *[ctx.array([t[k][i] for k in keys]) for i in range(3)]))
    return m, total(t)


class Stage:
    def __init__(self, ctx, n=1):
        import matplotlib.pyplot as plt
        import matplotlib.colors as colors
        Z = ctx.mod('plot_zdi')
        self.fig = Recorder('fig')
        self.made = []
        self.norms = []

        def lognorm(*a, **kw):
            self.norms.append((a, kw))
            return Recorder('norm')
        self.patches = [(plt, 'subplots', self.subplots), (colors, 'LogNorm', lognorm), (Z, 'make_axes_locatable', lambda *a, **k: Recorder('divider')),
                        (Z, 'IndexLocator', lambda *a, **k: Recorder('locator'))]

    def axes(self):
        ax = Recorder('ax', attrs=dict(figure=self.fig, xaxis=Recorder(), yaxis=Recorder()), pie=lambda *a, **k: ([Recorder('wedge') for _ in a[0]], [], []),
                      get_xticks=lambda: __import__('numpy').array([0.0, 1.0, 4.0]))
        self.made.append(ax)
        return ax

    def subplots(self, nrows=1, ncols=1, *a, **kw):
        nr, nc = nrows, ncols
        import numpy
        ax = [self.axes() for _ in range(nr * nc)]
        if len(ax) == 1 and kw.get('squeeze', True):
            return self.fig, ax[0]
        arr = numpy.empty(len(ax), dtype=object)
        arr[:] = ax
        return self.fig, arr

    def on(self):
        return patched(*self.patches)


KIND = {'total': lambda a, b, g: a + b + g, 'radial': lambda a, b, g: a, 'poloidal': lambda a, b, g: a + b, 'toroidal': lambda a, b, g: g}


@harness('C34', cases=[(('total',), False), (('radial',), False), (('poloidal', 'toroidal'), False), (('total', 'radial', 'poloidal', 'toroidal'), False),
                       (('total',), True), (('toroidal',), True), (('total', 'radial'), None), (('poloidal',), None)], budget=60,
         bounds='three entries of degree 0 to 3 or 14, one of them with symbolic numbers; each type of energy, with and without negative orders')
def matrix(ctx, types, negative):
    Z = ctx.mod('plot_zdi')
    keys = [(1, 0), (2, 1), (3, -2 if negative else 2)]
    if negative is None:
        keys, negative = [(0, 0), (2, 1), (14, 13)], False
    L = keys[-1][0]
    m, e = magnetogram(ctx, keys, [(2, 1)])
    s = Stage(ctx)
    with s.on():
        fig, axs = Z.plot_energy_matrix(m, types[0] if len(types) == 1 else types, negative_orders=negative)
    ctx.same('axes', (len(s.made), fig is s.fig, len(axs)), (len(types), True, len(types)))
    for ax, kind in zip(s.made, types):
        im = ax.of('imshow')
        ctx.same('drawn once', len(im), 1)
        lo = -3 if negative else 0
        f = lambda k: KIND[kind](*e[k]) if k in e else 0.0
        ctx.eq(kind, im[0][0][0], [[f((l, o)) for o in range(lo, L + 1)] for l in range(L + 1)])
        ctx.true(kind + ' title', any(kind in a[0][0] for a in ax.of('set_title')))
        lab = ax.of('set_xticklabels')
        ctx.same('order labels', [[int(x) for x in a[0][0]] for a in lab], [[-3, -2, 1]] if negative else [])


@harness('C34', bounds='entries with negative orders are refused where they would not be shown')
def hidden(ctx):
    Z = ctx.mod('plot_zdi')
    m, e = magnetogram(ctx, [(1, 0), (2, -1)], [(2, -1)])
    s = Stage(ctx)

    def draw():
        with s.on():
            Z.plot_energy_matrix(m)
    ctx.raises('refused', draw)
    ctx.same('not drawn', sum(len(a.of('imshow')) for a in s.made), 0)


CURVES = [[(1, 0), (2, 1), (4, 3)], [(0, 0), (1, 1), (3, 0), (3, 2)], [(0, 0), (17, 5), (2, -1)], [(1, 0)]]


@harness('C34', cases=[(True, 0), (False, 0), (None, 0), (None, 1), (False, 1), (True, 2), (None, 3)], budget=60,
         bounds='one to four entries of degree 0 to 4, 17 and orders of both signs, two of them with symbolic numbers; scaled or not')
def curves(ctx, scaled, which):
    Z = ctx.mod('plot_zdi')
    keys = CURVES[which]
    m, e = magnetogram(ctx, keys, [keys[0], keys[-1]])
    L = max(k[0] for k in keys)
    s = Stage(ctx)
    given = ctx.flag('axes given')
    with s.on():
        kw = {} if scaled is None else {'scaled': scaled}
        if given:
            kw['ax'] = s.axes()
        fig, ax = Z.plot_energy_by_degree(m, **kw)
    ctx.true('axes', fig is s.fig and ax is s.made[0] and len(s.made) == 1)
    lines = ax.of('semilogy') + ax.of('plot')
    ctx.same('curves', len(lines), 6)
    E = sum([sum(x) for x in e.values()], 0.0) if scaled in (True, None) else 1.0
    style = {}
    for name, kind in (('Total', 'total'), ('Poloidal', 'poloidal'), ('Toroidal', 'toroidal')):
        mine = [(a, kw) for a, kw in lines if kw.get('label') == name]
        ctx.same('one ' + name, len(mine), 1)
        style[mine[0][1]['color']] = (name, kind)
        by = [sum([KIND[kind](*e[k]) for k in keys if k[0] == l], 0.0) for l in range(L + 1)]
        (x, y), _ = mine[0]
        ctx.same('degrees', [int(v) for v in x], list(range(1, L + 1)))
        ctx.eq(name, y * E, by[1:])
        cum = [(a, kw) for a, kw in lines if not kw.get('label') and kw['color'] == mine[0][1]['color']]
        ctx.same('one cumulative ' + name, len(cum), 1)
        ctx.same('cumulative degrees', [int(v) for v in cum[0][0][0]], list(range(1, L + 1)))
        ctx.eq('cumulative ' + name, cum[0][0][1] * E, [sum(by[:i + 1], 0.0) for i in range(1, L + 1)])
    ctx.same('different colours', len(style), 3)


@harness('C34', cases=[(True, 0), (False, 0), (True, 1)], budget=60, bounds='four entries of degree 0 to 4, 16 and orders of both signs, one with symbolic numbers; with and without toroidal part')
def summary(ctx, toroidal, wide):
    Z = ctx.mod('plot_zdi')
    keys = [(0, 0), (1, -1), (2, 1), (16, 0)] if wide else [(1, 0), (2, 1), (3, 0), (4, 2)]
    np = ctx.np
    t = {k: [complex(3 + i, 1 - i), complex(-2 * i, 5), complex(0.5, i + 1) if toroidal else 0j] for i, k in enumerate(keys)}
    t[(2, 1)] = [ctx.real('%s.re' % s, 1.0, 20.0) + 1j * ctx.real('%s.im' % s, -20.0, 20.0) for s in 'ab'] + [t[(2, 1)][2]]
    m = ctx.keep(ctx.mod('zdi_magnetogram').ZdiMagnetogram(ctx.array([k[0] for k in keys]), ctx.array([k[1] for k in keys]),
                                                 *[ctx.array([t[k][i] for k in keys]) for i in range(3)]))
    e = total(t)
    s = Stage(ctx)
    with s.on():
        fig, axs = Z.plot_energy_summary(m)
    ctx.same('axes', (fig is s.fig, len(s.made)), (True, 3))
    S = lambda f: sum([f(l, o, *e[l, o]) for l, o in keys], 0.0)
    E, pol, tor = S(lambda l, m, a, b, g: a + b + g), S(lambda l, m, a, b, g: a + b), S(lambda l, m, a, b, g: g)
    want = [[([pol, tor], E), ([S(lambda l, m, a, b, g: a)], E), ([S(lambda l, m, a, b, g: (a + b + g) * (m == 0))], E)],
            [([S(lambda l, m, a, b, g: (a + b) * (l == n)) for n in (1, 2, 3)], pol), ([S(lambda l, m, a, b, g: (a + b) * (m == 0))], pol)],
            [([S(lambda l, m, a, b, g: g * (l == n)) for n in (1, 2, 3)], tor), ([S(lambda l, m, a, b, g: g * (m == 0))], tor)] if toroidal else []]
    for i, (ax, w) in enumerate(zip(s.made, want)):
        pies = ax.of('pie')
        ctx.same('pies %d' % i, len(pies), len(w))
        for j, ((a, kw), (num, den)) in enumerate(zip(pies, w)):
            ctx.eq('fractions %d.%d' % (i, j), [x * den for x in a[0]], num)
            if len(num) == 1 or i:
                # matplotlib rescales the wedges to fill the pie unless told not to
                rest = den - sum(num, 0.0)
                ctx.true('fractions of the whole %d.%d' % (i, j), (not kw.get('normalize', True)) | (rest <= 1e-9 * den))


@harness('C34', cases=[(k, p) for k in ('zdi', 'pfss') for p in ('energy-matrix', 'energy-by-degree', 'energy-summary')], budget=60,
         bounds='files of two entries with one symbolic amplitude, both magnetogram types; shown or saved')
def command(ctx, kind, plot):
    import matplotlib.pyplot as plt
    M = ctx.mod('bin.plot_magnetogram')
    width = 1 if kind == 'pfss' else 3
    keys = [(1, 0), (2, 1)]
    t, path, text = scaled_input(ctx, 'field_star.dat', width, keys)
    s = Stage(ctx)
    out = os.path.join(ctx.tmpdir(), 'image.png') if ctx.flag('save') else None
    shown = []
    old, sys.argv = sys.argv, ['sw-plot-magnetogram', path] + ([out] if out else []) + ['-y', kind, '-p', plot]
    try:
        with s.on(), patched((plt, 'show', lambda *a, **k: shown.append(1)), (plt, 'close', lambda *a, **k: None)):
            M.main()
    finally:
        sys.argv = old
    ctx.same('saved', [a[0] for a, _ in s.fig.of('savefig')], [out] if out else [])
    ctx.same('shown', len(shown), 0 if out else 1)
    if kind == 'pfss':
        t = {k: [v[0] / oracle.zdi_to_pfss_factor(*k), v[0] / oracle.zdi_to_pfss_factor(*k) * oracle.beta_over_alpha(k[0]), 0j] for k, v in t.items()}
    e = total(t)
    tot = {k: sum(v) for k, v in e.items()}
    if plot == 'energy-matrix':
        ctx.close('matrix', s.made[0].of('imshow')[0][0][0], [[tot.get((l, m), 0.0) for m in range(3)] for l in range(3)], rel=1e-7)
    elif plot == 'energy-by-degree':
        y = [a[1] for a, kw in s.made[0].of('semilogy') + s.made[0].of('plot') if kw.get('label') == 'Total'][0]
        E = tot[(1, 0)] + tot[(2, 1)]
        ctx.close('curve', y * E, [tot[(1, 0)], tot[(2, 1)]], rel=1e-7)
    else:
        E = tot[(1, 0)] + tot[(2, 1)]
        pol = sum([v[0] + v[1] for v in e.values()], 0.0)
        f = s.made[0].of('pie')[0][0][0]
        ctx.close('fractions', [x * E for x in f], [pol, E - pol], rel=1e-7, abs_=1e-7)


@harness('C34', cases=[(40, False), (40, True), (120, True)], budget=60, bounds='40 and 120 entries of degree up to 25, one of them with symbolic numbers larger than the others: matrices, curves and pies')
def large(ctx, n, negative):
    Z = ctx.mod('plot_zdi')
    keys = [k for k in many_keys(2 * n, 25) if negative or k[1] >= 0][:n]
    t = {k: [complex(3 + 0.1 * i, 1 - 0.2 * i), complex(-2 - 0.1 * i, 5), complex(0.5, 0.1 * i + 1)] for i, k in enumerate(sorted(keys))}
    t[keys[n // 2]] = [ctx.real(c, 100.0, 900.0) + 0j for c in 'abg']
    m = ctx.keep(ctx.mod('zdi_magnetogram').from_coefficients(build(ctx, t, default(ctx, 3))))
    e = total(t)
    L = max(k[0] for k in keys)
    s = Stage(ctx)
    with s.on():
        Z.plot_energy_matrix(m, ('total', 'toroidal'), negative_orders=negative)
    lo = -L if negative else 0
    for ax, kind in zip(s.made, ('total', 'toroidal')):
        im = ax.of('imshow')[0][0][0]
        ctx.same(kind + ' shape', tuple(im.shape)[0], L + 1)
        off = im.shape[1] - 1 - L
        ctx.true('every order drawn', off >= -min(k[1] for k in keys))
        ctx.eq(kind, [im[k[0], k[1] + off] for k in keys], [KIND[kind](*e[k]) for k in keys])
    s = Stage(ctx)
    with s.on():
        Z.plot_energy_by_degree(m, scaled=False)
    lines = s.made[0].of('semilogy') + s.made[0].of('plot')
    for name, kind in (('Total', 'total'), ('Poloidal', 'poloidal'), ('Toroidal', 'toroidal')):
        by = [sum([KIND[kind](*e[k]) for k in keys if k[0] == l], 0.0) for l in range(L + 1)]
        mine = [(a, kw) for a, kw in lines if kw.get('label') == name][0]
        cum = [(a, kw) for a, kw in lines if not kw.get('label') and kw['color'] == mine[1]['color']][0]
        ctx.eq(name, mine[0][1], by[1:])
        ctx.eq('cumulative ' + name, cum[0][1], [sum(by[:i + 1], 0.0) for i in range(1, L + 1)])
    s = Stage(ctx)
    with s.on():
        Z.plot_energy_summary(m)
    S = lambda f: sum([f(l, o, *e[l, o]) for l, o in keys], 0.0)
    E, pol, tor = S(lambda l, m, a, b, g: a + b + g), S(lambda l, m, a, b, g: a + b), S(lambda l, m, a, b, g: g)
    want = [[([pol, tor], E), ([S(lambda l, m, a, b, g: a)], E), ([S(lambda l, m, a, b, g: (a + b + g) * (m == 0))], E)],
            [([S(lambda l, m, a, b, g: (a + b) * (l == i)) for i in (1, 2, 3)], pol), ([S(lambda l, m, a, b, g: (a + b) * (m == 0))], pol)],
            [([S(lambda l, m, a, b, g: g * (l == i)) for i in (1, 2, 3)], tor), ([S(lambda l, m, a, b, g: g * (m == 0))], tor)]]
    for i, (ax, w) in enumerate(zip(s.made, want)):
        for j, ((a, kw), (num, den)) in enumerate(zip(ax.of('pie'), w)):
            ctx.eq('fractions %d.%d' % (i, j), [x * den / E for x in a[0]], [x / E for x in num])
