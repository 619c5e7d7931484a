"""Field maps: the drawn values sit at their cells, extremes are marked where they are, colour scales cover the data."""
import math
from symx.harness import harness
from props.util import *
from props.stubs import Recorder, Image

DEG = 180 / math.pi


def label_number(ctx, s):
    """The number in 'Max $B=+1.2 \\times 10^{5}$ G'."""
    s = s[s.index('=') + 1:s.rindex('$')]
    return latex_number(ctx, s)


def latex_number(ctx, s):
    if r'\times' in s:
        base, ex = s.split(r' \times 10^{')
        return ctx.read_num(base) * 10.0 ** int(ex.rstrip('}'))
    return ctx.read_num(s)


@harness('C32', cases=[(None,), ('{0:.2g}',), ('{0:.5g}',)], budget=60,
         bounds='every value in [-3e7, 3e7] away from zero by 1e-7, and zero; default and other patterns; plain and exponent notation')
def number_labels(ctx, pattern):
    L = ctx.mod('plots').latex_float
    ctx.split_g()
    x = ctx.real('x', -3e7, 3e7)
    ctx.assume((x >= 1e-7) | (x <= -1e-7) | (x == 0))
    s = L(x) if pattern is None else L(x, pattern)
    tol = 0.5 * 10.0 ** -({None: 3, '{0:.2g}': 2, '{0:.5g}': 5}[pattern] - 1)
    ctx.close('value', latex_number(ctx, s), x, rel=tol * 1.01)
    ctx.true('no bare exponent', 'e' not in s.replace(r'\times', ''))


def axes(values):
    """Axes whose pcolormesh gives an image scaled to the smallest and largest value."""
    def pcolormesh(x, y, c, *a, **kw):
        lo = hi = values[0]
        for v in values[1:]:
            lo = v if v < lo else lo
            hi = v if v > hi else hi
        images.append(Image(lo, hi))
        return images[-1]
    images = []
    return Recorder('ax', pcolormesh=pcolormesh, attrs=dict(xaxis=Recorder('x'), yaxis=Recorder('y'), images=images))


def arg(call, i, name):
    a, kw = call
    return a[i] if len(a) > i else kw[name]


def least(vs):
    r = vs[0]
    for v in vs[1:]:
        r = v if v < r else r
    return r


def grid(ctx, tag, nr, nc, lo, hi):
    v = [[ctx.real('%s%d%d' % (tag, i, j), lo, hi) for j in range(nc)] for i in range(nr)]
    return v, ctx.array(v)


@harness('C32', cases=[(1, 2), (2, 2), (3, 1), (4, 1)], budget=60, bounds='maps of 2 to 4 cells, every value, polar angle and azimuth symbolic')
def extremes(ctx, nr, nc):
    add = ctx.mod('plots').add_extrema
    pol, pa = grid(ctx, 'p', nr, nc, 0.0, math.pi)
    azi, aa = grid(ctx, 'a', nr, nc, 0.0, 2 * math.pi)
    f, fa = grid(ctx, 'f', nr, nc, -100.0, 100.0)
    ax = Recorder('ax')
    lo, hi = add(pa, aa, fa, ax, legend_str='B_x', markers='<>')
    calls = ax.of('plot')
    ctx.same('two marks', len(calls), 2)
    flat = [(f[i][j], pol[i][j], azi[i][j]) for i in range(nr) for j in range(nc)]
    for name, marker, ext, sg in (('Max', '<', hi, 1), ('Min', '>', lo, -1)):
        mine = [c for c in calls if c[1].get('label', '').startswith(name)]
        ctx.same('one ' + name, len(mine), 1)
        (x, y), kw = mine[0][0][:2], mine[0][1]
        ctx.same(name + ' marker', kw.get('marker'), marker)
        ctx.true(name + ' name', kw['label'].startswith(name + ' $B_x='))
        hit = False
        for v, p, a in flat:
            ctx.true(name + ' is extreme', (ext - v) * sg >= -1e-9)
            d1, d2, d3 = x - a * DEG, y - p * DEG, ext - v
            here = (d1 <= 1e-6) & (d1 >= -1e-6) & (d2 <= 1e-6) & (d2 >= -1e-6) & (d3 <= 1e-9) & (d3 >= -1e-9)
            hit = here | hit
        ctx.true(name + ' sits at its cell', hit)
    ctx.eq('map unchanged', fa, f)


@harness('C32', cases=[(sym, corners, am) for sym in (None, True, False) for corners in (True, False) for am in (False, True)], budget=60,
         bounds='maps of 2 cells, every value, angle and common scale symbolic; colour scale automatic, forced or unsymmetric; with and without corners')
def colour_map(ctx, symmetric, corners, common):
    draw = ctx.mod('plots').plot_magnetic_field
    pol, pa = grid(ctx, 'p', 1, 2, 0.0, math.pi)
    azi, aa = grid(ctx, 'a', 1, 2, 0.0, 2 * math.pi)
    f, fa = grid(ctx, 'f', 1, 2, -100.0, 100.0)
    ax = axes(f[0])
    kw = {}
    if corners:
        pc, pca = grid(ctx, 'pc', 2, 3, 0.0, math.pi)
        ac, aca = grid(ctx, 'ac', 2, 3, 0.0, 2 * math.pi)
        kw = dict(polar_corners=pca, azimuth_corners=aca)
    big = ctx.real('scale', 1.0, 1000.0) if common else None
    img, zero = draw(ax, pa, aa, fa, symmetric=symmetric, abs_max=big, **kw)
    calls = ax.of('pcolormesh')
    ctx.same('drawn once', len(calls), 1)
    x, y, c = calls[0][0]
    ctx.eq('x', x, [[v * DEG for v in r] for r in (ac if corners else azi)])
    ctx.eq('y', y, [[v * DEG for v in r] for r in (pc if corners else pol)])
    ctx.eq('values', c, f)
    lo, hi = least(f[0]), -least([-v for v in f[0]])
    both = bool((lo < 0) & (hi > 0))
    s = both if symmetric is None else symmetric
    top = big if common else hi
    g0, g1 = img.get_clim()
    if s:
        m = -lo if -lo > top else top
        m = -m if m < 0 else m
        ctx.true('symmetric', (g0 + g1 <= 1e-9) & (g0 + g1 >= -1e-9))
        ctx.true('covers', (g1 >= (top if top < hi else hi) - 1e-9) & (g0 <= lo + 1e-9))
        alt = -top if top < 0 else top
        al = -lo if lo < 0 else lo
        ctx.eq('range', g1, alt if alt > al else al)
    else:
        ctx.eq('range', [g0, g1], [lo, top])
    con = ax.of('contour')
    ctx.same('zero line', (len(con), zero is not None), (1, True) if s else (0, False))
    if s:
        (cx, cy, cf), lev = con[0][0][:3], arg(con[0], 3, 'levels')
        ctx.eq('zero line data', [cx[0][0], cx[0][1], cy[0][0], cy[0][1], cf[0][0], cf[0][1]],
               [azi[0][0] * DEG, azi[0][1] * DEG, pol[0][0] * DEG, pol[0][1] * DEG, f[0][0], f[0][1]])
        ctx.eq('level', ctx.np.reshape(lev, ()), 0)
    ctx.same('polar angle grows downwards', len(ax.of('invert_yaxis')), 1)
    ctx.eq('map unchanged', fa, f)


class Geometry:
    def __init__(self, ctx):
        self.pc, self.pca = grid(ctx, 'pc', 3, 2, 0.0, math.pi)
        self.ac, self.aca = grid(ctx, 'ac', 3, 2, 0.0, 2 * math.pi)
        self.p, self.pa = grid(ctx, 'p', 2, 1, 0.0, math.pi)
        self.a, self.aa = grid(ctx, 'a', 2, 1, 0.0, 2 * math.pi)

    def centers(self):
        return self.pa, self.aa

    def corners(self):
        return self.pca, self.aca

    def areas(self):
        raise AssertionError


@harness('C32', budget=60, bounds='map of 2 x 1 cells with symbolic values, centers and corners; limits passed through')
def equirectangular(ctx):
    draw = ctx.mod('plots').plot_equirectangular
    g = Geometry(ctx)
    f, fa = grid(ctx, 'f', 2, 1, -100.0, 100.0)
    ax = axes([r[0] for r in f])
    lim = ctx.choice('limits', [None, (0, 5)])
    kw = {} if lim is None else dict(vmin=lim[0], vmax=lim[1], cmap='viridis')
    draw(g, fa, ax, **kw)
    (x, y, c), k = ax.of('pcolormesh')[0]
    tr = lambda m, s: [[m[i][j] * s for i in range(len(m))] for j in range(len(m[0]))]
    ctx.eq('x', x, tr(g.ac, DEG))
    ctx.eq('y', y, tr(g.pc, DEG))
    ctx.eq('values', c, tr(f, 1))
    ctx.same('limits', (k.get('vmin'), k.get('vmax'), k.get('cmap')), (None, None, 'RdBu_r') if lim is None else (0, 5, 'viridis'))
    con = ax.of('contour')
    both = bool(((f[0][0] < 0) & (f[1][0] > 0)) | ((f[0][0] > 0) & (f[1][0] < 0)))
    ctx.same('zero line', len(con), 1 if both else 0)
    if both:
        ctx.eq('zero line x', con[0][0][0], tr(g.a, DEG))
        ctx.eq('zero line y', con[0][0][1], tr(g.p, DEG))
        ctx.eq('zero line values', con[0][0][2], tr(f, 1))
    for name, m, n in (('set_xticks', g.ac, 9), ('set_yticks', g.pc, 5)):
        t = ax.of(name)[0][0][0]
        a, b = m[0][0] * DEG, m[2][1] * DEG
        ctx.eq(name, list(t), [a + (b - a) * i / (n - 1) for i in range(n)])


@harness('C32', cases=[(False,), (True,)], budget=60, bounds='three maps of 1 x 2 cells; first component symbolic, with and without corners')
def components(ctx, corners):
    P = ctx.mod('plots')
    np = ctx.np
    pol, pa = grid(ctx, 'p', 1, 2, 0.0, math.pi)
    azi, aa = grid(ctx, 'a', 1, 2, 0.0, 2 * math.pi)
    f = [[[ctx.real('f%d' % i, -100.0, 100.0), 3.0 - 2 * i]] for i in range(3)]
    pos = Recorder('pos', attrs=dict(p0=[0.1, 0.2], p1=[0.3, 0.6]))
    cbax = Recorder('cbax', get_xlim=lambda: (0.0, 1.0))
    cb = Recorder('cb', attrs=dict(ax=cbax, lines=[Recorder('line')]), get_ticks=lambda: [-1.0, 0.0, 1.0])
    fig = Recorder('fig', colorbar=lambda *a, **k: cb)
    axs = [axes(r[0]) for r in f]
    for a in axs:
        a._ret['get_position'] = lambda: pos
        a.__dict__['figure'] = fig
    kw = {}
    if corners:
        pc, pca = grid(ctx, 'pc', 2, 3, 0.0, math.pi)
        ac, aca = grid(ctx, 'ac', 2, 3, 0.0, 2 * math.pi)
        kw = dict(polar_corners=pca, azimuth_corners=aca)
    P.plot_components(pa, aa, ctx.array(f), axs, radius=2, **kw)
    names = ['B_r', r'B_\theta', r'B_\phi']
    titles = ['Radial', 'Polar', 'Azimuthal']
    for i in range(3):
        (x, y, c), k = axs[i].of('pcolormesh')[0]
        ctx.eq('values%d' % i, c, f[i])
        ctx.eq('x%d' % i, x, [[v * DEG for v in r] for r in (ac if corners else azi)])
        ctx.eq('y%d' % i, y, [[v * DEG for v in r] for r in (pc if corners else pol)])
        t = axs[i].of('set_title')[0][0][0]
        ctx.true('title%d' % i, t.startswith(titles[i]) and names[i] in t)
        labs = [k2['label'] for _, k2 in axs[i].of('plot')]
        ctx.true('labels%d' % i, len(labs) == 2 and all('$%s=' % names[i] in s for s in labs))
        con = axs[i].of('contour')[-1]
        ctx.eq('contours%d' % i, con[0][2], f[i])
        ctx.eq('levels%d' % i, list(arg(con, 3, 'levels')), [-1.0, 0.0, 1.0])
    top = 1.0
    for v in [w for r in f for w in r[0]]:
        top = v if v > top else (-v if -v > top else top)
    marks = [a[1] for a, _ in cbax.of('plot')]
    ctx.same('colour bar marks', len(marks), 6)
    for i in range(3):
        lo, hi = least(f[i][0]), -least([-v for v in f[i][0]])
        m, n = marks[2 * i:2 * i + 2]
        ctx.true('marks%d' % i, (near(m, hi) & near(n, lo)) | (near(m, lo) & near(n, hi)))
        ctx.eq('scale%d' % i, axs[i].images[0].get_clim()[1], top)


def near(a, b):
    return (a - b <= 1e-9) & (b - a <= 1e-9)


@harness('C32', cases=[(7, 9, 3, 4), (12, 5, 11, 0), (1, 50, 0, 49), (20, 4, 17, 2), (9, 2, 5, 0), (40, 2, 38, 1)], budget=60, bounds='maps of 18 to 80 cells of which two hold symbolic values; the angles fixed')
def large_extremes(ctx, nr, nc, i0, j0):
    add = ctx.mod('plots').add_extrema
    pol = [[0.05 + 3.0 * (i + 0.3 * j / nc) / nr for j in range(nc)] for i in range(nr)]
    azi = [[0.02 + 6.0 * (j + 0.5 * i / nr) / nc for j in range(nc)] for i in range(nr)]
    f = [[40.0 * math.sin(2.3 * i + 1.1 * j) for j in range(nc)] for i in range(nr)]
    f[i0][j0], f[nr // 2][0] = ctx.real('u', -100.0, 100.0), ctx.real('v', -100.0, 100.0)
    ax = Recorder('ax')
    lo, hi = add(ctx.array(pol), ctx.array(azi), ctx.array(f), ax, legend_str='B_x', markers='<>')
    calls = ax.of('plot')
    ctx.same('two marks', len(calls), 2)
    flat = [(f[i][j], pol[i][j], azi[i][j]) for i in range(nr) for j in range(nc)]
    for name, ext, sg in (('Max', hi, 1), ('Min', lo, -1)):
        x, y = [c for c in calls if c[1].get('label', '').startswith(name)][0][0][:2]
        hit = False
        for v, p, a in flat:
            ctx.true(name + ' is extreme', (ext - v) * sg >= -1e-9)
            d1, d2, d3 = x - a * DEG, y - p * DEG, ext - v
            hit = ((d1 <= 1e-6) & (d1 >= -1e-6) & (d2 <= 1e-6) & (d2 >= -1e-6) & (d3 <= 1e-9) & (d3 >= -1e-9)) | hit
        ctx.true(name + ' sits at its cell', hit)
