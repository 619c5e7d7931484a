"""Slices and stream traces: the planes, the drawn field and the field lines belong together."""
import math
from symx.harness import harness
from props.util import *
from props import oracle
from props.stubs import Recorder, canonical, patched
from props.C33 import Spy, mids, edges, fields, NPOL, NAZ

AXES = {'x': (1, 2), 'y': (0, 2), 'z': (0, 1)}


@harness('C36', cases=[(n, s) for n in 'xyz' for s in ((2,), (2, 2))], bounds='planes of 2 or 2 x 2 points with symbolic positions, the three normals')
def planes(ctx, normal, shape):
    M = ctx.mod('pfss_magnetogram')
    n = math.prod(shape)
    a = [ctx.real('a%d' % i) for i in range(n)]
    b = [ctx.real('b%d' % i) for i in range(n)]
    pa, pb = ctx.array(a).reshape(shape), ctx.array(b).reshape(shape)
    p = M.normal_plane(pa, pb, normal)
    ctx.same('shapes', [tuple(x.shape) for x in p], [shape + (1,)] * 3)
    i, j = AXES[normal]
    k = 3 - i - j
    ctx.eq('first', p[i].reshape(-1), a)
    ctx.eq('second', p[j].reshape(-1), b)
    ctx.eq('normal', p[k].reshape(-1), [0.0] * n)
    p[k][...] = 1.0
    ctx.eq('input unchanged', [pa.reshape(-1), pb.reshape(-1)], [a, b])


def scaled(ctx, keys):
    """Coefficients: fixed numbers times one symbolic amplitude."""
    a = ctx.real('amplitude', 0.1, 10.0)
    t = {k: [a * complex(1.0 - 2.5 * i, 0.75 + i)] for i, k in enumerate(keys)}
    return a, t, build(ctx, t, default(ctx, 1))


class Stage:
    def __init__(self, ctx):
        import matplotlib.pyplot as plt
        import matplotlib.colors as colors
        np = ctx.np
        self.norms, self.made = [], []
        self.cb = Recorder('cb')
        self.fig = Recorder('fig', colorbar=lambda *a, **k: self.cb)
        self.stream, self.legends = [], []
        lin = np.linspace

        def linspace(a, b, num=50, *r, **k):
            return lin(a, b, num if num <= 20 else 3 + num % 10, *r, **k)

        def symlog(*a, **kw):
            self.norms.append(kw)
            return Recorder('norm')
        P = ctx.mod('plots')
        self.img = Recorder('img')
        self.equi = Spy(P.plot_equirectangular, lambda a: self.img)
        self.patches = [(plt, 'subplots', self.subplots), (plt, 'colorbar', lambda *a, **k: self.cb), (np, 'linspace', linspace),
                        (colors, 'SymLogNorm', symlog), (P, 'plot_equirectangular', self.equi),
                        (plt, 'streamplot', lambda *a, **k: self.stream.append(canonical('streamplot', a, k))), (plt, 'legend', lambda *a, **k: self.legends.append((a, k)))]
        import numpy
        for m in ('plot_pfss', 'plot_zdi'):
            if hasattr(ctx.mod(m), 'MaxNLocator'):
                self.patches.append((ctx.mod(m), 'MaxNLocator', lambda *a, **k: Recorder('locator', tick_values=lambda lo, hi: numpy.array([0.0, 1.0]))))
        import matplotlib.ticker as tk
        self.patches.append((tk, 'MaxNLocator', lambda *a, **k: Recorder('locator', tick_values=lambda lo, hi: numpy.array([0.0, 1.0]))))

    def subplots(self, nrows=1, ncols=1, *a, **kw):
        nr, nc = nrows, ncols
        ax = Recorder('ax', attrs=dict(figure=self.fig, xaxis=Recorder(), yaxis=Recorder()),
                      contour=lambda *a, **k: Recorder('contour', attrs=dict(collections=[Recorder('line')])))
        self.made.append(ax)
        return self.fig, ax

    def on(self):
        return patched(*self.patches)


@harness('C36', cases=[(n, kw) for n in 'xyz' for kw in ((None, None, None), (3.1, 2.0, None), (4.0, 3.5, 1.5), (2.0, 1.5, 0.5))], budget=120,
         bounds='the three normals, default and other extents, source surfaces and stellar radii; two entries scaled by a symbolic amplitude; the '
                'resolution of the plot reduced to 5 x 7 points')
def slices(ctx, normal, kw):
    Q = ctx.mod('plot_pfss')
    rmax, rss, rs = kw
    a, t, c = scaled(ctx, [(1, 0), (2, 1)])
    s = Stage(ctx)
    k = {n: v for n, v in (('rmax', rmax), ('radius_source_surface', rss), ('radius_star', rs)) if v is not None}
    with s.on():
        fig, ax = Q.plot_slice(c, normal=normal, **k)
    ctx.true('figure', fig is s.fig and ax is s.made[0] and len(s.made) == 1)
    rmax, rss, rs = rmax or 5.0, rss or 2.5, rs or 1.0
    (x, y, v), kw = ax.of('pcolormesh')[0]
    nx, ny = x.shape[1], x.shape[0]
    g = lambda n: [rmax * (2 * i / (n - 1) - 1) for i in range(n)]
    ctx.eq('points', [x, y], [[g(nx) for _ in range(ny)], [[q] * nx for q in g(ny)]])
    i, j = AXES[normal]
    (sx, sy, sf, sg), _ = ax.of('streamplot')[0][:2]
    ctx.eq('field line points', [sx, sy], [x, y])
    (cx, cy, cr, *given), ck = ax.of('contour')[0]
    ctx.eq('circle points', [cx, cy], [x, y])
    ctx.eq('circle levels', list(given[0] if given else ck['levels']), [rs, rss])
    big, least_, dist = 0.0, None, []
    for q in range(ny):
        for p in range(nx):
            pt = [0.0, 0.0, 0.0]
            pt[i], pt[j] = g(nx)[p], g(ny)[q]
            r = math.sqrt(sum(z * z for z in pt))
            dist.append(r)
            if r < rs - 1e-9:
                w = [0.0] * 4
            else:
                pol, az = math.acos(pt[2] / r), math.atan2(pt[1], pt[0])
                b = oracle.pfss_field(ctx, t, min(r, rss), pol, az, rs, rss)
                if r > rss:
                    b = [b[0] * (rss / r) ** 2, 0.0, 0.0]
                import numpy
                w = [b[0]] + oracle.to_cartesian(numpy, b[0], b[1], b[2], pol, az)
            ctx.eq('radial field', v[q, p], w[0], log=False, atol=1e-9)
            ctx.eq('field line direction', [sf[q, p], sg[q, p]], [w[1 + i], w[1 + j]], log=False, atol=1e-9)
    ctx.eq('distance', ctx.np.reshape(cr, (-1,)), dist)
    ctx.same('labels', [ax.of(n)[-1][0][0] for n in ('set_xlabel', 'set_ylabel')], [r'Distance $%s/r_{\star}$' % 'xyz'[q] for q in (i, j)])
    ctx.true('range', (s.norms[0]['vmax'] > 0) & (s.norms[0]['vmin'] == -s.norms[0]['vmax']) & (s.norms[0]['linthresh'] > 0))


def stream_args(call):
    (x, y, u, v), kw = call
    return x, y, u, v, kw


DEG = 180 / math.pi


def check_stream(ctx, call, azi, pol):
    pc, ac = mids()
    x, y, u, v, kw = stream_args(call)
    tr = lambda m: [list(r) for r in zip(*m)]
    ctx.eq('azimuth', x, [[q * DEG for q in ac] for _ in pc])
    ctx.eq('polar angle', y, [[q * DEG for _ in ac] for q in pc])
    ctx.eq('azimuthal component', u, tr(azi), atol=1e-9)
    ctx.eq('polar component', v, tr(pol), atol=1e-9)
    w = kw['linewidth']
    sq = [[p * p + q * q for p, q in zip(*r)] for r in zip(tr(azi), tr(pol))]
    # widths are proportional to the tangential field
    for r1, s1 in zip(w, sq):
        for x1, y1 in zip(r1, s1):
            ctx.eq('width', x1 * x1 * sq[0][0], w[0, 0] * w[0, 0] * y1, log=False)


@harness('C36', cases=[('zdi',), ('pfss',)], budget=60, bounds='grids of 3 x 4 cells, two entries scaled by a symbolic amplitude')
def traces(ctx, kind):
    s = Stage(ctx)
    geo = ctx.keep(ctx.mod('geometry').ZdiGeometry(NPOL, NAZ))
    pc, ac = mids()
    if kind == 'pfss':
        a, t, c = scaled(ctx, [(1, 0), (2, 1)])
        with s.on():
            ctx.mod('plot_pfss').plot_streamtraces(c, geo)
        f = [[oracle.pfss_field(ctx, t, 1.0, p, z, 1.0, 2.5) for p in pc] for z in ac]
        rad, pol, azi = [[[q[n] for q in r] for r in f] for n in range(3)]
        bg = rad
        call = (s.stream or s.made[0].of('streamplot'))[0]
    else:
        a = ctx.real('amplitude', 0.1, 10.0)
        t = {(1, 0): [a * (1 + 2j), a * (0.5 - 1j), a * (2 + 0.5j)], (2, 1): [a * (-1 + 1j), a * (3 + 1j), a * (-0.5 - 0.25j)]}
        np = ctx.np
        m = ctx.keep(ctx.mod('zdi_magnetogram').ZdiMagnetogram(ctx.array([1, 2]), ctx.array([0, 1]), *[ctx.array([t[k][i] for k in sorted(t)]) for i in range(3)]))
        with s.on():
            ctx.mod('plot_zdi').plot_streamtraces(m, geo)
        f = fields(ctx, t)
        rad, pol, azi = f['radial'], f['polar'], f['azimuthal']
        bg = None
        call = (s.made[0].of('streamplot') or s.stream)[0]
    check_stream(ctx, call, azi, pol)
    b = s.equi.calls[0]
    ctx.true('grid', b['geometry'] is geo)
    if bg is None:
        v = b['value']
        ctx.eq('strength', v * v, [[x * x + y * y + z * z for x, y, z in zip(*r)] for r in zip(rad, pol, azi)])
    else:
        ctx.eq('radial field', ctx.np.reshape(b['value'], (NAZ - 1, NPOL - 1)), bg, atol=1e-9)
        ctx.true('limits', b['vmin'] == -b['vmax'])
        for r in bg:
            for x in r:
                ctx.true('covers', (b['vmax'] >= x - 1e-9) & (b['vmax'] >= -x - 1e-9))
