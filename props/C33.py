"""What the plotting commands draw: the requested quantity of the given magnetogram, at the cells of the grid."""
import inspect
import math
import os
import sys
from symx.harness import harness
from props.util import *
from props import oracle
from props.stubs import Recorder, patched
from props.C09 import write_input

NPOL, NAZ = 4, 5


def mids():
    return ([math.pi * (i + 0.5) / (NPOL - 1) for i in range(NPOL - 1)], [2 * math.pi * (i + 0.5) / (NAZ - 1) for i in range(NAZ - 1)])


def edges():
    return ([math.pi * i / (NPOL - 1) for i in range(NPOL)], [2 * math.pi * i / (NAZ - 1) for i in range(NAZ)])


class Spy:
    """Stands for a drawing function: remembers its arguments by name."""

    def __init__(self, fn, ret):
        self.sig = inspect.signature(fn)
        self.ret, self.calls = ret, []

    def __call__(self, *a, **kw):
        b = self.sig.bind(*a, **kw)
        b.apply_defaults()
        args = dict(b.arguments)
        self.calls.append(args)
        return self.ret(args)


class Stage:
    """Everything below the plotting functions replaced by recorders."""

    def __init__(self, ctx):
        import matplotlib.pyplot as plt
        import mpl_toolkits.axes_grid1 as ag
        P, Z = ctx.mod('plots'), ctx.mod('plot_zdi')
        self.fig = Recorder('fig')
        self.plt = Recorder('plt')
        self.made = []
        self.img, self.zero = Recorder('img'), Recorder('zero')
        self.comp = Spy(P.plot_components, lambda a: a['axs'])
        self.field = Spy(P.plot_magnetic_field, lambda a: (self.img, self.zero))
        self.extr = Spy(P.add_extrema, lambda a: (0.0, 0.0))
        self.cont = Spy(P.add_contours, lambda a: None)
        self.cbax = Recorder('cbax', get_xlim=lambda: (0.0, 1.0))
        self.cb = Recorder('cb', attrs=dict(ax=self.cbax))
        loc = lambda *a, **k: Recorder('divider')
        G = ctx.mod('geometry')
        self.geo = G.ZdiGeometry
        small = lambda *a, **k: self.geo(*a, **k) if a or k else self.geo(NPOL, NAZ)
        self.patches = [(P, 'plot_components', self.comp), (P, 'plot_magnetic_field', self.field), (P, 'add_extrema', self.extr),
                        (P, 'add_contours', self.cont), (plt, 'subplots', self.subplots), (plt, 'colorbar', lambda *a, **k: self.cb),
                        (plt, 'show', self.plt.show), (plt, 'close', self.plt.close), (ag, 'make_axes_locatable', loc),
                        (Z, 'make_axes_locatable', loc), (G, 'ZdiGeometry', small)]
        self.fig._ret['colorbar'] = lambda *a, **k: self.cb

    def subplots(self, nrows=1, ncols=1, *a, **kw):
        nr, nc = nrows, ncols
        import numpy
        ax = []
        for i in range(nr * nc):
            x = Recorder('ax%d' % i, attrs=dict(figure=self.fig, xaxis=Recorder(), yaxis=Recorder(), transAxes=None))
            ax.append(x)
        self.made.extend(ax)
        if len(ax) == 1 and kw.get('squeeze', True):
            return self.fig, ax[0]
        arr = numpy.empty(len(ax), dtype=object)
        for i, x in enumerate(ax):
            arr[i] = x
        return self.fig, arr

    def on(self):
        return patched(*self.patches)


def check_grid(ctx, label, b):
    pc, ac = mids()
    ctx.eq(label + ' polar centers', b['polar_centers'], [pc] * len(ac))
    ctx.eq(label + ' azimuth centers', b['azimuth_centers'], [[a] * len(pc) for a in ac])
    pe, ae = edges()
    if b.get('polar_corners') is not None or b.get('azimuth_corners') is not None:
        ctx.eq(label + ' polar corners', b['polar_corners'], [pe] * len(ae))
        ctx.eq(label + ' azimuth corners', b['azimuth_corners'], [[a] * len(pe) for a in ae])


def fields(ctx, t):
    """{name: map} of all components from the series definition."""
    pc, ac = mids()
    f = [[oracle.zdi_field(ctx, t, p, a) for p in pc] for a in ac]
    m = {k: [[x[k] for x in r] for r in f] for k in f[0][0]}
    add = lambda x, y: [[u + v for u, v in zip(r, s)] for r, s in zip(x, y)]
    zero = [[0.0 for p in pc] for a in ac]
    return {'radial': m['rad'], 'polar': add(m['pol_pol'], m['pol_tor']), 'azimuthal': add(m['azi_pol'], m['azi_tor']),
            'pol': [m['rad'], m['pol_pol'], m['azi_pol']], 'tor': [zero, m['pol_tor'], m['azi_tor']]}


def magnetogram(ctx, keys):
    Z = ctx.mod('zdi_magnetogram')
    t = {k: [ctx.cplx('%s%d,%d' % (s, *k), -5, 5) for s in 'abg'] for k in keys}
    np = ctx.np
    return ctx.keep(Z.ZdiMagnetogram(ctx.array([k[0] for k in keys]), ctx.array([k[1] for k in keys]),
                            *[ctx.array([t[k][i] for k in keys]) for i in range(3)])), t


@harness('C33', cases=[(None,), ('poloidal',), ('toroidal',)], bounds='magnetogram of three entries with symbolic coefficients, 3 x 4 cells')
def components(ctx, term):
    Z = ctx.mod('plot_zdi')
    m, t = magnetogram(ctx, [(1, 0), (1, 1), (3, 2)])
    s = Stage(ctx)
    given = ctx.flag('axes given')
    with s.on():
        axs = s.subplots(1, 3)[1] if given else None
        r = Z.plot_zdi_components(m, radius=3, axs=axs, term=term)
    ctx.same('drawn once', len(s.comp.calls), 1)
    b = s.comp.calls[0]
    f = fields(ctx, t)
    want = {None: [f['radial'], f['polar'], f['azimuthal']], 'poloidal': f['pol'], 'toroidal': f['tor']}[term]
    ctx.eq('values', b['field_centers'], want)
    check_grid(ctx, 'drawn', b)
    ctx.same('radius', b['radius'], 3)
    ctx.true('axes', len(r) == 3 and all(x is y for x, y in zip(r, s.made)) and len(s.made) == 3)
    with s.on():
        ctx.raises('unknown term', lambda: Z.plot_zdi_components(m, term='other'))


def check_field(ctx, s, ax, want, name):
    ctx.same('drawn once', (len(s.field.calls), len(s.extr.calls), len(s.cont.calls)), (1, 1, 1))
    for what, b in (('map', s.field.calls[0]), ('extremes', s.extr.calls[0]), ('contours', s.cont.calls[0])):
        ctx.eq(what + ' values', b['field' if what == 'extremes' else 'field_centers'], want)
        check_grid(ctx, what, b)
        ctx.true(what + ' axes', b['ax'] is ax)
        ctx.same(what + ' name', b['legend_str'], name)
    vals = [v for r in want for v in r]
    marks = [a[1] for a, _ in s.cbax.of('plot')]
    ctx.same('colour bar marks', len(marks), 2)
    for sg, m in ((1, marks[0]), (-1, marks[1])):
        hit = False
        for v in vals:
            ctx.true('mark is extreme', (m - v) * sg >= -1e-9)
            hit = ((m - v <= 1e-9) & (v - m <= 1e-9)) | hit
        ctx.true('mark is a value', hit)
    pe, ae = edges()
    ar = [[(math.cos(p0) - math.cos(p1)) * (a1 - a0) for p0, p1 in zip(pe, pe[1:])] for a0, a1 in zip(ae, ae[1:])]
    mean = sum(abs(v) * w for r, q in zip(want, ar) for v, w in zip(r, q)) / (4 * math.pi)
    txt = [a[2] for a, _ in ax.of('text') if 'mean' in a[2]]
    ctx.same('mean given', len(txt), 1)
    ctx.close('mean', ctx.read_num(txt[0].split(':')[1].split()[0]), mean, rel=5.01e-3)


@harness('C33', cases=[(1,), (2,)], budget=60, bounds='any function of the surface, its 12 cell values symbolic (1 or 2 of them free, the others fixed)')
def one_field(ctx, free):
    Z = ctx.mod('plot_zdi')
    ctx.split_g()
    pc, ac = mids()
    vals = [[3.0, -2.0, 1.5], [0.5, 1.0, -0.75], [-0.25, 4.0, 2.25], [1.25, -3.5, 0.75]]
    for i in range(free):
        vals[2 * i][1] = ctx.real('v%d' % i, -90.0, 90.0)
    s = Stage(ctx)
    asked = []

    def getter(p, a):
        asked.append((p, a))
        return ctx.array(vals)
    with s.on():
        fig, ax = Z.plot_zdi_field(getter, legend_str='B_q')
    ctx.true('figure', fig is s.fig and ax is s.made[0] and len(s.made) == 1)
    for p, a in asked:
        ctx.eq('asked', [p, a], [[pc] * len(ac), [[x] * len(pc) for x in ac]])
    check_field(ctx, s, ax, vals, 'B_q')


@harness('C33', cases=[(1.0, None), (1.0, 4.0), (1.5, 2.5), (2.0, 3.0)], bounds='potential field of three entries with symbolic coefficients at 1 to 2 radii, 3 x 4 cells')
def potential(ctx, radius, rss):
    Q = ctx.mod('plot_pfss')
    t = {k: [ctx.cplx('c%d,%d' % k, -5, 5)] for k in [(1, 0), (1, 1), (3, 2)]}
    c = build(ctx, t, default(ctx, 1))
    s = Stage(ctx)
    with s.on():
        kw = {} if rss is None else {'radius_source_surface': rss}
        fig, axs = Q.plot_components(c, geometry=s.geo(NPOL, NAZ), radius=radius, **kw)
    ctx.same('drawn once', len(s.comp.calls), 1)
    b = s.comp.calls[0]
    pc, ac = mids()
    f = [[oracle.pfss_field(ctx, t, radius, p, a, 1.0, rss or 2.5) for p in pc] for a in ac]
    ctx.eq('values', [ctx.np.reshape(x, (NAZ - 1, NPOL - 1)) for x in b['field_centers']], [[[x[i] for x in r] for r in f] for i in range(3)])
    check_grid(ctx, 'drawn', b)
    ctx.same('radius', b['radius'], radius)
    ctx.true('axes', fig is s.fig and len(axs) == 3 and all(x is y for x, y in zip(b['axs'], s.made)))


def command(ctx, s, args):
    M = ctx.mod('bin.plot_magnetogram')
    old, sys.argv = sys.argv, ['sw-plot-magnetogram'] + args
    try:
        with s.on():
            M.main()
    finally:
        sys.argv = old


def scaled_input(ctx, name, width, keys):
    """A file whose values are fixed numbers times one symbolic amplitude."""
    a = ctx.real('amplitude', 0.1, 10.0)
    t, out = {}, ['magnetogram', '%d %d -3' % (len(keys), width)]
    for i in range(width):
        for l, m in keys:
            re, im = a * (1.25 + 0.75 * i - 2.0 * m), a * (0.5 - 1.5 * i + m)
            t.setdefault((l, m), []).append(re + 1j * im)
            out.append('%d %d %s %s' % (l, m, ctx.num_text(re), ctx.num_text(im)))
        out.append('')
    path = os.path.join(ctx.tmpdir(), name)
    text = '\n'.join(out)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    return t, path, text


NAMES = {'radial': 'B_r', 'polar': r'B_\theta', 'azimuthal': r'B_\phi', 'azimuth': r'B_\phi'}


@harness('C33', cases=[(t, p) for t in ('zdi', 'pfss', None) for p in ('map', None, 'radial', 'polar', 'azimuthal', 'azimuth')] +
         [('zdi', 'strength')], budget=60,
         bounds='files with three (ZDI) or one (potential field) set of two entries; every value (maps) or a common amplitude (single components) symbolic; shown or saved')
def commands(ctx, kind, plot):
    width = 1 if kind == 'pfss' else 3
    keys = [(1, 0), (1, 1)]
    if plot in (None, 'map'):
        t, path, text = write_input(ctx, 'field_star.dat', width, keys)
    else:
        t, path, text = scaled_input(ctx, 'field_star.dat', width, keys)
    s = Stage(ctx)
    out = os.path.join(ctx.tmpdir(), 'image.png') if ctx.flag('save') else None
    command(ctx, s, [path] + ([out] if out else []) + (['-y', kind] if kind else []) + (['-p', plot] if plot else []))
    if kind == 'pfss':
        t = {k: [v[0] / oracle.zdi_to_pfss_factor(*k), v[0] / oracle.zdi_to_pfss_factor(*k) * oracle.beta_over_alpha(k[0]), 0j] for k, v in t.items()}
    f = fields(ctx, t)
    if plot in (None, 'map'):
        ctx.same('drawn once', (len(s.comp.calls), len(s.field.calls)), (1, 0))
        ctx.close('values', s.comp.calls[0]['field_centers'], [f['radial'], f['polar'], f['azimuthal']], rel=1e-7, abs_=1e-7)
        check_grid(ctx, 'drawn', s.comp.calls[0])
    else:
        ctx.same('drawn once', (len(s.comp.calls), len(s.field.calls)), (0, 1))
        b = s.field.calls[0]
        check_grid(ctx, 'drawn', b)
        v = b['field_centers']
        if plot == 'strength':
            ctx.same('name', b['legend_str'], '|B|')
            w = [[x * x + y * y + z * z for x, y, z in zip(*r)] for r in zip(f['radial'], f['polar'], f['azimuthal'])]
            ctx.close('values', v * v, w, rel=1e-7, abs_=1e-7)
        else:
            ctx.same('name', b['legend_str'], NAMES[plot])
            ctx.close('values', v, f['azimuthal' if plot == 'azimuth' else plot], rel=1e-7, abs_=1e-7)
    saved = [a[0] for a, _ in s.fig.of('savefig')]
    ctx.same('saved', saved, [out] if out else [])
    ctx.same('shown', len(s.plt.of('show')), 0 if out else 1)
    with open(path, encoding='utf-8') as fh:
        ctx.same('input untouched', fh.read() == text, True)


@harness('C33', bounds='unknown plot and magnetogram types are refused, nothing is drawn or saved')
def refused(ctx):
    t, path, text = write_input(ctx, 'field_star.dat', 3, [(1, 0)])
    s = Stage(ctx)
    a = ctx.choice('args', [['-p', 'unknown'], ['-y', 'unknown'], ['-p', 'Radial'], ['-y', 'ZDI', '-p', 'map']])
    out = os.path.join(ctx.tmpdir(), 'image.png')
    ctx.raises('refused', lambda: command(ctx, s, [path, out] + a))
    ctx.same('nothing drawn', (len(s.comp.calls), len(s.field.calls), len(s.fig.of('savefig'))), (0, 0, 0))
