"""Least squares deconvolved profiles: each panel shows the requested Stokes parameter with its own errors."""
import os
import sys
from symx.harness import harness
from props.util import *
from props.stubs import Recorder, canonical, patched

COLUMN = {'I': 1, 'V': 3, 'N': 5}


class Stage:
    """pyplot's notion of the current figure."""

    def __init__(self):
        import matplotlib.pyplot as plt
        self.current = None
        self.shown, self.saved = [], []
        self.plt = plt
        self.patches = [(plt, 'gcf', self.gcf), (plt, 'subplots', self.subplots), (plt, 'autoscale', lambda *a, **k: None),
                        (plt, 'show', lambda *a, **k: self.shown.append(1)), (plt, 'savefig', lambda *a, **k: self.saved.append(canonical('savefig', a, k)[0][0]))]

    def gcf(self):
        if self.current is None:
            self.new(0)
        return self.current

    def new(self, n, lim=None):
        axs = []
        fig = Recorder('fig', get_axes=lambda: list(axs), savefig=lambda *a, **k: self.saved.append(a[0]))
        fig.__dict__['axes'] = axs
        for i in range(n):
            kw = {} if lim is None else {'get_ylim': (lambda i=i: lim[i])}
            axs.append(Recorder('ax%d' % i, attrs=dict(figure=fig, xaxis=Recorder(), yaxis=Recorder()), **kw))
        self.current = fig
        return fig

    def subplots(self, nrows=1, ncols=1, *a, **kw):
        nr, nc = nrows, ncols
        import numpy
        fig = self.new(nr * nc, getattr(self, 'lim', None))
        if nr * nc == 1 and kw.get('squeeze', True):
            return fig, fig.axes[0]
        arr = numpy.empty(nr * nc, dtype=object)
        arr[:] = fig.axes
        if not kw.get('squeeze', True):
            arr = arr.reshape(nr, nc)
        return fig, arr

    def on(self):
        return patched(*self.patches)


def data(ctx, n, tag='d'):
    d = [[ctx.real('%s%d,%d' % (tag, i, j), -10, 10, lin=True) for j in range(7)] for i in range(n)]
    return d


def check_panel(ctx, label, ax, d, col, count=1):
    calls = ax.of('errorbar')
    ctx.same(label + ' curves', len(calls), count)
    a, kw = calls[-1]
    x, y = a[:2]
    err = a[2] if len(a) > 2 else kw['yerr']
    ctx.eq(label + ' velocity', x, [r[0] for r in d])
    ctx.eq(label + ' values', y, [r[col] for r in d])
    ctx.eq(label + ' errors', err, [r[col + 1] for r in d])


@harness('C35', cases=[(p,) for p in (None, 'V', 'IV', 'NVI', 'VI', 'VV')], bounds='profiles of 2 velocities, all 7 columns symbolic; parameter lists with and without repetition, on enough or spare panels; drawn twice')
def profile(ctx, params):
    L = ctx.mod('plot_lsd')
    d, e = data(ctx, 2), data(ctx, 2, 'e')
    p = params or 'VNI'
    s = Stage()
    s.new(len(p) + ctx.choice('spare panels', [0, 1]))
    arr = ctx.array(d)
    with s.on():
        fig = L.plot_lsd_profile(arr, **({} if params is None else {'parameters': params}))
        ctx.true('figure', fig is s.current)
        for i, c in enumerate(p):
            ax = fig.axes[i]
            check_panel(ctx, c, ax, d, COLUMN[c])
            ctx.same(c + ' label', ax.of('set_ylabel')[0][0][0], r'Stokes $%s/I_\mathrm{c}$' % c)
        ctx.same('other panels', [len(a.of('errorbar')) for a in fig.axes[len(p):]], [0] * (len(fig.axes) - len(p)))
        # a second profile goes on top of the first
        L.plot_lsd_profile(ctx.array(e), parameters=p)
        for i, c in enumerate(p):
            check_panel(ctx, c + ' again', fig.axes[i], e, COLUMN[c], 2)
    ctx.eq('data unchanged', arr, d)
    ctx.same('too few panels', few(ctx, L, d), True)


def few(ctx, L, d):
    s = Stage()
    s.new(1)
    with s.on():
        try:
            L.plot_lsd_profile(ctx.array(d), parameters='VI')
        except AssertionError:
            return True
    return False


@harness('C35', cases=[(1,), (2,), (3,)], bounds='1 to 3 profiles of 2 velocities, all columns symbolic; axis limits of each panel symbolic; limits free, given or common')
def stack(ctx, n):
    L = ctx.mod('plot_lsd')
    ds = [data(ctx, 2, 'd%d.' % k) for k in range(n)]
    s = Stage()
    s.lim = [(ctx.real('lo%d' % k, -5.0, 0.0), ctx.real('hi%d' % k, 0.0, 5.0)) for k in range(n)]
    reuse = ctx.flag('panels there') if n > 1 else False
    if reuse:
        s.new(n, s.lim)
    old = s.current
    mode = ctx.choice('limits', [None, 'same', (-1, 2)])
    names = ctx.choice('names', [None, ['file %d' % ((3 * k + 7) % 8) for k in range(n)]])
    with s.on():
        kw = {} if mode is None else {'y_lim': mode}
        L.plot_lsd_stack([ctx.array(d) for d in ds], names, **kw)
    fig = s.current
    ctx.same('panels', (len(fig.axes), fig is old), (n, reuse))
    for k in range(n):
        check_panel(ctx, 'panel %d' % k, fig.axes[k], ds[k], 3)
        leg = [list(a[0]) for a, _ in fig.axes[k].of('legend')]
        ctx.same('name %d' % k, leg, [] if names is None else [[names[k]]])
        lim = fig.axes[k].of('set_ylim')
        if mode is None:
            ctx.same('limits %d' % k, len(lim), 0)
        else:
            ctx.same('limits %d' % k, len(lim), 1)
            a, kw = lim[0]
            got = list(a[0]) if len(a) == 1 else list(a)
            if mode == 'same':
                lo, hi = s.lim[0]
                for q in s.lim[1:]:
                    lo, hi = (q[0] if q[0] < lo else lo), (q[1] if q[1] > hi else hi)
                ctx.eq('limits %d' % k, got, [lo, hi])
            else:
                ctx.eq('limits %d' % k, got, [-1, 2])


@harness('C35', cases=[(p, k) for p in (None, 'V', 'NV', 'VIN') for k in (None, 0, 3)],
         bounds='files of 2 lines with symbolic numbers after 0, 2 or 3 header lines; shown or saved; 1 to 3 panels')
def command(ctx, params, skip):
    M = ctx.mod('bin.plot_lsd')
    d = data(ctx, 2)
    path = os.path.join(ctx.tmpdir(), 'star.prof')
    head = ['Mean profile', '2 6', 'extra header']
    lines = (head[:2] if skip is None else head[:skip]) + [' '.join(ctx.num_text(v) for v in r) for r in d]
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')
    out = os.path.join(ctx.tmpdir(), 'o.png') if ctx.flag('save') else None
    s = Stage()
    args = [path] + ([out] if out else []) + ([] if params is None else ['-p', params]) + ([] if skip is None else ['-s', str(skip)])
    old, sys.argv = sys.argv, ['sw-plot-lsd'] + args
    try:
        with s.on():
            M.main()
    finally:
        sys.argv = old
    p = params or 'VI'
    fig = s.current
    ctx.same('panels', len(fig.axes), len(p))
    for i, c in enumerate(p):
        check_panel(ctx, c, fig.axes[i], d, COLUMN[c])
        ctx.same(c + ' label', fig.axes[i].of('set_ylabel')[0][0][0], r'Stokes $%s/I_\mathrm{c}$' % c)
    ctx.same('saved', s.saved, [out] if out else [])
    ctx.same('shown', len(s.shown), 0 if out else 1)


@harness('C35', cases=lambda tier: [(n,) for n in ((2, 3) if tier == 'quick' else (2, 3, 4))], budget=60,
         bounds='spectra of 2 or 3 (4) samples, wavelengths and one further column symbolic')
def spectrum(ctx, n):
    L = ctx.mod('plot_lsd')
    d = [[ctx.real('w%d' % i, 500, 510)] + [float(i * i + j) for j in range(5)] for i in range(n)]
    for i in range(n):
        d[i][2] = ctx.real('v%d' % i, -10, 10, lin=True)
    s = Stage()
    with s.on():
        fig = L.plot_spectrum(ctx.array(d))
    ctx.same('panels', (fig is s.current, len(fig.axes)), (True, 5))
    for c in range(5):
        pts = fig.axes[c].of('scatter')
        xs = [v for a, _ in pts for v in list(a[0])]
        ys = [v for a, _ in pts for v in list(a[1])]
        ctx.eq('wavelengths %d' % c, xs, [r[0] for r in d])
        ctx.eq('values %d' % c, ys, [r[c + 1] for r in d])
        if n == 2:
            col = [r[c + 1] for r in d]
            lo, hi = (col[0], col[1]) if col[0] <= col[1] else (col[1], col[0])
            a, kw = fig.axes[c].of('set_ylim')[-1]
            ctx.close('limits %d' % c, list(a[0]) if len(a) == 1 else list(a), [lo + .03 * (hi - lo), hi - .03 * (hi - lo)], rel=1e-9, abs_=1e-9)
        for a, kw in pts:
            ctx.same('colours', len(kw['c']), len(a[0]))
            for u, v in zip(list(a[0]), list(a[0])[1:]):
                ctx.true('no jump inside', (v - u <= 0.2 + 1e-9) & (u - v <= 0.2 + 1e-9))


@harness('C35', cases=[(12,), (60,)], bounds='profiles of 12 and 60 velocities with three symbolic rows, drawn, stacked and through the command')
def long_profile(ctx, n):
    L, M = ctx.mod('plot_lsd'), ctx.mod('bin.plot_lsd')
    d = [[-30.0 + 60.0 * i / n] + [0.5 + 0.01 * i * (j + 1) for j in range(6)] for i in range(n)]
    for i in (0, n // 2, n - 1):
        d[i] = data(ctx, 1, 'row%d.' % i)[0]
    s = Stage()
    s.new(3)
    with s.on():
        fig = L.plot_lsd_profile(ctx.array(d))
        for i, c in enumerate('VNI'):
            check_panel(ctx, c, fig.axes[i], d, COLUMN[c])
        L.plot_lsd_stack([ctx.array(d), ctx.array(d[::-1])], None)
    check_panel(ctx, 'first', s.current.axes[0], d, 3)
    check_panel(ctx, 'second', s.current.axes[1], d[::-1], 3)
    path = os.path.join(ctx.tmpdir(), 'star.prof')
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(['Mean profile', '%d 6' % n] + [' '.join(ctx.num_text(v) for v in r) for r in d]) + '\n')
    s = Stage()
    old, sys.argv = sys.argv, ['sw-plot-lsd', path, '-p', 'IN']
    try:
        with s.on():
            M.main()
    finally:
        sys.argv = old
    for i, c in enumerate('IN'):
        check_panel(ctx, 'command ' + c, s.current.axes[i], d, COLUMN[c])


@harness('C35', cases=[(30,)], budget=60, bounds='a spectrum of 30 samples in 3 orders with one gap, one value symbolic')
def long_spectrum(ctx, n):
    L = ctx.mod('plot_lsd')
    d = [[500.0 + 0.01 * (i % 10) + 1.0 * (i // 10)] + [float((i * i) % 17 + j) for j in range(5)] for i in range(n)]
    d[17][2] = ctx.real('v', -10, 30, lin=True)
    s = Stage()
    with s.on():
        fig = L.plot_spectrum(ctx.array(d))
    for c in range(5):
        pts = fig.axes[c].of('scatter')
        ctx.eq('wavelengths %d' % c, [v for a, _ in pts for v in list(a[0])], [r[0] for r in d])
        ctx.eq('values %d' % c, [v for a, _ in pts for v in list(a[1])], [r[c + 1] for r in d])
