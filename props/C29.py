"""Tick marks of symmetric logarithmic colour bars: values, labels and positions agree."""
from symx.harness import harness
from props.util import *
from props.stubs import Recorder


def exponents(lo, hi, step):
    return [e for e in range(lo, hi + 1) if (e - lo) % step == 0]


@harness('C29', budget=60, bounds='smallest exponent -4 to 3, up to 5 decades, steps 1 to 3, all integers symbolic')
def major(ctx):
    T = ctx.mod('colorbar_manual_tickmarks')
    lo = ctx.int('lo', -4, 3)
    span, step = ctx.int('span', -1, 5), ctx.int('step', 1, 3)
    v, lab = T.generate_major(lo, lo + span, step)
    lo, span, step = int(lo), int(span), int(step)
    es = exponents(lo, lo + span, step)
    want = [-10.0 ** e for e in es[::-1]] + [0] + [10.0 ** e for e in es]
    ctx.eq('values', list(v), want)
    ctx.same('labels', list(lab), ['$-10^{%d}$' % e for e in es[::-1]] + ['0'] + ['$10^{%d}$' % e for e in es])


@harness('C29', budget=60, bounds='smallest exponent -3 to 3, up to 4 decades')
def minor(ctx):
    T = ctx.mod('colorbar_manual_tickmarks')
    lo, span = ctx.int('lo', -3, 3), ctx.int('span', 0, 4)
    v = T.generate_minor(lo, lo + span, 1)
    lo, span = int(lo), int(span)
    pos = sorted({float('%de%d' % (d, e - 1)) for e in range(lo, lo + span + 2) for d in range(1, 10)})
    ctx.eq('values', list(v), [-x for x in pos[::-1]] + [0.0] + pos)


class Scale:
    """Stand-in for the scale of a symmetric logarithmic axis: linear up to one and compressed, with slope k, beyond. Like
    the scale of the real axis it is odd, increasing and not linear; being piecewise linear it is exact for the solver."""

    def __init__(self, np, k):
        self.np, self.k = np, k

    def one(self, v, k):
        return k * v + (1 - k) * self.np.clip(v, -1.0, 1.0)     # slope 1 up to one and slope k beyond

    def apply(self, v, k):
        if hasattr(v, '__len__'):
            return self.np.array([self.one(x, k) for x in v])
        return self.one(v, k)

    def transform(self, v):
        return self.apply(v, self.k)

    transform_non_affine = transform

    def inverted(self):
        return Scale(self.np, 1.0 / self.k)


def bar(np, k, vmin, vmax, long):
    """A colour bar whose long axis has the limits and the scale of the norm, as matplotlib makes it, and whose short axis
    runs linearly from 0 to 1."""
    scale, plain = Scale(np, k), Scale(np, 1.0)
    fraction = lambda v: (scale.one(v, k) - scale.one(vmin, k)) / (scale.one(vmax, k) - scale.one(vmin, k))

    class Norm:
        linthresh = 1.0

        def __call__(self, v):
            return np.array([fraction(x) for x in v]) if hasattr(v, '__len__') else fraction(v)

        def inverse(self, f):
            a, b = scale.one(vmin, k), scale.one(vmax, k)
            g = lambda x: scale.one(a + (b - a) * x, 1.0 / k)
            return np.array([g(x) for x in f]) if hasattr(f, '__len__') else g(f)
    norm = Norm()
    norm.vmin, norm.vmax = vmin, vmax
    lims = {long: (vmin, vmax), 'y' if long == 'x' else 'x': (0.0, 1.0)}
    axes = Recorder('axes', get_xlim=lambda: lims['x'], get_ylim=lambda: lims['y'],
                    get_xbound=lambda: lims['x'], get_ybound=lambda: lims['y'],
                    get_xscale=lambda: 'symlog' if long == 'x' else 'linear', get_yscale=lambda: 'symlog' if long == 'y' else 'linear')
    two = {n: Recorder(n, attrs=dict(axes=axes, axis_name=n), get_transform=lambda n=n: scale if n == long else plain,
                       get_view_interval=lambda n=n: np.array(list(lims[n])), get_scale=lambda n=n: 'symlog' if n == long else 'linear')
           for n in 'xy'}
    axes.xaxis, axes.yaxis = two['x'], two['y']
    return norm, two, axes, fraction, lambda t: fraction(t)


def ticks(axis):
    major = [list(p[0] if p else kw['ticks']) for p, kw in axis.of('set_ticks') if not kw.get('minor')]
    minor = [list(p[0] if p else kw['ticks']) for p, kw in axis.of('set_ticks') if kw.get('minor')]
    labels = [list(p[0] if p else kw['labels']) for p, kw in axis.of('set_ticklabels')]
    labels += [list(kw['labels']) for p, kw in axis.of('set_ticks') if kw.get('labels') is not None]
    labels += [list(p[1]) for p, kw in axis.of('set_ticks') if len(p) > 1]
    return major, minor, labels


@harness('C29', cases=[('x',), ('y',)], budget=60, bounds='symbolic major and 2 minor values inside or outside of the '
         'bar; bars from -10 to 10, -3 to 8, with a compressed and a linear axis scale')
def positions(ctx, which):
    T = ctx.mod('colorbar_manual_tickmarks')
    k = ctx.choice('k', [0.125, 1.0])
    vmin, vmax = ctx.choice('bar', [(-10.0, 10.0), (-3.0, 8.0)])
    norm, axes, _, fraction, drawn = bar(ctx.np, k, vmin, vmax, which)
    maj = [ctx.real('M%d' % i, -20, 20) for i in range(2)]
    mnr = [ctx.real('m%d' % i, -20, 20) for i in range(2)]
    for m in mnr:       # a tick exactly at the end of the bar is inside or outside depending on rounding
        ctx.assume((abs(m - vmin) > 1e-6) & (abs(m - vmax) > 1e-6))
    T.fully_manual_tickmarks(axes[which], norm, list(maj), ['first', 'second'], ctx.array(mnr))
    major, minor, labels = ticks(axes[which])
    ctx.same('calls', (len(major), len(minor)), (1, 1))
    ctx.eq('major positions', [drawn(t) for t in major[0]], [fraction(m) for m in maj])
    ctx.same('labels', labels, [['first', 'second']])
    ctx.eq('minor positions', [drawn(t) for t in minor[0]], [fraction(m) for m in mnr if (m >= vmin) & (m <= vmax)])


@harness('C29', cases=[('x',), ('y',)], budget=60, bounds='linear threshold 10^k c with k from -2 to 1 and symbolic c in [1.001, 9.99]; '
         'maximum of 10^k c with k 1 or 3 and symbolic c in [1.1, 1.9] or [8.1, 8.9]')
def automatic(ctx, which):
    T = ctx.mod('colorbar_manual_tickmarks')
    np = ctx.np
    k0 = ctx.choice('k0', [-2, 0, 1])
    k1 = ctx.choice('k1', [1, 3])
    step = ctx.choice('step', [1, 2])
    d1 = ctx.choice('c1', [1, 8])
    end = 10.0 ** k1 * (d1 + 0.95)
    norm, axes, cbax, fraction, drawn = bar(np, 0.125, -end, end, which)
    norm.vmax = 10.0 ** k1 * ctx.real('c1.%d' % d1, d1 + 0.1, d1 + 0.9)     # there is no tick from here to the end of the bar
    norm.linthresh = 10.0 ** k0 * ctx.real('c0', 1.001, 9.99)
    cb = Recorder('cb', attrs=dict(norm=norm, ax=cbax))
    T.auto_symlog_tickmarks(cb, major_tick_step=step, axis=which)
    ctx.same('other axis untouched', [n for n, *_ in axes['y' if which == 'x' else 'x'].calls if n.startswith('set')], [])
    es = exponents(k0, k1, step)
    want = [-10.0 ** e for e in es[::-1]] + [0] + [10.0 ** e for e in es]
    major, minor, labels = ticks(axes[which])
    ctx.same('calls', (len(major), len(minor)), (1, 1))
    ctx.eq('major', [drawn(t) for t in major[0]], [fraction(v) for v in want])
    ctx.same('labels', labels, [['$-10^{%d}$' % e for e in es[::-1]] + ['0'] + ['$10^{%d}$' % e for e in es]])
    pos = sorted({float('%de%d' % (d, e - 1)) for e in range(k0, k1 + 2) for d in range(1, 10)})
    ctx.eq('minor', [drawn(t) for t in minor[0]], [fraction(v) for v in [-x for x in pos[::-1]] + [0.0] + pos if abs(v) <= end])


@harness('C29', bounds='tick labels with every exponent from -12 to 12 and every shift from -6 to 6, with and without sign; labels without exponent')
def units(ctx):
    T = ctx.mod('colorbar_manual_tickmarks')
    e = ctx.int('e', -12, 12)
    s = ctx.choice('shift', [None, -6, -1, 0, 3, 6])
    pre = ctx.choice('prefix', ['$10^{', '$-10^{', r'$\mathdefault{'])
    got = T.tesla_to_gauss('%s%s}$' % (pre, e)) if s is None else T.tesla_to_gauss('%s%s}$' % (pre, e), s)
    ctx.same('shifted', got, '%s%d}$' % (pre, int(e) + (4 if s is None else s)))
    ctx.same('plain', [T.tesla_to_gauss(x) for x in ('0', '', '$5$')], ['0', '', '$5$'])
