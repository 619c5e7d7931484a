"""Random magnetograms: every entry of the degree range, complex noise with the stated scaling."""
from symx.harness import harness
from props.util import *


@harness('C31', cases=lambda tier: [(a, b, be) for a, b in ((1, 1), (1, 3), (2, 4), (3, 2), (14, 17), (40, 40)) + (((1, 8), (5, 9)) if tier != 'quick' else ())
                                    for be in (None, 0, 1, 2, 0.5, -1, 1.5)] + [(0, 2, None)],
         bounds='degree ranges up to 1..3 and 2..4 (1..8), 14..17 and 40, spectral slopes 0, 0.5, 1, 1.5, 2, -1; every noise value symbolic')
def scaled(ctx, lo, hi, beta):
    C = ctx.mod('coefficients')
    drawn = []

    def noise_fn(size):
        assert size == 2
        k = len(drawn)
        drawn.append((ctx.real('x%d' % k, -5, 5, lin=True), ctx.real('y%d' % k, -5, 5, lin=True)))
        return ctx.array(list(drawn[-1]))
    kw = {} if beta is None else {'beta': beta}
    c = C.noise(degree_min=lo, degree_max=hi, noise_fn=noise_fn, **kw)
    keys = [(l, m) for l in range(lo, hi + 1) for m in range(0, l + 1)]
    ctx.same('number of draws', len(drawn), len(keys))
    want = {}
    for (l, m), (x, y) in zip(keys, drawn):
        f = 1.0 / ((2 * l + 1) * (l ** beta if beta else 1.0))
        want[(l, m)] = [(x + 1j * y) * f]
    check_table(ctx, 'noise', c, want, 1)


@harness('C31', cases=[(None, None), (1, 2), (3, 3)], bounds='default noise source: entries present and complex')
def default_source(ctx, lo, hi):
    C = ctx.mod('coefficients')
    c = C.noise() if lo is None else C.noise(lo, hi)
    lo, hi = (lo, hi) if lo else (1, 15)
    ctx.same('keys', sorted(table(c)), [(l, m) for l in range(lo, hi + 1) for m in range(0, l + 1)])
    ctx.same('width', [len(v) for v in table(c).values()], [1] * c.size)
