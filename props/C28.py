"""Wavelength intervals of a spectrum: a partition of the samples, broken exactly at the jumps."""
from symx.harness import harness
from props.util import *


@harness('C28', cases=lambda tier: [(n,) for n in range(1, 6 if tier == 'quick' else 8)], budget=60,
         bounds='1 to 5 (7) samples, all wavelengths and the threshold symbolic, in any order')
def intervals(ctx, n):
    W = ctx.mod('plot_lsd').wl_intervals
    t = ctx.real('t', 0.01, 5)
    w = [ctx.real('w%d' % i, -10, 10) for i in range(n)]
    arr = ctx.array(w)
    iv = [(int(a), int(b)) for a, b in W(arr, t)]
    check(ctx, iv, w, t, n)
    ctx.eq('wavelengths unchanged', arr, w)


def check(ctx, iv, w, t, n):
    ctx.true('not empty', all(a < b for a, b in iv))
    ctx.same('partition', [a for a, _ in iv] + [n], [0] + [b for _, b in iv])
    starts = {a for a, _ in iv}
    for i in range(1, n):
        d = w[i] - w[i - 1]
        jump = (d > t) | (-d > t)
        ctx.true('break at %d' % i, jump if i in starts else (d <= t) & (-d <= t))


@harness('C28', bounds='4 samples in steps of a symbolic size, default threshold; also a plain list of samples')
def default_threshold(ctx):
    W = ctx.mod('plot_lsd').wl_intervals
    s = [ctx.real('s%d' % i, 0.0, 1.0) for i in range(3)]
    w = [500.0, 500.0 + s[0], 500.0 + s[0] + s[1], 500.0 + s[0] + s[1] + s[2]]
    for arr in (ctx.array(w), w):
        iv = [(int(a), int(b)) for a, b in W(arr)]
        check(ctx, iv, w, 0.2, 4)


@harness('C28', cases=[(40,), (7,)], bounds='40 samples in 4 groups and 7 single samples; one wavelength of each group and the threshold symbolic')
def long(ctx, n):
    W = ctx.mod('plot_lsd').wl_intervals
    t = ctx.real('t', 0.125, 0.25)
    w = [400.0 + 0.0625 * i + (i // 10 if n > 7 else i) for i in range(n)]
    for i in range(3, n, 10):
        w[i] = w[i] + ctx.real('d%d' % i, -0.5, 0.5)
    iv = [(int(a), int(b)) for a, b in W(ctx.array(w), t)]
    check(ctx, iv, w, t, n)
