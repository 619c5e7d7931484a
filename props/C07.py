"""What is written to a magnetogram file is read back, up to the precision of the file format."""
import os
from symx.harness import harness
from props.util import *

KEYS = [(1, 0), (1, 1), (2, -1), (3, 2), (3, 3)]


def roundtrip(ctx, t, width, kw, name='out.dat'):
    R = ctx.mod('reader_writer')
    c = build(ctx, t, default(ctx, width))
    path = os.path.join(ctx.tmpdir(), name)
    R.write_magnetogram_file(c, path, **kw)
    check_table(ctx, 'written object', c, t, width)
    return R.read_magnetogram_file(path), path


@harness('C07', cases=lambda tier: [(w, h) for w in (1, 2, 3) for h in (False, True)],
         bounds='5 entries up to degree 3 with gaps, 1 to 3 complex numbers each, symbolic in [-1e4,1e4]; degree_max absent or 0..6; '
                'order_min absent, -3, -1, 0 or 1; with and without the SWMF header; relative tolerance 1e-6')
def write_read(ctx, width, header):
    kw = {}
    dm = ctx.choice('degree_max', [None, 0, 1, 2, 3, 4, 6])
    om = ctx.choice('order_min', [None, -3, -1, 0, 1])
    if dm is not None:
        kw['degree_max'] = dm
    if om is not None:
        kw['order_min'] = om
    if header:
        kw['write_swmf_header'] = True
    t = sym_table(ctx, 'c', KEYS, width, lo=-1e4, hi=1e4)
    L = 3 if dm is None else dm
    M = 0 if om is None else om
    keys = [k for k in keys_upto(L) if k[1] >= M]
    if not keys:
        return
    c, path = roundtrip(ctx, t, width, kw)
    got = table(c)
    ctx.same('entries', sorted(got), sorted(keys))
    ctx.same('sets', c.default_coefficients.shape, (width,))
    for k in keys:
        ctx.close('value%s' % list(k), got.get(k, [0j]), t.get(k, [0j] * width), rel=1e-6)
    # and once more: what was read is written and read unchanged to the same precision
    d, _ = roundtrip_again(ctx, c, path, kw)
    got2 = table(d)
    ctx.same('entries again', sorted(got2), sorted(keys))
    for k in keys:
        ctx.close('again%s' % list(k), got2.get(k, [0j]), t.get(k, [0j] * width), rel=2e-6)


@harness('C07', cases=lambda tier: [(w,) for w in ((1, 2) if tier == 'quick' else (1, 2, 3))],
         bounds='one entry of degree 0, 1 or 12, its real and imaginary part of either sign and of size m 10^k with symbolic m in [1.001, 9.99] '
                'and k one of -300, -120, -99, -4, 0, 7, 99, 120, 300, so of every width the format has')
def magnitudes(ctx, width):
    R = ctx.mod('reader_writer')
    l = ctx.choice('l', [0, 1, 12])
    path = os.path.join(ctx.tmpdir(), 'o.dat')
    v = []
    for part in ('re', 'im'):
        k = ctx.choice('exponent of ' + part, [-300, -120, -99, -4, 0, 7, 99, 120, 300])
        sg = ctx.choice('sign of ' + part, [1.0, -1.0])
        v.append(ctx.real(part, 1.001, 9.99, lin=True) * (sg * float('1e%d' % k)))
    x = v[0] + 1j * v[1]
    d = [1.5 - 0.25j] * (width - 1)
    c = build(ctx, {(l, l): d + [x]}, default(ctx, width))
    R.write_magnetogram_file(c, path)
    got = table(R.read_magnetogram_file(path))
    ctx.same('entries', sorted(got), sorted(keys_upto(l, 0, 0)))
    r = got.get((l, l), [0j] * width)
    ctx.same('width', len(r), width)
    ctx.close('others', r[:-1], d, rel=1e-6)
    ctx.close('real part', [r[-1].real / v[0]], [1.0], rel=1e-6)
    ctx.close('imaginary part', [r[-1].imag / v[1]], [1.0], rel=1e-6)


@harness('C07', cases=lambda tier: [(w, h) for w in (1, 2) for h in (False, True)],
         bounds='sets with degree 0 only, with and without simulation header')
def monopole(ctx, width, header):
    t = sym_table(ctx, 'c', [(0, 0)], width)
    c, path = roundtrip(ctx, t, width, {'write_swmf_header': header})
    got = table(c)
    ctx.same('entries', sorted(got), [(0, 0)])
    for k in got:
        ctx.close('value', got[k], t[k], rel=1e-6)


def roundtrip_again(ctx, c, path, kw):
    R = ctx.mod('reader_writer')
    R.write_magnetogram_file(c, path, **kw)
    return R.read_magnetogram_file(path), path


@harness('C07', bounds='degree 9 to 100 entries, which fill the columns; one symbolic value of any magnitude in [-1e4,1e4]')
def wide_columns(ctx):
    R = ctx.mod('reader_writer')
    l = ctx.choice('l', [9, 10, 11])
    t = sym_table(ctx, 'c', [(l, l), (l, -l), (1, 0)], 2, lo=-1e4, hi=1e4)
    c = build(ctx, t, default(ctx, 2))
    path = os.path.join(ctx.tmpdir(), 'o.dat')
    R.write_magnetogram_file(c, path, order_min=-l)
    got = table(R.read_magnetogram_file(path))
    for k in t:
        ctx.close('value%s' % list(k), got.get(k, [0j, 0j]), t[k], rel=1e-6)
    ctx.same('entries', len(got), (l + 1) ** 2)


@harness('C07', cases=[(w, h) for w in (1, 3) for h in (False, True)], bounds='90 entries of degree up to 30, 4 of them symbolic; highest degree absent, 7, 20 or 35, lowest order absent, -30 or -3')
def long(ctx, width, header):
    keys = many_keys(90, 30)
    t = many_table(ctx, keys, width)
    dm, om = ctx.choice('limits', [(None, None), (None, -30), (7, None), (20, -3), (35, -30)])
    kw = dict([('write_swmf_header', header)] + ([] if dm is None else [('degree_max', dm)]) + ([] if om is None else [('order_min', om)]))
    c, path = roundtrip(ctx, t, width, kw)
    got = table(c)
    L, M = max(k[0] for k in keys) if dm is None else dm, om or 0
    keys = [k for k in keys_upto(L) if k[1] >= M]
    ctx.same('entries', sorted(got), sorted(keys))
    ctx.same('sets', c.default_coefficients.shape, (width,))
    for k in keys:
        ctx.close('value%s' % list(k), got.get(k, [0j]), t.get(k, [0j] * width), rel=1e-6)


@harness('C07', cases=[(10,), (101,)], bounds='sets of degree 10 or 101 with orders down to -10 or -101, which fill the columns; all orders written; one complex number, symbolic at 6 entries')
def high(ctx, l):
    t = sym_table(ctx, 'c', [(l, l), (l, -l), (l, 1 - l), (l - 1, 1 - l), (2, -2), (1, 0)], 1)
    c, path = roundtrip(ctx, t, 1, {'order_min': -l})
    got = table(c)
    ctx.same('entries', len(got), (l + 1) ** 2)
    for k in keys_upto(l):
        if k in t or l < 99 or k[0] > l - 2:
            ctx.close('value%s' % list(k), got.get(k, [7e9]), t.get(k, [0j]), rel=1e-6)
