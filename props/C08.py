"""The SWMF header describes the data of the file it heads."""
import os
from symx.harness import harness
from props.util import *


@harness('C08', cases=lambda tier: [(w, lm) for w in (1, 2, 3) for lm in (0, 1, 2, 4, 15, 30)],
         bounds='sets of degree 0, or up to degree 4, 15 and 30, 1 to 3 numbers per entry, symbolic values; degree_max absent or 1..6; order_min -2..1')
def header(ctx, width, lmax):
    R = ctx.mod('reader_writer')
    t = sym_table(ctx, 'c', [(1, 0), (lmax, 1)] if lmax else [(0, 0)], width)
    c = build(ctx, t, default(ctx, width))
    dm = ctx.choice('degree_max', [None, 1, 3, 6])
    om = ctx.choice('order_min', [None, -2, 1])
    kw = {} if om is None else {'order_min': om}
    L, M = (lmax if dm is None else dm), (0 if om is None else om)
    n = len([k for k in keys_upto(L) if k[1] >= M])
    if not n:
        return
    path = os.path.join(ctx.tmpdir(), 'field.dat')
    R.write_magnetogram_file(c, path, degree_max=dm, write_swmf_header=True, **kw)
    with open(path, encoding='utf-8') as f:
        lines = f.read().split('\n')
    while lines and not lines[-1].strip():
        lines.pop()
    ctx.same('header lines', len(lines) - width * n, 5)
    ctx.true('file name', 'field.dat' in lines[0])
    ctx.same('dimensions', lines[1].split(), ['0', '0.0', '-2', '3', '2'])
    ctx.same('number of data lines', lines[2].split(), [str(n), '1'])
    ctx.same('degree, rotation, longitude', [float(x) for x in lines[3].split()], [float(L), 0.0, 0.0])
    ctx.same('columns', lines[4].split(), ['n', 'm', 'g', 'h', 'nOrder', 'CR', 'dLon'])
    if n:
        back = table(R.read_magnetogram_file(path))
        ctx.same('entries read back', sorted(back), sorted(k for k in keys_upto(L) if k[1] >= M))
        for k in back:
            ctx.close('read back%s' % list(k), back[k], t.get(k, [0j] * width), rel=1e-6)
    ctx.same('every data line has four columns', [len(x.split()) for x in lines[5:]], [4] * (width * n))


@harness('C08', bounds='all arguments of create_swmf_header')
def arguments(ctx):
    R = ctx.mod('reader_writer')
    h = R.create_swmf_header('a b.dat', 496, 30, carrington_rotation_number=2077, dlon=1.5)
    ctx.same('lines', len(h), 5)
    ctx.same('name', h[0], 'a b.dat')
    ctx.same('dimensions', h[1].split(), ['0', '0.0', '-2', '3', '2'])
    ctx.same('data lines', h[2].split(), ['496', '1'])
    ctx.same('parameters', h[3].split(), ['30', '2077', '1.5'])
    ctx.same('columns', h[4].split(), ['n', 'm', 'g', 'h', 'nOrder', 'CR', 'dLon'])
