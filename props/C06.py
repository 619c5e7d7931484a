"""Reading a magnetogram file: every data line, and nothing else, ends up in the right coefficient set."""
import os
from symx.harness import harness
from props.util import *

HEADERS = {
    'none': [],
    'zdi': ['General poloidal plus toroidal field', '135 3 -3'],
    'swmf': ['CR2077_GNG.dat', '0  0.0  -2  3  2', '496  1', '30  2077  0.0', 'n  m  g  h  nOrder  CR  dLon'],
    'output': ['Output of /a/b/c.py', 'Order:15', ''],
}
JUNK = ['', '   ', '# 1 0 2.0 3.0', '1 0 2.5', '1.0 0 2.0 3.0', '1 zero 2.0 3.0', '1 0 2.0 3.0i', 'end of data']


def reference(lines):
    """lines: [(l, m, re, im)]; a repeated key starts the next set."""
    sets = [{}]
    for l, m, re, im in lines:
        if (l, m) in sets[-1]:
            sets.append({})
        sets[-1][(l, m)] = re + 1j * im
    keys = set(k for s in sets for k in s)
    return {k: [s.get(k, 0j) for s in sets] for k in keys}, len(sets)


def write(ctx, text, name='in.dat'):
    path = os.path.join(ctx.tmpdir(), name)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    return path


@harness('C06', cases=lambda tier: [(h, n) for h in HEADERS for n in (1, 2, 3)],
         bounds='1 to 3 sets of 3 data lines with symbolic values; 4 kinds of header; 4 column layouts; blank lines between sets or '
                'not; with or without final newline; negative orders')
def layouts(ctx, header, nsets):
    R = ctx.mod('reader_writer')
    sep = ctx.choice('sep', ['  %d  %d  %s  %s', '%d\t%d\t%s\t%s', '%3d %3d %s %s  ', '%d %d %s %s extra 7 9'])
    gap = ctx.choice('gap', [[], [''], ['  ', '']])
    keys = [(1, 0), (1, -1), (3, 2)]
    out, lines = list(HEADERS[header]), []
    for s in range(nsets):
        for l, m in keys:
            re, im = ctx.real('re%d.%d,%d' % (s, l, m), lin=True), ctx.real('im%d.%d,%d' % (s, l, m), lin=True)
            out.append(sep % (l, m, ctx.num_text(re), ctx.num_text(im)))
            lines.append((l, m, re, im))
        out += gap
    end = ctx.choice('end', ['\n', ''])
    c = R.read_magnetogram_file(write(ctx, '\n'.join(out) + end))
    want, n = reference(lines)
    check_table(ctx, 'read', c, want, n)


@harness('C06', cases=lambda tier: [(n, None) for n in (1, 2, 3)] + ([(4, i) for i in (0, 1, 2)] if tier != 'quick' else []),
         bounds='1 to 3 (thorough 4) data lines whose degree (0..2), order (-degree..degree) and values are all symbolic, so every '
                'pattern of repeated entries and of sets with different members')
def entries(ctx, n, first):
    R = ctx.mod('reader_writer')
    out, lines = ['header'], []
    for i in range(n):
        l, m = first if i == 0 and first is not None else ctx.int('l%d' % i, 0, 2), ctx.int('m%d' % i, -2, 2)
        ctx.assume(-l <= m)
        ctx.assume(m <= l)
        re, im = ctx.real('re%d' % i, lin=True), ctx.real('im%d' % i, lin=True)
        out.append('%s %s %s %s' % tuple(ctx.num_text(x) for x in (l, m, re, im)))
        lines.append((int(l), int(m), re, im))
    c = R.read_magnetogram_file(write(ctx, '\n'.join(out) + '\n'))
    want, k = reference(lines)
    check_table(ctx, 'read', c, want, k)


@harness('C06', cases=[(i,) for i in range(len(JUNK))],
         bounds='two sets of three data lines with one line that is no data line at any of 7 positions')
def other_lines(ctx, junk):
    R = ctx.mod('reader_writer')
    out, lines = [], []
    for s in range(2):
        for l, m in [(2, 1), (1, 0), (2, 2)]:
            re, im = ctx.real('re%d.%d,%d' % (s, l, m), lin=True), ctx.real('im%d.%d,%d' % (s, l, m), lin=True)
            out.append('%d %d %s %s' % (l, m, ctx.num_text(re), ctx.num_text(im)))
            lines.append((l, m, re, im))
    pos = ctx.choice('pos', list(range(7)))
    out.insert(pos, JUNK[junk])
    c = R.read_magnetogram_file(write(ctx, '\n'.join(out) + '\n'))
    want, n = reference(lines)
    check_table(ctx, 'read', c, want, n)


@harness('C06', bounds='numbers in 6 notations, CRLF line ends, uneven sets')
def notations(ctx):
    R = ctx.mod('reader_writer')
    num, val = ctx.choice('num', [('1', 1.0), ('-2.5', -2.5), ('+3.0e+01', 30.0), ('4E-2', 0.04), ('-0.000000e+00', 0.0), ('.5', 0.5)])
    nl = ctx.choice('nl', ['\n', '\r\n'])
    x = ctx.real('x', lin=True)
    out = ['1 0 %s %s' % (num, ctx.num_text(x)), '02 +1 %s %s' % (ctx.num_text(x), num), '1 0 %s 0' % num, '5 -4 %s 7' % ctx.num_text(x)]
    c = R.read_magnetogram_file(write(ctx, nl.join(out) + nl))
    want, n = reference([(1, 0, val, x), (2, 1, x, val), (1, 0, val, 0.0), (5, -4, x, 7.0)])
    check_table(ctx, 'read', c, want, n)


@harness('C06', cases=[(1, 15), (3, 15), (3, 9), (5, 4)], bounds='files of 1, 3 or 5 full sets up to degree 15, 9 or 4 (up to 408 data lines), 6 numbers symbolic; blank lines between sets or not')
def long(ctx, nsets, lmax):
    R = ctx.mod('reader_writer')
    gap = ctx.choice('gap', [[], ['']])
    keys = keys_upto(lmax, 1, 0)
    out, lines = ['General poloidal plus toroidal field', '%d %d -3' % (len(keys), nsets)], []
    free = {(s, i) for s, i in [(0, 0), (nsets - 1, len(keys) - 1), (nsets // 2, len(keys) // 2)]}
    for s in range(nsets):
        for i, (l, m) in enumerate(keys):
            if (s, i) in free:
                re, im = ctx.real('re%d.%d,%d' % (s, l, m), lin=True), ctx.real('im%d.%d,%d' % (s, l, m), lin=True)
                out.append('%2d %2d %s %s' % (l, m, ctx.num_text(re), ctx.num_text(im)))
            else:
                re, im = l + 0.25 * s, m - 7.5
                out.append('%2d %2d % e % e' % (l, m, re, im))
            lines.append((l, m, re, im))
        out += gap
    c = R.read_magnetogram_file(write(ctx, '\n'.join(out) + '\n'))
    want, n = reference(lines)
    check_table(ctx, 'read', c, want, n)


@harness('C06', bounds='2 sets of 8 lines of degree up to 1000 and orders of either sign with up to three digits, symbolic values, columns joined by one or more spaces')
def high(ctx):
    R = ctx.mod('reader_writer')
    sep = ctx.choice('sep', ['%d %d %s %s', '%4d%5d  %s  %s', '%03d\t%+d\t%s\t%s'])
    keys = [(1, 0), (9, -9), (99, -99), (100, 100), (100, -100), (250, -101), (999, 0), (1000, 12)]
    out, lines = ['header'], []
    for s in range(2):
        for l, m in keys:
            re, im = ctx.real('re%d.%d,%d' % (s, l, m), lin=True), ctx.real('im%d.%d,%d' % (s, l, m), lin=True)
            out.append(sep % (l, m, ctx.num_text(re), ctx.num_text(im)))
            lines.append((l, m, re, im))
    c = R.read_magnetogram_file(write(ctx, '\n'.join(out) + '\n'))
    want, n = reference(lines)
    check_table(ctx, 'read', c, want, n)
