"""sw-convert-magnetogram: the output file holds the converted coefficients and the input is never overwritten."""
import os
import sys
from symx.harness import harness
from props.util import *
from props import oracle

KEYS = [(1, 0), (1, 1), (3, 2)]


def write_input(ctx, name, width, keys=KEYS):
    t = {}
    out = ['magnetogram', '3 %d -3' % width]
    for i in range(width):
        for l, m in keys:
            z = ctx.cplx('c%d[%d,%d]' % (i, l, m), -1e3, 1e3)
            t.setdefault((l, m), []).append(z)
            out.append('%d %d %s %s' % (l, m, ctx.num_text(z.real), ctx.num_text(z.imag)))
        out.append('')
    path = os.path.join(ctx.tmpdir(), name)
    text = '\n'.join(out)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    return t, path, text


def slurp(path):
    with open(path, encoding='utf-8') as f:
        return f.read()


def run(ctx, args, cwd):
    M = ctx.mod('bin.convert_magnetogram')
    old, oldcwd = sys.argv, os.getcwd()
    sys.argv = ['sw-convert-magnetogram'] + args
    os.chdir(cwd)
    try:
        M.main()
    finally:
        sys.argv = old
        os.chdir(oldcwd)


@harness('C09', cases=[(m, w) for m, w in (('zdi', 3), ('zdi', 1), ('zdi', 2), ('pfss', 1), ('none', 1))],
         bounds='files of 1 to 3 sets of 3 entries up to degree 3, values symbolic in [-1000,1000]; the three modes; --degree-max absent, '
                '1, 3 or 5; header or not; output file named or derived')
def convert(ctx, mode, width):
    R = ctx.mod('reader_writer')
    t, path, text = write_input(ctx, 'star.day1.dat', width)
    args = [path]
    named = ctx.flag('named')
    cwd = os.path.join(ctx.tmpdir(), 'cwd')
    os.mkdir(cwd)
    if named:
        out = os.path.join(ctx.tmpdir(), 'result.dat')
        args.append(out)
    else:
        out = os.path.join(cwd, 'star.day1_%s.dat' % ('zdi' if mode == 'pfss' else 'wso'))
    args += {'zdi': [], 'pfss': ['--pfss-to-zdi'], 'none': ['--no-conversion']}[mode]
    dm = ctx.choice('degree_max', [None, 1, 3, 5])
    if dm is not None:
        args.append('--degree-max=%d' % dm)
    head = ctx.flag('header')
    if not head:
        args.append('--no-header')
    run(ctx, args, cwd)
    ctx.same('input untouched', slurp(path) == text, True)
    ctx.same('no other file', sorted(os.listdir(cwd)), [] if named else [os.path.basename(out)])
    if not os.path.exists(out):
        ctx.fail('output file is missing')
        return
    lines = slurp(out).split('\n')
    if mode != 'pfss':
        ctx.same('SWMF header', lines[1].split()[:1] == ['0'] and len(lines[2].split()) == 2, head)
    c = R.read_magnetogram_file(out)
    L = 3 if dm is None else dm
    got = table(c)
    n = 3 if mode == 'pfss' else 1
    ctx.same('entries', sorted(got), keys_upto(L, 0, 0))
    for k in keys_upto(L, 0, 0):
        a = t.get(k, [0j])[0]
        f = oracle.zdi_to_pfss_factor(*k)
        if mode == 'zdi':
            want = [a * f]
        elif mode == 'none':
            want = [a]
        else:
            want = [a / f, a / f * oracle.beta_over_alpha(k[0]), 0j]
        ctx.close('value%s' % list(k), got.get(k, [0j]), want, rel=1e-6, abs_=1e-12)


@harness('C09', cases=[(m,) for m in ('zdi', 'pfss', 'none')], bounds='output equal to the input (the same name, another spelling of its '
         'path, a relative path, a symbolic or hard link to it), derived output already there, '
         'several sets where one is expected; all modes; symbolic values')
def refuses(ctx, mode):
    kind = ctx.choice('kind', ['same', 'spelling', 'relative', 'symlink', 'hardlink', 'input link', 'exists', 'sets', 'missing'])
    if kind == 'sets' and mode == 'zdi':
        return
    t, path, text = write_input(ctx, 'in.dat', 2 if kind == 'sets' else 1)
    flag = {'zdi': [], 'pfss': ['--pfss-to-zdi'], 'none': ['--no-conversion']}[mode]
    cwd = os.path.join(ctx.tmpdir(), 'cwd')
    os.mkdir(cwd)
    if kind == 'same':
        ctx.raises('output equal to the input', lambda: run(ctx, [path, path] + flag, cwd))
    elif kind in ('spelling', 'relative', 'symlink', 'hardlink', 'input link'):
        top = ctx.tmpdir()
        link = os.path.join(top, 'other.dat')
        if kind in ('symlink', 'input link'):
            os.symlink(path, link)
        elif kind == 'hardlink':
            os.link(path, link)
        pair = {'spelling': [path, os.path.join(top, '.', 'cwd', '..', 'in.dat')], 'relative': [path, os.path.join('..', 'in.dat')],
                'input link': [link, path]}.get(kind, [path, link])
        ctx.raises('output is the input', lambda: run(ctx, pair + flag, cwd))
    elif kind == 'exists':
        name = os.path.join(cwd, 'in_%s.dat' % ('zdi' if mode == 'pfss' else 'wso'))
        with open(name, 'w') as f:
            f.write('precious')
        ctx.raises('derived output exists', lambda: run(ctx, [path] + flag, cwd))
        ctx.same('existing file untouched', slurp(name), 'precious')
    elif kind == 'sets':
        ctx.raises('several sets', lambda: run(ctx, [path, os.path.join(cwd, 'o.dat')] + flag, cwd))
        ctx.same('nothing written', os.listdir(cwd), [])
    else:
        ctx.raises('missing input', lambda: run(ctx, [path + '.no', os.path.join(cwd, 'o.dat')] + flag, cwd))
        ctx.same('nothing written', os.listdir(cwd), [])
    ctx.same('input untouched', slurp(path) == text, True)


@harness('C09', cases=[('zdi',), ('pfss',), ('none',)], bounds='the same conversions called as functions, with and without degree_max')
def functions(ctx, mode):
    M = ctx.mod('bin.convert_magnetogram')
    R = ctx.mod('reader_writer')
    t, path, text = write_input(ctx, 'in.dat', 1)
    out = os.path.join(ctx.tmpdir(), 'o.dat')
    dm = ctx.choice('degree_max', [None, 2, 4])
    kw = {} if dm is None else {'degree_max': dm}
    {'zdi': M.convert_zdi_to_pfss, 'pfss': M.convert_pfss_to_zdi, 'none': M.no_conversion}[mode](path, out, **kw)
    got = table(R.read_magnetogram_file(out))
    ctx.same('entries', sorted(got), keys_upto(3 if dm is None else dm, 0, 0))
    for k in got:
        a, f = t.get(k, [0j])[0], oracle.zdi_to_pfss_factor(*k)
        want = {'zdi': [a * f], 'none': [a], 'pfss': [a / f, a / f * oracle.beta_over_alpha(k[0]), 0j]}[mode]
        ctx.close('value%s' % list(k), got[k], want, rel=1e-6, abs_=1e-12)
    ctx.same('input untouched', slurp(path) == text, True)


@harness('C09', cases=[('zdi',), ('pfss',), ('none',)], bounds='files of 12 entries of degree up to 12, cut at degree 1, 2, 6, 11 or 30, through the command and as functions')
def cut(ctx, mode):
    M, R = ctx.mod('bin.convert_magnetogram'), ctx.mod('reader_writer')
    t, path, text = write_input(ctx, 'in.dat', 1, [(l, l // 2) for l in range(1, 13)])
    out = os.path.join(ctx.tmpdir(), 'o.dat')
    dm = ctx.choice('degree_max', [1, 2, 6, 11, 30])
    if ctx.flag('command'):
        run(ctx, [path, out, '--degree-max', str(dm)] + {'zdi': [], 'pfss': ['--pfss-to-zdi'], 'none': ['--no-conversion']}[mode], ctx.tmpdir())
    else:
        {'zdi': M.convert_zdi_to_pfss, 'pfss': M.convert_pfss_to_zdi, 'none': M.no_conversion}[mode](path, out, degree_max=dm)
    got = table(R.read_magnetogram_file(out))
    ctx.same('entries', sorted(got), keys_upto(dm, 0, 0))
    for k in got:
        a, f = t.get(k, [0j])[0], oracle.zdi_to_pfss_factor(*k)
        want = {'zdi': [a * f], 'none': [a], 'pfss': [a / f, a / f * oracle.beta_over_alpha(k[0]), 0j]}[mode]
        ctx.close('value%s' % list(k), got[k], want, rel=1e-6, abs_=1e-12)
    ctx.same('input untouched', slurp(path) == text, True)
