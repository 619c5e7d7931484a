"""as_arrays lists the requested entries in order, and from_arrays is its inverse."""
from symx.harness import harness
from props.util import *

KEYS = [(0, 0), (1, -1), (1, 1), (3, 2), (3, -3), (2, 0)]


@harness('C03', cases=[(w, u) for w in (1, 2) for u in (True, False)],
         bounds='6 entries up to degree 3 with gaps, symbolic values; every limit absent or an integer in its range '
                '(degree -> 0..5, order -> -4..4), symbolic')
def limits(ctx, width, unset):
    t = sym_table(ctx, 'c', KEYS, width)
    c = build(ctx, t, default(ctx, width))
    kw = {}
    which = ctx.choice('which', ['none', 'lmin', 'lmax', 'lmin,lmax', 'mmin', 'mmax', 'mmin,mmax', 'lmax,mmin', 'lmax,mmax'])
    if 'lmin' in which:
        kw['degree_l_min'] = ctx.int('lmin', 0, 3)
    if 'lmax' in which:
        kw['degree_l_max'] = ctx.int('lmax', 1, 5)
    if 'mmin' in which:
        kw['order_m_min'] = ctx.int('mmin', -4, 1)
    if 'mmax' in which:
        kw['order_m_max'] = ctx.int('mmax', -1, 4)
    if 'lmin,lmax' == which:
        ctx.assume(kw['degree_l_min'] <= kw['degree_l_max'])
    lmin, lmax = kw.get('degree_l_min', 0), kw.get('degree_l_max', 3)
    want = []
    for l in range(int(lmin), int(lmax) + 1):
        for m in range(-l, l + 1):
            if 'order_m_min' in kw and bool(m < kw['order_m_min']) or 'order_m_max' in kw and bool(m > kw['order_m_max']):
                continue
            if unset or (l, m) in t:
                want.append((l, m))
    if 'mmin' in which and not want:
        return
    d, o, v = c.as_arrays(include_unset=unset, **kw)
    ctx.same('degrees', [int(x) for x in d], [k[0] for k in want])
    ctx.same('orders', [int(x) for x in o], [k[1] for k in want])
    if want:
        ctx.eq('values', v, [t.get(k, [0j] * width) for k in want])
    check_table(ctx, 'object unchanged', c, t, width)


@harness('C03', cases=[(w,) for w in (1, 2, 3)],
         bounds='5 entries in any of 3 orders of appearance, symbolic values, 1 to 3 numbers per entry; 1d values too')
def inverse(ctx, width):
    C = ctx.mod('coefficients')
    t = sym_table(ctx, 'c', KEYS[1:], width)
    ks = sorted(t)
    perm = ctx.choice('perm', [0, 1, 2])
    ks = {0: ks, 1: ks[::-1], 2: ks[2:] + ks[:2]}[perm]
    vals = [t[k] for k in ks]
    if width == 1 and ctx.flag('flat'):
        vals = [v[0] for v in vals]
    arr = ctx.array(vals)
    c = C.from_arrays(ctx.array([k[0] for k in ks]), ctx.array([k[1] for k in ks]), arr)
    check_table(ctx, 'from_arrays', c, t, width)
    ctx.eq('default is zero', c.default_coefficients, [0j] * width)
    d, o, v = c.as_arrays(include_unset=False)
    check_table(ctx, 'round trip', C.from_arrays(d, o, v), t, width)
    v[0] = 5.0
    ctx.give(arr)[0] = 6.0
    check_table(ctx, 'independent of the arrays', c, t, width)
    d, o, v = c.as_arrays()
    full = {k: t.get(k, [0j] * width) for k in keys_upto(3)}
    check_table(ctx, 'round trip of the full set', C.from_arrays(d, o, v), full, width)
    ctx.raises('different lengths are refused', lambda: C.from_arrays(d[:-1], o[:-1], v))
    ctx.raises('repeated entries are refused', lambda: C.from_arrays([1, 1], [0, 0], ctx.array([1j, 2j])))
    z = ctx.cplx('z')
    check_table(ctx, 'single entry', C.from_arrays(2, -1, z), {(2, -1): [z]}, 1)


@harness('C03', cases=[(1,), (3,)], bounds='100 entries of degree up to 30, 4 of them symbolic; the full export, with and without unset entries, and the way back')
def large(ctx, width):
    C = ctx.mod('coefficients')
    keys = many_keys(100, 30)
    t = many_table(ctx, keys, width)
    c = build(ctx, t, default(ctx, width))
    L = max(k[0] for k in keys)
    for unset in (True, False):
        want = [k for k in keys_upto(L) if unset or k in t]
        d, o, v = c.as_arrays(include_unset=unset)
        ctx.same('degrees and orders', [(int(a), int(b)) for a, b in zip(d, o)], want)
        ctx.eq('values', v, [t.get(k, [0j] * width) for k in want])
        check_table(ctx, 'round trip', C.from_arrays(d, o, v), {k: t.get(k, [0j] * width) for k in want}, width)
