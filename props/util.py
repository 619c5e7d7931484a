"""Helpers shared by the harnesses (reference definitions live in oracle.py)."""
import math


def keys_upto(lmax, lmin=0, mmin=None):
    return [(l, m) for l in range(lmin, lmax + 1) for m in range(-l if mmin is None else max(mmin, -l), l + 1)]


def build(ctx, table, default):
    """A Coefficients object with the given {(l, m): data}."""
    c = ctx.mod('coefficients').Coefficients(default)
    for (l, m), v in table.items():
        c.append(l, m, v)
    return ctx.keep(c)


def table(c):
    """{(l, m): list of values} of a Coefficients object, through its public interface."""
    return {(int(k[0]), int(k[1])): list(v) for k, v in c.contents()}


def check_table(ctx, label, c, want, n):
    """c holds exactly the entries of want (values compared), and its summary properties agree with them."""
    got = table(c)
    ctx.same(label + '.keys', sorted(got), sorted(want))
    for k in sorted(want):
        if k in got:
            ctx.eq('%s.value%s' % (label, list(k)), got[k], list(want[k]))
    check_summary(ctx, label, c, want, n)


def check_summary(ctx, label, c, want, n):
    ctx.same(label + '.size', c.size, len(want))
    ctx.same(label + '.degree_max', c.degree_max, max([0] + [k[0] for k in want]))
    ctx.same(label + '.order_min', c.order_min, min([0] + [k[1] for k in want]))
    ctx.same(label + '.width', c.default_coefficients.shape, (n,))


def sym_table(ctx, name, keys, n=1, complex_=True, lo=-1e4, hi=1e4):
    """Symbolic data for each key; entries are lists of n numbers."""
    out = {}
    for (l, m) in keys:
        if complex_:
            out[(l, m)] = [ctx.cplx('%s[%d,%d].%d' % (name, l, m, i), lo, hi) for i in range(n)]
        else:
            out[(l, m)] = [ctx.real('%s[%d,%d].%d' % (name, l, m, i), lo, hi, lin=True) for i in range(n)]
    return out


def default(ctx, n, complex_=True):
    return ctx.np.zeros(n, dtype=complex if complex_ else float)


LAYOUTS = ['rows', 'columns', 'strided', 'reversed']


def laid_out(ctx, rows, how):
    """The same 2-D array in different arrangements in memory."""
    rows = [list(r) for r in rows]
    if how == 'columns':
        return ctx.array([list(c) for c in zip(*rows)]).T
    if how == 'strided':
        return ctx.array([[x for v in r for x in (v, 77.0)] for r in rows])[:, ::2]
    if how == 'reversed':
        return ctx.array([r[::-1] for r in rows[::-1]])[::-1, ::-1]
    return ctx.array(rows)


def many_keys(n, lmax=60):
    """n different (degree, order) pairs of degree up to lmax, scrambled."""
    full = keys_upto(lmax)
    step = next(s for s in range(1499, 1, -1) if math.gcd(s, len(full)) == 1)
    return [full[(17 + i * step) % len(full)] for i in range(n)]


def many_table(ctx, keys, width, name='big', free=4):
    """Fixed numbers for all keys but `free` of them, which are symbolic."""
    t = {k: [complex(0.5 + 0.01 * k[0] + i, 0.25 - 0.02 * k[1]) for i in range(width)] for k in keys}
    for i in range(free):
        k = keys[(2 * i + 1) * len(keys) // (2 * free)]
        t[k] = sym_table(ctx, name, [k], width)[k]
    return t
