"""hstack joins coefficient sets entry by entry; hsplit undoes it."""
from symx.harness import harness
from props.util import *

KEYS = [(1, 0), (2, -1), (3, 3)]


@harness('C04', cases=lambda tier: [((1, 1), 2), ((2, 1), 2), ((1, 2, 1), 1), ((1, 1, 1), 1)] +
         ([((1, 3), 3), ((2, 2, 1), 2)] if tier != 'quick' else []),
         bounds='2 or 3 sets of widths 1..3, over up to 3 keys; for the first keys every combination of presence; symbolic values')
def stack(ctx, widths, free):
    C = ctx.mod('coefficients')
    tables = []
    for i, w in enumerate(widths):
        keys = [k for j, k in enumerate(KEYS) if (ctx.flag('in%d.%d' % (i, j)) if j < free else (i + j) % 2 == 0)]
        tables.append(sym_table(ctx, 's%d' % i, keys, w))
    objs = [build(ctx, t, default(ctx, w)) for t, w in zip(tables, widths)]
    r = C.hstack(objs if ctx.flag('list') else tuple(objs))
    union = set(k for t in tables for k in t)
    want = {k: sum([list(t.get(k, [0j] * w)) for t, w in zip(tables, widths)], []) for k in union}
    n = sum(widths)
    check_table(ctx, 'stacked', r, want, n)
    ctx.eq('stacked default', r.default_coefficients, [0j] * n)
    cuts = [sum(widths[:i]) for i in range(1, len(widths))]
    parts = r.hsplit(cuts)
    ctx.same('number of parts', len(parts), len(widths))
    for i, (p, t, w) in enumerate(zip(parts, tables, widths)):
        check_table(ctx, 'part%d' % i, p, {k: t.get(k, [0j] * w) for k in union}, w)
    single = r.hsplit()
    ctx.same('number of columns', len(single), n)
    for i, p in enumerate(single):
        check_table(ctx, 'column%d' % i, p, {k: [v[i]] for k, v in want.items()}, 1)
    for k, v in r.contents():
        v[0] = 55.0
    for p in single:
        for k, v in p.contents():
            v[0] = 77.0
        p.set(6, 1, [1.0])
    for i, (o, t, w) in enumerate(zip(objs, tables, widths)):
        check_table(ctx, 'operand%d' % i, o, t, w)


@harness('C04', cases=[(4, 2), (6, 3), (3, 3), (2, 1)], bounds='equal sections; 3 entries of 2..6 symbolic numbers')
def sections(ctx, n, parts):
    t = sym_table(ctx, 's', KEYS, n)
    ps = build(ctx, t, default(ctx, n)).hsplit(parts)
    w = n // parts
    ctx.same('number of parts', len(ps), parts)
    for i, p in enumerate(ps):
        check_table(ctx, 'part%d' % i, p, {k: v[i * w:(i + 1) * w] for k, v in t.items()}, w)
    check_table(ctx, 'joined again', ctx.mod('coefficients').hstack(ps), t, n)


@harness('C04', bounds='three sets of widths 1, 3 and 1 with 80, 40 and 60 entries of degree up to 60, partly the same, 4 of each symbolic')
def large(ctx):
    C = ctx.mod('coefficients')
    ks, widths = [many_keys(80), many_keys(100)[60:], many_keys(60)], (1, 3, 1)
    ts = [many_table(ctx, k, w, 's%d' % i) for i, (k, w) in enumerate(zip(ks, widths))]
    objs = [build(ctx, t, default(ctx, w)) for t, w in zip(ts, widths)]
    r = C.hstack(objs)
    union = set(k for t in ts for k in t)
    want = {k: sum([list(t.get(k, [0j] * w)) for t, w in zip(ts, widths)], []) for k in union}
    check_table(ctx, 'stacked', r, want, 5)
    for i, p in enumerate(r.hsplit()):
        check_table(ctx, 'column%d' % i, p, {k: [v[i]] for k, v in want.items()}, 1)
    for i, p in enumerate(r.hsplit([1, 4])):
        check_table(ctx, 'part%d' % i, p, {k: ts[i].get(k, [0j] * widths[i]) for k in union}, widths[i])
