"""The numerical description holds area weighted means, rms, deviations and maxima of every field component."""
import math
from symx.harness import harness
from props.util import *
from props import oracle


class Maps:
    """Anything offering the component getters; here the maps themselves are the symbolic inputs."""

    def __init__(self, parts):
        self.parts = parts

    def get_all(self):
        return {d: {k: (lambda pl, az, v=v: v) for k, v in f.items()} for d, f in self.parts.items()}


def stats(ctx, np, vals, ar):
    """mean, rms, std over cells (lists)."""
    ab = [abs(v) for v in vals]
    mean = sum(a * w for a, w in zip(ab, ar)) / (4 * math.pi)
    ms = sum(v * v * w for v, w in zip(vals, ar)) / (4 * math.pi)
    var = sum((a - mean) * (a - mean) * w for a, w in zip(ab, ar)) / (4 * math.pi)
    return mean, ms, var


def check(ctx, dest, name, vals, ar):
    np = ctx.np
    mean, ms, var = stats(ctx, np, vals, ar)
    pre = 'magnetogram.%s.abs.' % name
    ctx.eq(name + ' mean', dest[pre + 'mean'], mean)
    ctx.eq(name + ' rms', dest[pre + 'rms'] * dest[pre + 'rms'], ms)
    ctx.eq(name + ' std', dest[pre + 'std'] * dest[pre + 'std'], var)
    ctx.true(name + ' signs', (dest[pre + 'rms'] >= 0) & (dest[pre + 'std'] >= 0))
    m = dest[pre + 'max']
    for v in vals:
        ctx.true(name + ' max bounds every value', (m >= v) & (m >= -v))
    hit = False
    for v in vals:
        hit = (m == v) | (m == -v) | hit
    ctx.true(name + ' max is attained', hit)


def areas(npol, naz):
    pc, ac = [math.pi * i / (npol - 1) for i in range(npol)], [2 * math.pi * i / (naz - 1) for i in range(naz)]
    return [(math.cos(p0) - math.cos(p1)) * (a1 - a0) for a0, a1 in zip(ac, ac[1:]) for p0, p1 in zip(pc, pc[1:])]


@harness('C24', cases=lambda tier: [(3, 2), (4, 2)] + ([(3, 3)] if tier != 'quick' else []), budget=60, heavy=True,
         bounds='full sphere grids of 2 to 4 cells, one direction with one part; every map value in [-10,10] symbolic')
def one_map(ctx, npol, naz):
    G = ctx.mod('geometry')
    g = ctx.keep(G.ZdiGeometry(npol, naz))
    ar = areas(npol, naz)
    v = [ctx.real('v%d' % i, -10, 10) for i in range(len(ar))]
    dest = G.numerical_description(g, Maps({'radial': {'poloidal': ctx.array(v).reshape(naz - 1, npol - 1)}}))
    ctx.same('names', sorted({k.split('.')[1] for k in dest}), ['field strength', 'radial', 'radial-poloidal'])
    for n in ('radial-poloidal', 'radial', 'field strength'):
        check(ctx, dest, n, v, ar)


@harness('C24', cases=[('uneven',), ('again',)], budget=60, heavy=True,
         bounds='whole-sphere grids of 2 x 1 cells of different sizes with symbolic values; the same dictionary filled again from another magnetogram and grid')
def reused(ctx, kind):
    G = ctx.mod('geometry')
    dest = {'a': 1}
    pc, ac = [0.0, 0.7, math.pi], [0.0, 2 * math.pi]
    if kind == 'again':
        w = [ctx.real('w%d' % i, -10, 10) for i in range(3)]
        G.numerical_description(ctx.keep(G.ZdiGeometry(4, 2)), Maps({'radial': {'poloidal': ctx.array([w])}}), dest)
    g = ctx.keep(G.ZdiGeometry(ctx.array(pc), ctx.array(ac))) if kind == 'uneven' else ctx.keep(G.ZdiGeometry(3, 2))
    ar = [(math.cos(a) - math.cos(b)) * 2 * math.pi for a, b in zip(pc, pc[1:])] if kind == 'uneven' else areas(3, 2)
    v = [ctx.real('v%d' % i, -10, 10) for i in range(2)]
    V = ctx.array([v])
    r = G.numerical_description(g, Maps({'radial': {'poloidal': V}}), dest)
    ctx.true('same dictionary', r is dest and dest['a'] == 1)
    for n in ('radial-poloidal', 'radial', 'field strength'):
        check(ctx, dest, n, v, ar)
    ctx.eq('map unchanged', V, [v])


@harness('C24', budget=60, bounds='two directions, two parts each on a grid of 2 cells; one symbolic amplitude per direction '
         'multiplying fixed maps')
def parts(ctx):
    G = ctx.mod('geometry')
    g = ctx.keep(G.ZdiGeometry(3, 2))
    ar = areas(3, 2)
    a, b = ctx.real('a', 0.1, 10), ctx.real('b', 0.1, 10)
    m = {'radial': {'poloidal': [a * 1.0, a * -3.0], 'toroidal': [a * 0.5, a * 4.0]},
         'polar': {'poloidal': [b * 2.0, b * -1.0], 'toroidal': [b * -0.25, b * 0.125]}}
    given = ctx.choice('given', [{'already': 'here'}, {}])
    dest = dict(given)
    r = G.numerical_description(g, Maps({d: {k: ctx.array([v]) for k, v in f.items()} for d, f in m.items()}), dest)
    ctx.true('the given dictionary is filled', r is dest and len(dest) > len(given) and all(dest.get(k) == v for k, v in given.items()))
    tot = {d: [x + y for x, y in zip(f['poloidal'], f['toroidal'])] for d, f in m.items()}
    for d, f in m.items():
        for k, v in f.items():
            check(ctx, dest, '%s-%s' % (d, k), v, ar)
        check(ctx, dest, d, tot[d], ar)
    s2 = [x * x + y * y for x, y in zip(tot['radial'], tot['polar'])]
    pre = 'magnetogram.field strength.abs.'
    ctx.eq('strength rms', dest[pre + 'rms'] * dest[pre + 'rms'], sum(x * w for x, w in zip(s2, ar)) / (4 * math.pi))
    ctx.eq('strength mean', dest[pre + 'mean'], sum(ctx.np.sqrt(x) * w for x, w in zip(s2, ar)) / (4 * math.pi))
    mx = dest[pre + 'max']
    ctx.true('strength max', (mx * mx >= s2[0] - 1e-9) & (mx * mx >= s2[1] - 1e-9))


@harness('C24', cases=[((1, 0),), ((2, 1),)], budget=60,
         bounds='a magnetogram with one coefficient per kind scaled by a symbolic amplitude, grids of 4 x 6 cells')
def magnetogram(ctx, key):
    G, Z = ctx.mod('geometry'), ctx.mod('zdi_magnetogram')
    np = ctx.np
    a = ctx.real('a', 0.1, 10)
    co = [a * (1.0 + 2.0j), a * (0.5 - 1.0j), a * (-1.5 + 0.25j)]
    z = ctx.keep(Z.ZdiMagnetogram(ctx.array([key[0]]), ctx.array([key[1]]), *[ctx.array([c]) for c in co]))
    npol, naz = 5, 7
    g = ctx.keep(G.ZdiGeometry(npol, naz))
    ar = areas(npol, naz)
    dest = G.numerical_description(g, z)
    pc, ac = [math.pi * i / (npol - 1) for i in range(npol)], [2 * math.pi * i / (naz - 1) for i in range(naz)]
    f = [oracle.zdi_field(ctx, {key: co}, (p0 + p1) / 2, (a0 + a1) / 2) for a0, a1 in zip(ac, ac[1:]) for p0, p1 in zip(pc, pc[1:])]
    col = {'radial-poloidal': [x['rad'] for x in f], 'radial': [x['rad'] for x in f],
           'polar-poloidal': [x['pol_pol'] for x in f], 'polar-toroidal': [x['pol_tor'] for x in f],
           'polar': [x['pol_pol'] + x['pol_tor'] for x in f],
           'azimuthal-poloidal': [x['azi_pol'] for x in f], 'azimuthal-toroidal': [x['azi_tor'] for x in f],
           'azimuthal': [x['azi_pol'] + x['azi_tor'] for x in f]}
    for n, v in col.items():
        mean, ms, var = stats(ctx, np, v, ar)
        pre = 'magnetogram.%s.abs.' % n
        ctx.eq(n + ' mean', dest[pre + 'mean'], mean)
        ctx.eq(n + ' rms', dest[pre + 'rms'] * dest[pre + 'rms'], ms)
        m = dest[pre + 'max']
        for i, x in enumerate(v):
            ctx.true('%s max%d' % (n, i), (m >= x - 1e-9) & (m >= -x - 1e-9))
    s2 = [x['rad'] * x['rad'] + (x['pol_pol'] + x['pol_tor']) ** 2 + (x['azi_pol'] + x['azi_tor']) ** 2 for x in f]
    m = dest['magnetogram.field strength.abs.rms']
    ctx.eq('strength rms', m * m, sum(x * w for x, w in zip(s2, ar)) / (4 * math.pi))


@harness('C24', cases=[(7, 13), (13, 7), (2, 20)], budget=60,
         bounds='whole-sphere grids of 19 to 72 cells, the fixed values of the map times a symbolic amplitude')
def large_map(ctx, npol, naz):
    G = ctx.mod('geometry')
    ar = areas(npol, naz)
    a = ctx.real('a', 0.1, 10)
    v = [a * (3.0 * math.sin(1.7 * i + 0.4) + 0.02 * i) for i in range(len(ar))]
    dest = G.numerical_description(ctx.keep(G.ZdiGeometry(npol, naz)), Maps({'radial': {'poloidal': ctx.array(v).reshape(naz - 1, npol - 1)}}))
    for n in ('radial-poloidal', 'radial', 'field strength'):
        check(ctx, dest, n, v, ar)
