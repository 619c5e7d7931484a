"""Rotation: the rotated coefficients describe the same field in the rotated frame, and each degree keeps its power."""
import math
from symx.harness import harness
from props.util import *
from props import oracle

DEG = math.pi / 180


def harmonic(l, m, x, y, z):
    """sqrt((2l+1)/(4 pi) (l-m)!/(l+m)!) P_l^m(cos theta) e^{i m phi} at the point (x, y, z) of the unit sphere: (re, im)."""
    n = abs(m)
    q = oracle.powsum(oracle.diff_coeffs(oracle.legendre_coeffs(l), n), z)
    k = oracle.clm(l, n) * (-1) ** n
    re, im = 1.0, 0.0
    for _ in range(n):
        re, im = re * x - im * y, re * y + im * x
    if m < 0:
        k, im = k * (-1) ** n, -im
    return k * q * re, k * q * im


def radial(t, x, y, z):
    b = 0.0
    for (l, m), v in t.items():
        re, im = harmonic(l, m, x, y, z)
        b = b + v[0].real * re - v[0].imag * im
    return b


def rot_z(np, a, p):
    c, s = np.cos(a), np.sin(a)
    return c * p[0] - s * p[1], s * p[0] + c * p[1], p[2]


def rot_y(np, a, p):
    c, s = np.cos(a), np.sin(a)
    return c * p[0] + s * p[2], p[1], -s * p[0] + c * p[2]


def _euler(ctx, which):
    """Euler angles in degrees; those not in `which` are 0."""
    return [ctx.angle('euler%d' % i, -180.0, 180.0, unit=DEG / 2) if str(i) in which else 0.0 for i in range(3)]


def _one(tier):
    L = 2 if tier == 'quick' else 3
    return [((k,), '012') for k in keys_upto(L, 0)]


def _field_cases(tier):
    out = [(tuple(keys_upto(1, 0)), '012'), (tuple(keys_upto(2, 0)), '0'), (tuple(keys_upto(2, 0)), '1'), (tuple(keys_upto(2, 2)), '12'),
           (((0, 0), (1, 1), (3, 2)), '1'), (((3, -2),), '01')]
    if tier != 'quick':
        out += [(tuple(keys_upto(2, 2)), '012'), (tuple(keys_upto(3, 3)), '01'), (tuple(keys_upto(3, 3)), '12'),
                (tuple(keys_upto(4, 4)), '1'), (tuple(keys_upto(3, 0)), '02')]
    return out


@harness('C13', cases=lambda tier: _field_cases(tier) + _one(tier), budget=60, heavy=True,
         bounds='sets of degree up to 3 (thorough 4; full sets up to degree 2) and every single coefficient up to degree 2 (3), '
                'symbolic complex values; each of the three Euler angles symbolic in [-180, 180] degrees or 0; every direction')
def field(ctx, keys, which):
    R = ctx.mod('rotate')
    np = ctx.np
    t = sym_table(ctx, 'c', keys, 1)
    c = build(ctx, t, default(ctx, 1))
    e = _euler(ctx, which)
    r = R.rotate_magnetogram_euler_zyz_deg(c, ctx.array(e))
    check_table(ctx, 'input', c, t, 1)
    got = table(r)
    L = max(k[0] for k in keys)
    ctx.same('entries', sorted(got), keys_upto(L, 0))
    pl, az = ctx.angle('polar', 0, ctx.PI), ctx.angle('azimuth', 0, 2 * ctx.PI)
    u = (np.sin(pl) * np.cos(az), np.sin(pl) * np.sin(az), np.cos(pl))
    v = rot_z(np, e[0] * DEG, rot_y(np, e[1] * DEG, rot_z(np, e[2] * DEG, u)))
    ctx.eq('field', radial(got, *u), radial(t, *v))


@harness('C13', cases=lambda tier: [((k,), '12') for k in keys_upto(2 if tier == 'quick' else 3, 0)] + [(tuple(keys_upto(1, 1)), '012')],
         budget=60, bounds='single coefficients up to degree 2 (thorough 3) and full degree 1; symbolic values and angles')
def power(ctx, keys, which):
    R = ctx.mod('rotate')
    t = sym_table(ctx, 'c', keys, 1)
    e = _euler(ctx, which)
    got = table(R.rotate_magnetogram_euler_zyz_deg(build(ctx, t, default(ctx, 1)), ctx.array(e)))
    for l in range(max(k[0] for k in keys) + 1):
        p = lambda d: sum([abs2(v[0]) for k, v in sorted(d.items()) if k[0] == l], 0.0)
        ctx.eq('power of degree %d' % l, p(got), p(t))


def abs2(z):
    return z.real * z.real + z.imag * z.imag


@harness('C13', cases=[((0.0, 0.0, 0.0),), ((90.0, 0.0, 0.0),), ((0.0, 180.0, 0.0),), ((360.0, 0.0, 0.0),), ((30.0, 45.0, -60.0),)],
         bounds='five fixed rotations of full sets up to degree 5, symbolic coefficients; every direction')
def fixed(ctx, angles):
    R = ctx.mod('rotate')
    np = ctx.np
    L = 5
    t = sym_table(ctx, 'c', keys_upto(L, 0) if angles[1] != 45.0 else keys_upto(4, 4) + [(1, 0)], 1)
    c = build(ctx, t, default(ctx, 1))
    r = R.rotate_magnetogram_euler_zyz_deg(c, ctx.array(angles))
    got = table(r)
    if angles == (0.0, 0.0, 0.0) or angles == (360.0, 0.0, 0.0):
        for k in t:
            ctx.eq('identity%s' % list(k), got[k], t[k])
    pl, az = ctx.angle('polar', 0, ctx.PI), ctx.angle('azimuth', 0, 2 * ctx.PI)
    u = (np.sin(pl) * np.cos(az), np.sin(pl) * np.sin(az), np.cos(pl))
    a = [x * DEG for x in angles]
    v = rot_z(np, a[0], rot_y(np, a[1], rot_z(np, a[2], u)))
    ctx.eq('field', radial(got, *u), radial(t, *v))


@harness('C13', cases=[(((1, 0), (1, 1)), '0'), (((1, -1),), '1'), (((2, 1),), '2'), (((1, 1),), '01')], budget=60,
         bounds='rotations followed by the opposite rotation, of 1 or 2 coefficients of degree up to 2, symbolic values and one or two symbolic angles')
def undone(ctx, keys, which):
    R = ctx.mod('rotate')
    t = sym_table(ctx, 'c', keys, 1)
    e = _euler(ctx, which)
    c = build(ctx, t, default(ctx, 1))
    r = R.rotate_magnetogram_euler_zyz_deg(c, ctx.array(e))
    b = table(R.rotate_magnetogram_euler_zyz_deg(r, ctx.array([-x for x in e[::-1]])))
    for k in keys_upto(max(k[0] for k in keys)):
        ctx.eq('value%s' % list(k), b[k], t.get(k, [0j]), atol=1e-9)
    check_table(ctx, 'input', c, t, 1)


@harness('C13', cases=[(2,), (3,)], bounds='sets with 2 or 3 symbolic numbers per entry: each rotates as a set of its own; fixed rotations, one after the other')
def columns(ctx, width):
    R = ctx.mod('rotate')
    t = sym_table(ctx, 'c', [(1, 0), (1, -1), (2, 2), (3, 1)], width)
    c = build(ctx, t, default(ctx, width))
    for n, a in enumerate([(20.0, 75.0, -130.0), (20.0, -75.0, -130.0), (0.0, 30.0, 0.0)]):
        got = table(R.rotate_magnetogram_euler_zyz_deg(c, ctx.array(a)))
        for i in range(width):
            one = table(R.rotate_magnetogram_euler_zyz_deg(build(ctx, {k: [v[i]] for k, v in t.items()}, default(ctx, 1)), ctx.array(a)))
            ctx.same('entries', sorted(got), sorted(one))
            for k in one:
                ctx.eq('value %d %s' % (n, list(k)), got[k][i], one[k][0], log=False)
    check_table(ctx, 'input', c, t, width)


@harness('C13', cases=[((9, 4),), ((14, -14),), ((20, 1),)], bounds='single coefficients of degree 9, 14 and 20 with a fixed rotation, at two directions', budget=60)
def high(ctx, key):
    R = ctx.mod('rotate')
    np = ctx.np
    t = sym_table(ctx, 'c', [key], 1)
    angles = (35.0, 50.0, -80.0)
    got = table(R.rotate_magnetogram_euler_zyz_deg(build(ctx, t, default(ctx, 1)), ctx.array(angles)))
    p0 = sum([abs2(v[0]) for k, v in sorted(got.items()) if k[0] == key[0]], 0.0)
    ctx.eq('power', p0, abs2(t[key][0]))
    a = [x * DEG for x in angles]
    for pl, az in ((0.4, 1.0), (1.9, 4.0)):
        u = (math.sin(pl) * math.cos(az), math.sin(pl) * math.sin(az), math.cos(pl))
        v = rot_z(math, a[0], rot_y(math, a[1], rot_z(math, a[2], u)))
        ctx.eq('field', radial({k: w for k, w in got.items() if k[0] == key[0]}, *u), radial(t, *v))
    for k, w in got.items():
        if k[0] != key[0]:
            ctx.eq('other degrees', w, [0j], log=False)


@harness('C13', cases=[(0,), (1,)], bounds='40 and 80 entries of degree up to 12 and both signs of the order at once, three of them symbolic; two fixed rotations; field at three directions', budget=60)
def many(ctx, which):
    R = ctx.mod('rotate')
    np = ctx.np
    keys = [k for k in many_keys(40 * (which + 1), 12)]
    free = keys[3::len(keys) // 3]
    t = {k: [complex(0.5 + 0.1 * k[0], 0.25 * k[1] - 0.3)] for k in keys}
    t.update({k: sym_table(ctx, 'c', [k], 1)[k] for k in free})
    angles = [(35.0, 50.0, -80.0), (190.0, -70.0, 10.0)][which]
    c = build(ctx, t, default(ctx, 1))
    got = table(R.rotate_magnetogram_euler_zyz_deg(c, ctx.array(angles)))
    L = max(k[0] for k in keys)
    for l in range(L + 1):
        a, b = [sum([abs2(v[0]) for k, v in sorted(x.items()) if k[0] == l], 0.0) for x in (got, t)]
        ctx.eq('power of degree %d' % l, a, b)
    a = [x * DEG for x in angles]
    for pl, az in ((0.4, 1.0), (1.9, 4.0), (2.6, 5.5)):
        u = (math.sin(pl) * math.cos(az), math.sin(pl) * math.sin(az), math.cos(pl))
        ctx.eq('field', radial(got, *u), radial(t, *rot_z(math, a[0], rot_y(math, a[1], rot_z(math, a[2], u)))))
    check_table(ctx, 'input', c, t, 1)
