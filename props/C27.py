"""The isothermal wind: the Parker equation on the right branch, clamped below the star, with constant mass flux."""
import math
import scipy.constants as sc
from symx.harness import harness
from props.util import *

G, MP, KB = sc.gravitational_constant, sc.proton_mass, sc.Boltzmann


def residual(np, w, x):
    """Parker equation for the squared Mach number w at the distance x in sonic radii."""
    return w - 1 - np.log(w) - 4 * np.log(x) - 4 * (1 / x - 1)


@harness('C27', cases=[(1,), (2,)], bounds='one or two dimensionless radii in [0.02, 100], symbolic; both branches and both together')
def dimensionless(ctx, n):
    A = ctx.mod('parker_solution').ParkerSolution
    np = ctx.np
    x = [ctx.real('x%d' % i, 0.02, 100) for i in range(n)]
    xs = ctx.array(x)
    u = A.find_parker_analytic(xs)
    ctx.same('shape', tuple(u.shape), (n,))
    both = ctx.choice('also both branches', [False, True])
    if both:
        s, t = A.find_parker_analytic(xs, all_sols=True)
    for i in range(n):
        ctx.eq('equation', residual(np, u[i] * u[i], x[i]), 0.0, atol=1e-9)
        ctx.true('branch', (u[i] <= 1.0 + 1e-7) if x[i] < 1 else (u[i] >= 1.0 - 1e-7))
        ctx.true('positive', u[i] > 0)
        ctx.eq('left side', A.parker_lhs(u[i]), u[i] * u[i] - 1 - np.log(u[i] * u[i]), atol=1e-9)
        ctx.eq('right side', A.parker_rhs(x[i]), 4 * np.log(x[i]) + 4 * (1 / x[i] - 1), atol=1e-9)
        if both:
            ctx.eq('equation, first', residual(np, s[i] * s[i], x[i]), 0.0, atol=1e-9)
            ctx.eq('equation, second', residual(np, t[i] * t[i], x[i]), 0.0, atol=1e-9)
            ctx.true('first is slow', (s[i] <= 1.0 + 1e-7) & (s[i] > 0))
            ctx.true('second is fast', t[i] >= 1.0 - 1e-7)
    ctx.eq('radii unchanged', xs, x)


def star(ctx):
    T, rho = ctx.real('T', 3e5, 1e7), ctx.real('rho', 1e-16, 1e-9)
    rs = ctx.real('sonic radius', 1e8, 1e11)
    R = rs * ctx.real('R', 0.025, 20)
    M = rs * T * (4 * KB / (G * MP))
    return T, rho, R, M, rs


@harness('C27', cases=[(1,), (2,)], bounds='one or two radii of 0.01 to 100 sonic radii; temperature, base density, stellar radius and mass all symbolic with a stellar radius of 0.025 to 20 sonic radii',
         budget=40)
def solution(ctx, n):
    T, rho, R, M, rs = star(ctx)
    np = ctx.np
    p = ctx.mod('parker_solution').ParkerSolution(temperature=T, base_density=rho, stellar_radius=R, stellar_mass=M)
    ctx.eq('sonic radius', p.radius_sonic / rs, 1.0)
    ctx.eq('sonic speed', p.speed_sonic * p.speed_sonic / T, 2 * KB / MP)
    rs, cs = p.radius_sonic, p.speed_sonic
    r = [rs * ctx.real('r%d' % i, 0.01, 100) for i in range(n)]
    rr = ctx.array(r)
    above = [bool(q > R) for q in r]
    which = ctx.choice('first call', ['speed', 'density'])
    if which == 'speed':
        v = p.speed(rr)
        d = p.density(rr)
    else:
        d = p.density(rr)
        v = p.speed(rr)
    ctx.eq('radii unchanged', rr, r)
    ctx.same('shapes', (tuple(v.shape), tuple(d.shape)), ((n,), (n,)))
    v0, d0 = p.speed(ctx.array([R])), p.density(ctx.array([R]))
    ctx.eq('base density', d0[0] / rho, 1.0)
    total = np.reshape(p.total_mass_flux, ())
    for i in range(n):
        x = r[i] if above[i] else R
        mach = v[i] / cs
        ctx.eq('equation', residual(np, mach * mach, x / rs), 0.0, atol=1e-9)
        ctx.true('branch', mach <= 1.0 + 1e-7 if x < rs else mach >= 1.0 - 1e-7)
        if not above[i]:
            ctx.eq('speed below the surface', v[i], v0[0], log=False)
            ctx.eq('density below the surface', d[i], d0[0], log=False)
        flux = 4 * math.pi * x * x * d[i] * v[i]
        ctx.eq('mass flux', flux / total, 1.0)
    ctx.eq('state', [p.temperature, p.base_density, p.stellar_radius, p.stellar_mass], [T, rho, R, M])
    ctx.eq('sonic density', np.reshape(p.density_sonic, ()) * rs * rs * cs * 4 * math.pi / total, 1.0)


@harness('C27', bounds='a single number as radius; star symbolic')
def scalar(ctx):
    T, rho, R, M, rs = star(ctx)
    p = ctx.mod('parker_solution').ParkerSolution(temperature=T, base_density=rho, stellar_radius=R, stellar_mass=M)
    r = rs * ctx.real('r', 0.01, 100)
    bool(r > R)
    v, d = p.speed(r), p.density(r)
    w, e = p.speed(ctx.array([r])), p.density(ctx.array([r]))
    ctx.same('one value', (tuple(v.shape), tuple(d.shape)), ((1,), (1,)))
    ctx.eq('same speed', v, w)
    ctx.eq('same density', d, e)


@harness('C27', bounds='radii in a 2 x 2 array, two of them symbolic; default star')
def two_dimensional(ctx):
    p = ctx.mod('parker_solution').ParkerSolution()
    rs = p.radius_sonic
    r = [rs * ctx.real('r0', 0.05, 10), 2.5 * rs, 0.5 * rs, rs * ctx.real('r1', 0.05, 10)]
    g = ctx.array([r[:2], r[2:]])
    [bool(q > p.stellar_radius) for q in r]
    v, d = p.speed(g), p.density(g)
    ctx.same('shapes', (tuple(v.shape), tuple(d.shape)), ((2, 2), (2, 2)))
    for i in range(4):
        ctx.eq('cell', [v[i // 2][i % 2], d[i // 2][i % 2]], [p.speed(ctx.array([r[i]]))[0], p.density(ctx.array([r[i]]))[0]])


@harness('C27', bounds='exactly the sonic radius, of the default star and of any other; dimensionless radius one in an array')
def sonic_point(ctx):
    P = ctx.mod('parker_solution').ParkerSolution
    np = ctx.np
    T, rho, R, M, rs = star(ctx)
    ctx.assume(R < rs)
    for p in (P(), P(temperature=T, base_density=rho, stellar_radius=R, stellar_mass=M)):
        v = p.speed(ctx.array([p.radius_sonic]))
        ctx.eq('speed', v[0] / p.speed_sonic, 1.0)
    x = ctx.real('x', 1.5, 10)
    u = P.find_parker_analytic(ctx.array([1.0, x]))
    ctx.eq('first', u[0], 1.0)
    ctx.eq('second', u[1], P.find_parker_analytic(ctx.array([x]))[0])
    s, t = P.find_parker_analytic(ctx.array([x, 1.0]), all_sols=True)
    ctx.eq('both', [s[1], t[1]], [1.0, 1.0])


@harness('C27', bounds='two stars, one of them symbolic, asked in turn for speeds and densities at one symbolic radius each; the caller overwrites what it gave and received', budget=40)
def in_turn(ctx):
    P = ctx.mod('parker_solution').ParkerSolution
    np = ctx.np
    T, rho, R, M, rs = star(ctx)
    ctx.assume(R < 0.5 * rs)
    ps = [P(temperature=T, base_density=rho, stellar_radius=R, stellar_mass=M), P()]
    r = [rs * ctx.real('r', 0.6, 50), 4.0 * ps[1].radius_sonic]
    first = None
    for again in range(2):
        got = []
        for p, q in zip(ps, r):
            b = p.radius_sonic
            x = ctx.array([q, 3.0 * b, q])
            v = p.speed(x)
            ctx.give(x)[1] = 8.0 * b
            d = p.density(x)
            m = [y / p.speed_sonic for y in v]
            for k, y in enumerate([q, 3.0 * b, q]):
                ctx.eq('equation', residual(np, m[k] * m[k], y / p.radius_sonic), 0.0, atol=1e-9)
            flux = np.reshape(p.total_mass_flux, ())
            ctx.eq('mass flux', 4 * math.pi * q * q * d[0] * v[0] / flux, 1.0)
            ctx.eq('same radius, same values', [v[2], d[2]], [v[0], d[0]])
            w = p.speed(ctx.array([8.0 * b]))[0]
            ctx.eq('mass flux further out', 4 * math.pi * 64.0 * b * b * d[1] * w / flux, 1.0)
            got += [v[0], v[1], d[0], d[1], flux]
            v *= 0.0
            d += 1.0
        if again:
            ctx.eq('asked again', [a / b for a, b in zip(got, first)], [1.0] * len(got))
        first = got


@harness('C27', cases=[(20,), (300,)], bounds='20 and 300 radii of 0.1 to 60 sonic radii in any sequence, one of them symbolic; one star', budget=40)
def many(ctx, n):
    P = ctx.mod('parker_solution').ParkerSolution
    np = ctx.np
    p = P(temperature=2.2e6, base_density=3e-12)
    rs, cs, R = p.radius_sonic, p.speed_sonic, p.stellar_radius
    x = [0.1 * 600.0 ** (((7 * i) % n) / n) for i in range(n)]
    x[n // 3] = ctx.real('x', 0.05, 100)
    bool(rs * x[n // 3] > R)
    r = ctx.array([rs * v for v in x])
    v, d = p.speed(r), p.density(r)
    ctx.same('shapes', (tuple(v.shape), tuple(d.shape)), ((n,), (n,)))
    total = np.reshape(p.total_mass_flux, ())
    for i, y in enumerate(x):
        y = y if rs * y > R else R / rs
        m = v[i] / cs
        ctx.eq('equation', residual(np, m * m, y), 0.0, atol=1e-9)
        ctx.true('branch', m <= 1.0 + 1e-7 if y < 1 else m >= 1.0 - 1e-7)
        ctx.eq('mass flux', 4 * math.pi * (rs * y) * (rs * y) * d[i] * v[i] / total, 1.0)
    u = P.find_parker_analytic(ctx.array(x))
    for i, y in enumerate(x):
        ctx.eq('dimensionless', residual(np, u[i] * u[i], y), 0.0, atol=1e-9)
