"""The Fibonacci sphere: unit vectors, evenly spaced along one axis, turned by the golden angle from one to the next."""
import math
from symx.harness import harness
from props.util import *

GOLDEN = math.pi * (3 - math.sqrt(5))


@harness('C30', cases=lambda tier: [(n,) for n in ([1, 2, 3, 7, 20, 100, 1000] + ([50, 200] if tier != 'quick' else []))], budget=60,
         bounds='1 to 20 (200) points, with the random offset symbolic in [0,1) or without; 100 and 1000 points without')
def sphere(ctx, n):
    F = ctx.mod('fibonacci_sphere').fibonacci_sphere
    rnd = n <= 20 and ctx.flag('randomize') or n in (50, 200) and ctx.flag('randomize')
    p = F(n, randomize=rnd)
    ctx.same('shape', tuple(p.shape), (n, 3))
    prev = None
    for i in range(n):
        x, y, z = p[i][0], p[i][1], p[i][2]
        ctx.eq('unit length', x * x + y * y + z * z, 1.0)
        ctx.eq('height', y, (2 * i + 1) / n - 1, atol=1e-12)
        r2 = 1 - ((2 * i + 1) / n - 1) ** 2
        if prev is not None:
            # the angle from the previous point, up to the one wrap around after n points
            px, pz, pr2 = prev
            c, s = (x * px + z * pz) / math.sqrt(r2 * pr2), (z * px - x * pz) / math.sqrt(r2 * pr2)
            w = GOLDEN * (1 - n)
            if rnd:
                d1 = (c - math.cos(GOLDEN)) ** 2 + (s - math.sin(GOLDEN)) ** 2
                d2 = (c - math.cos(w)) ** 2 + (s - math.sin(w)) ** 2
                ctx.true('golden angle', (d1 <= 1e-12) | (d2 <= 1e-12))
            elif i < n - 1:
                ctx.eq('golden angle', [c, s], [math.cos(GOLDEN), math.sin(GOLDEN)], atol=1e-9)
            else:
                ctx.eq('last angle', [c, s], [math.cos(w), math.sin(w)], atol=1e-9)
        prev = (x, z, r2)
