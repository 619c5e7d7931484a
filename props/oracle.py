"""Reference definitions, written from the literature's formulas and independent of the code under test."""
import math
from fractions import Fraction

PI = math.pi


def legendre_coeffs(l):
    """Coefficients of P_l(x), lowest power first (Rodrigues)."""
    c = [Fraction(0)] * (l + 1)
    for k in range(l // 2 + 1):
        c[l - 2 * k] = Fraction((-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l), 2 ** l)
    return c


def diff_coeffs(c, n=1):
    for _ in range(n):
        c = [c[i] * i for i in range(1, len(c))] or [Fraction(0)]
    return c


def horner(c, x):
    r = 0
    for k in range(len(c) - 1, -1, -1):
        r = r * x + float(c[k])
    return r


def powsum(c, x):
    """sum c_k x^k term by term."""
    if type(x) is float and len(c) > 9:     # no cancellation at known points
        q, r = Fraction(x), Fraction(0)
        for v in reversed(c):
            r = r * q + v
        return float(r)
    r = 0.0
    p = 1
    for k, v in enumerate(c):
        if v:
            r = r + float(v) * p
        p = p * x
    return r


def plm(l, m, c, s):
    """Associated Legendre function P_l^m(c) with Condon-Shortley phase, for c = cos(theta), s = sin(theta)."""
    if abs(m) > l:
        return 0.0
    if m < 0:
        return (-1) ** m * (math.factorial(l + m) / math.factorial(l - m)) * plm(l, -m, c, s)
    return (-1) ** m * powsum(diff_coeffs(legendre_coeffs(l), m), c) * s ** m


def dplm(l, m, c, s):
    """d/dtheta of P_l^m(cos(theta))."""
    if abs(m) > l:
        return 0.0
    if m < 0:
        return (-1) ** m * (math.factorial(l + m) / math.factorial(l - m)) * dplm(l, -m, c, s)
    q = diff_coeffs(legendre_coeffs(l), m)
    r = -powsum(diff_coeffs(q), c) * s ** (m + 1)
    if m:
        r = r + m * c * powsum(q, c) * s ** (m - 1)
    return (-1) ** m * r


def plm_over_sin(l, m, c, s):
    """m P_l^m / sin(theta), finite at the poles."""
    if m == 0 or abs(m) > l:
        return 0.0
    if m < 0:
        return -(-1) ** m * (math.factorial(l + m) / math.factorial(l - m)) * plm_over_sin(l, -m, c, s)
    return m * (-1) ** m * powsum(diff_coeffs(legendre_coeffs(l), m), c) * s ** (m - 1)


def clm(l, m):
    return math.sqrt((2 * l + 1) / (4 * PI) * math.factorial(l - m) / math.factorial(l + m))


class Angles:
    """cos and sin of multiples of the azimuth, and of the polar angle."""

    def __init__(self, ctx, polar, azimuth):
        np = ctx.np
        self.c, self.s = np.cos(polar), np.sin(polar)
        self.np, self.az = np, azimuth

    def e(self, m):
        return (1.0, 0.0) if m == 0 else (self.np.cos(m * self.az), self.np.sin(m * self.az))


def re_times(z, cs):
    """Re and the azimuth-derivative part: Re(z e^{imp}) and Re(i z e^{imp})."""
    c, s = cs
    return z.real * c - z.imag * s, -(z.real * s + z.imag * c)


def zdi_field(ctx, coeffs, polar, azimuth):
    """Components of the ZDI field at one point; coeffs = {(l, m): [alpha, beta, gamma]}.

    B_r = sum alpha Y;  (B_theta, B_phi)_pol = -sum beta/(l+1) (dY/dtheta, 1/sin dY/dphi);
    (B_theta, B_phi)_tor = sum gamma/(l+1) (1/sin dY/dphi, -dY/dtheta)."""
    a = Angles(ctx, polar, azimuth)
    out = dict(rad=0.0, pol_pol=0.0, azi_pol=0.0, pol_tor=0.0, azi_tor=0.0)
    for (l, m), v in coeffs.items():
        k = clm(l, m)
        p, dp, ps = plm(l, m, a.c, a.s), dplm(l, m, a.c, a.s), plm_over_sin(l, m, a.c, a.s)
        e = a.e(m)
        z = [lift(x) for x in v] + [0j] * (3 - len(v))
        ra = re_times(z[0], e)
        rb, ib = re_times(z[1], e)
        rg, ig = re_times(z[2], e)
        out['rad'] = out['rad'] + k * p * ra[0]
        out['pol_pol'] = out['pol_pol'] - k / (l + 1) * dp * rb
        out['azi_pol'] = out['azi_pol'] - k / (l + 1) * ps * ib
        out['pol_tor'] = out['pol_tor'] + k / (l + 1) * ps * ig
        out['azi_tor'] = out['azi_tor'] - k / (l + 1) * dp * rg
    return out


def lift(x):
    return complex(x) if isinstance(x, (int, float)) else x


def pfss_field(ctx, coeffs, r, polar, azimuth, r0, rss):
    """Potential field with source surface: coeffs = {(l, m): g + ih}, m >= 0, Schmidt-normalised without
    Condon-Shortley phase; r0 <= r <= rss."""
    a = Angles(ctx, polar, azimuth)
    br = bt = bp = 0.0
    for (l, m), z in coeffs.items():
        z = lift(z[0] if isinstance(z, list) else z)
        k = (-1) ** m * math.sqrt((2 if m else 1) * math.factorial(l - m) / math.factorial(l + m))
        p, dp, ps = (k * f(l, m, a.c, a.s) for f in (plm, dplm, plm_over_sin))
        c, s = a.e(m)
        # potential: R(r) P(theta) (g cos + h sin), R(r) = r0 [ (r0/r)^(l+1) - (r0/rss)^(l+1) (r/rss)^l ] / norm, -R'(r0) = 1
        norm = (l + 1) + l * (r0 / rss) ** (2 * l + 1)
        rad = (r0 * (r0 / r) ** (l + 1) - r0 * (r0 / rss) ** (l + 1) * (r / rss) ** l) / norm
        mdrad = ((l + 1) * (r0 / r) ** (l + 2) + l * (r0 / rss) ** (l + 2) * (r / rss) ** (l - 1)) / norm
        f, fd = z.real * c + z.imag * s, -z.real * s + z.imag * c
        br = br + mdrad * p * f
        bt = bt - rad / r * dp * f
        bp = bp - rad / r * ps * fd
    return br, bt, bp


def zdi_to_pfss_factor(l, m):
    """ZDI: sqrt((2l+1)/(4 pi) (l-m)!/(l+m)!) with Condon-Shortley phase; PFSS: sqrt((2-d_m0) (l-m)!/(l+m)!) without."""
    return (-1) ** m * math.sqrt((2 * l + 1) / (4 * PI)) / math.sqrt(1 if m == 0 else 2)


def beta_over_alpha(l, rss=2.5):
    """(l+1) R_l(r*)/r* of the potential field with source surface: the surface tangential field relative to the radial."""
    q = (1 / rss) ** (2 * l + 1)
    return (l + 1) * (1 - q) / (l + 1 + l * q)


def to_cartesian(np, fr, fp, fa, polar, azimuth):
    """Cartesian components of a vector given by its radial, polar and azimuthal components."""
    st, ct, sp, cp = np.sin(polar), np.cos(polar), np.sin(azimuth), np.cos(azimuth)
    return [fr * st * cp + fp * ct * cp - fa * sp, fr * st * sp + fp * ct * sp + fa * cp, fr * ct - fp * st]
