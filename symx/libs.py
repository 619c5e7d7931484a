"""Contracts of the external libraries the code calls with symbolic arguments (scipy.special, quaternion,
spherical_functions, math, cmath, random).  Concrete arguments always go to the real library."""
import math
import cmath
import operator
import types
from fractions import Fraction
import numpy as np

from . import arr, sym, npx
from . import poly as P
from .arr import RND, SymArray, from_real, to_real, has_sym, asarray
from .poly import ONE
from .sym import S, SBool, Unsupported, lift, mk, mkS, isconc


# ------------------------------------------------------------------------------- Legendre functions

_plcache = {}


def legendre_coeffs(l):
    """Coefficients of P_l(x) as {power: Fraction}."""
    r = _plcache.get(l)
    if r is None:
        r = {}
        for k in range(l // 2 + 1):
            r[l - 2 * k] = Fraction((-1) ** k * math.factorial(2 * l - 2 * k),
                                    2 ** l * math.factorial(k) * math.factorial(l - k) * math.factorial(l - 2 * k))
        _plcache[l] = r
    return r


def _cf(f):
    f = Fraction(f)
    return int(f) if f.denominator == 1 else f


def plm_poly(m, l, x):
    """P_l^m(x) with Condon-Shortley phase (scipy convention), x a polynomial with |x| <= 1."""
    if l < 0:
        l = -l - 1
    if abs(m) > l:
        return {}
    if m < 0:
        f = Fraction((-1) ** (-m) * math.factorial(l + m), math.factorial(l - m))
        return P.scale(plm_poly(-m, l, x), _cf(f))
    s2 = P.sub(P.const(1), P.mul(x, x))
    s = sym.sqrt_poly(s2) if s2 else {}
    key = ('plm', m, l, P.rkey(x))
    v = P.POOL.index.get(key)
    if v is None:
        out = {}
        for k, c in legendre_coeffs(l).items():
            if k >= m:
                c = c * math.factorial(k) / math.factorial(k - m)
                out = P.add(out, P.scale(xpow(x, k - m), _cf(c)))
        v = P.mul(P.scale(P.ipow(s, m) if m else P.const(1), (-1) ** m), out)
        P.POOL.index[key] = v
    return v


def xpow(x, n):
    key = ('xpow', P.rkey(x), n)
    v = P.POOL.index.get(key)
    if v is None:
        v = {ONE: 1} if n == 0 else P.mul(xpow(x, n - 1), x)
        P.POOL.index[key] = v
    return v


def dplm_dx_poly(m, l, x):
    """dP_l^m/dx = [l x P_l^m - (l+m) P_{l-1}^m] / (x^2 - 1)"""
    num = P.sub(P.scale(P.mul(x, plm_poly(m, l, x)), l), P.scale(plm_poly(m, l - 1, x) if l > 0 else {}, l + m))
    den = P.sub(P.mul(x, x), P.const(1))
    return num, den


def elementwise(f, real, kinds='f'):
    """Vectorised contract: concrete calls use the real function."""
    def g(*a, **kw):
        if not has_sym(list(a)) and not has_sym(kw):
            kw.pop('out', None)
            return from_real(real(*to_real(list(a)), **to_real(kw)))
        xs = [asarray(x) for x in a]
        shape = np.broadcast_shapes(*[x.shape for x in xs])
        fl = [np.broadcast_to(x.view(RND), shape).reshape(-1) for x in xs]
        o = np.empty(int(np.prod(shape)) if shape else 1, dtype=object)
        for i in range(o.size):
            o[i] = f(*[x[i] for x in fl], **kw)
        o = o.reshape(shape)
        if not shape:
            x = o[()]
            return x if isinstance(x, S) else arr.unbox(x, arr.kind_elem(x))
        return arr.wrap(o, None)
    return g


def _int(x, what):
    if isinstance(x, S):
        if x.kind == 'i':
            return sym.concretize(x)
        raise Unsupported('symbolic real ' + what)
    if x != int(x):
        raise Unsupported('fractional ' + what)
    return int(x)


def _domain(x):
    """Arguments of the Legendre functions must lie in [-1, 1]."""
    p = lift(x).re
    lo, hi = P.interval(p)
    if lo < -1 - 1e-9 or hi > 1 + 1e-9:
        s2 = P.sub(P.const(1), P.mul(p, p))
        if sym.cur().sign(s2) not in (1, 2):
            if not bool(sym.sbool_cmp(P.neg(s2), '<=')):
                return None
    return p


def e_lpmv(m, l, x):
    m, l = _int(m, 'order'), _int(l, 'degree')
    if not isinstance(x, S):
        import scipy.special
        return float(scipy.special.lpmv(m, l, x))
    p = _domain(x)
    if p is None:
        return float('nan')
    return mk(plm_poly(m, l, p), None, 'f')


def _lpmn(m, n, z):
    import scipy.special
    m, n = operator.index(m), operator.index(n)
    if not has_sym(z):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            a, b = scipy.special.lpmn(m, n, float(np.asarray(to_real(z))))
        return from_real(a), from_real(b)
    if isinstance(z, RND):
        z = z.view(RND).reshape(())[()]
    x = _domain(z)
    if x is None:
        raise Unsupported('lpmn outside [-1,1]')
    s2 = P.sub(P.const(1), P.mul(x, x))
    a, b = arr.c_zeros((abs(m) + 1, n + 1)), arr.c_zeros((abs(m) + 1, n + 1))
    pole = sym.cur().is_zero(s2)
    if pole:
        # decided: evaluate the library at the pole it is on
        v = 1.0 if bool(mkS(x) > 0) else -1.0
        return _lpmn(m, n, v)
    for i in range(abs(m) + 1):
        for l in range(i, n + 1):
            mm = i if m >= 0 else -i
            a[i, l] = mk(plm_poly(mm, l, x), None, 'f')
            num, den = dplm_dx_poly(mm, l, x)
            q = sym.s_div(mkS(num), mkS(den)) if num else 0.0
            b[i, l] = q
    return a, b


def e_factorial(n, exact=False):
    n = _int(n, 'factorial argument')
    import scipy.special
    return float(scipy.special.factorial(n)) if not exact else math.factorial(n)


def ylm(m, n, az, pl):
    """Complex spherical harmonic with Condon-Shortley phase: N_lm P_l^m(cos pl) exp(i m az)."""
    m, n = _int(m, 'order'), _int(n, 'degree')
    if abs(m) > n:
        return 0j
    am = abs(m)
    N = math.sqrt((2 * n + 1) / (4 * math.pi) * math.factorial(n - am) / math.factorial(n + am))
    c = sym.s_cos(lift(pl)) if isinstance(pl, S) else math.cos(pl)
    p = e_lpmv(am, n, c) if isinstance(c, S) else float(__import__('scipy.special').special.lpmv(am, n, c))
    e = lift(m) * lift(az) if isinstance(az, S) else m * az
    if isinstance(e, S):
        # exp(i m az), with the sign for negative orders: Y_l^-m = (-1)^m conj(Y_l^m)
        z = sym.s_exp(lift(1j * lift(e)))
    else:
        z = cmath.exp(1j * e)
    r = N * p * z if isinstance(p, S) or not isinstance(z, S) else z * (N * p)
    if m < 0:
        r = r * (-1) ** am
    return arr.cast_elem(r, 'c')


def e_lambertw(z, k=0, tol=1e-8):
    """Real branches of Lambert W on [-1/e, 0): W = -u with u exp(-u) = -z, u <= 1 (k=0) or u >= 1 (k=-1)."""
    import scipy.special
    k = _int(k, 'branch')
    if not isinstance(z, S):
        return complex(scipy.special.lambertw(z, k))
    if z.ci or k not in (0, -1):
        raise Unsupported('lambertw branch')
    nz = P.neg(z.re)
    f = lambda t: -float(np.real(scipy.special.lambertw(-min(t, math.exp(-1)), k)))
    a = sym.POOLfun('lambertu%d' % k, f, [nz], *((0.0, 1.0) if k == 0 else (1.0, P.INF)), los=(k == 0))
    return mk({((a.id, 1),): -1}, {}, 'c')


def make_special():
    import scipy.special as sp
    t = {
        'lpmv': elementwise(e_lpmv, sp.lpmv), 'factorial': elementwise(e_factorial, sp.factorial),
        'lambertw': elementwise(e_lambertw, sp.lambertw), 'lpmn': _lpmn,
    }
    if hasattr(sp, 'sph_harm'):
        t['sph_harm'] = elementwise(ylm, sp.sph_harm)
    else:
        t['sph_harm'] = elementwise(ylm, lambda m, n, az, pl: sp.sph_harm_y(n, m, pl, az))
    if hasattr(sp, 'sph_harm_y'):
        t['sph_harm_y'] = elementwise(lambda n, m, pl, az: ylm(m, n, az, pl), sp.sph_harm_y)

    def e_alp(n, m, z):
        return e_lpmv(m, n, z)
    if hasattr(sp, 'assoc_legendre_p'):
        def alp(n, m, z, *, branch_cut=2, norm=False, diff_n=0):
            if not has_sym([n, m, z]):
                return from_real(sp.assoc_legendre_p(*to_real([n, m, z]), branch_cut=branch_cut, norm=norm, diff_n=diff_n))
            if norm or diff_n:
                raise Unsupported('assoc_legendre_p options')
            return elementwise(e_alp, None)(n, m, z)
        t['assoc_legendre_p'] = alp

    t['eval_legendre'] = elementwise(lambda n, z: e_lpmv(0, n, z), sp.eval_legendre)

    def wrap(n, v):
        if callable(v) and not isinstance(v, type):
            def g(*a, **kw):
                if has_sym(list(a)) or has_sym(kw):
                    raise Unsupported('scipy.special.%s of a symbolic value' % n)
                return from_real(v(*to_real(list(a)), **to_real(kw)))
            return g
        return v
    return npx.Module(sp, t, wrap)


def generic_module(real):
    """A library only ever given concrete data."""
    t = {}
    if real.__name__ == 'scipy.integrate':
        t['trapezoid'] = npx._trapezoid

    def wrap(n, v):
        if isinstance(v, type) and v.__module__.split('.')[0] == 'scipy' and not issubclass(v, BaseException):
            class Meta(type):
                def __call__(cls, *a, **kw):
                    if has_sym(list(a)) or has_sym(kw):
                        raise Unsupported('%s.%s of a symbolic value' % (real.__name__, n))
                    return v(*to_real(list(a)), **to_real(kw))

                def __instancecheck__(cls, x):
                    return isinstance(x, v)

                def __getattr__(cls, k):
                    return getattr(v, k)
            return Meta(n, (), {})
        if isinstance(v, (type, types.ModuleType)) or not callable(v):
            return v

        def g(*a, **kw):
            if has_sym(list(a)) or has_sym(kw):
                raise Unsupported('%s.%s of a symbolic value' % (real.__name__, n))
            return from_real(v(*to_real(list(a)), **to_real(kw)))
        return g
    return npx.Module(real, t, wrap)


# ------------------------------------------------------------------------------- math / cmath / random

def _m1(name, f):
    real = getattr(math, name)

    def g(x, *a):
        if isinstance(x, SymArray) and x.size == 1:
            x = x.view(RND).reshape(-1)[0]
        if isinstance(x, (S, SBool)):
            return f(lift(x), *a)
        return real(x, *a)
    return g


def _scal(x):
    if isinstance(x, SymArray) and x.size == 1:
        return x.view(RND).reshape(-1)[0]
    return x


def make_math():
    def atan2(y, x):
        y, x = _scal(y), _scal(x)
        return sym.s_arctan2(y, x) if has_sym([y, x]) else math.atan2(y, x)

    def hypot(*xs):
        xs = [_scal(x) for x in xs]
        if not has_sym(xs):
            return math.hypot(*xs)
        t = 0
        for x in xs:
            t = t + x * x
        return sym.s_sqrt(lift(t))

    def mlog(x, *b):
        x = _scal(x)
        if isinstance(x, S):
            if not bool(x > 0):
                raise ValueError('math domain error')
            r = sym.s_log(lift(x))
            return r / math.log(b[0]) if b else r
        return math.log(x, *b)

    def msqrt(x):
        x = _scal(x)
        if isinstance(x, S):
            if sym.cur().sign(x.re) not in (1, 2) and not bool(x >= 0):
                raise ValueError('math domain error')
            return sym.s_sqrt(lift(x))
        return math.sqrt(x)

    def mpow(x, y):
        if has_sym([x, y]):
            return lift(x) ** y
        return math.pow(x, y)

    def misnan(x):
        return False if isinstance(_scal(x), S) else math.isnan(_scal(x))

    def mfsum(xs):
        xs = list(xs)
        return arr.sum_elems([_scal(x) for x in xs]) if has_sym(xs) else math.fsum(xs)

    def mfloor(x):
        x = _scal(x)
        return arr.sym_floor(x) if isinstance(x, S) else math.floor(x)

    def mceil(x):
        x = _scal(x)
        return -arr.sym_floor(-x) if isinstance(x, S) else math.ceil(x)

    def mfact(n):
        return math.factorial(_int(n, 'factorial'))

    def dist(p, q):
        p, q = [_scal(x) for x in p], [_scal(x) for x in q]
        if not has_sym(p) and not has_sym(q):
            return math.dist(p, q)
        if len(p) != len(q):
            raise ValueError('both points must have the same number of dimensions')
        return hypot(*[a - b for a, b in zip(p, q)])

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not has_sym([a, b]):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        return arr.close_elem(a, b, rel_tol, abs_tol)
    t = {
        'sqrt': msqrt, 'cos': _m1('cos', sym.s_cos), 'sin': _m1('sin', sym.s_sin), 'tan': _m1('tan', sym.s_tan),
        'exp': _m1('exp', sym.s_exp), 'log': mlog, 'acos': _m1('acos', sym.s_arccos), 'asin': _m1('asin', sym.s_arcsin),
        'atan': _m1('atan', sym.s_arctan), 'atan2': atan2, 'hypot': hypot, 'dist': dist, 'fabs': _m1('fabs', sym.s_abs),
        'radians': _m1('radians', lambda x: x * (math.pi / 180)), 'degrees': _m1('degrees', lambda x: x * (180 / math.pi)),
        'pow': mpow, 'isnan': misnan, 'isinf': misnan, 'isfinite': lambda x: True if isinstance(_scal(x), S) else math.isfinite(_scal(x)),
        'fsum': mfsum, 'floor': mfloor, 'ceil': mceil, 'factorial': mfact, 'isclose': isclose,
        'log10': lambda x: mlog(x) / math.log(10) if isinstance(_scal(x), S) else math.log10(_scal(x)),
    }
    return npx.Module(math, t, lambda n, v: v)


def make_cmath():
    def cx(z):
        z = _scal(z)
        return lift(z) if isinstance(z, S) else None

    def polar(z):
        s = cx(z)
        if s is None:
            return cmath.polar(_scal(z))
        return sym.s_abs(S(s.re, s.ci, 'c')), sym.s_arctan2(mkS(s.ci), mkS(s.re))

    def rect(r, phi):
        r, phi = _scal(r), _scal(phi)
        if not has_sym([r, phi]):
            return cmath.rect(r, phi)
        r, phi = lift(r), lift(phi)
        c, s = sym.cos_sin(phi.re)
        return mk(P.mul(r.re, c), P.mul(r.re, s), 'c')

    def phase(z):
        s = cx(z)
        return cmath.phase(_scal(z)) if s is None else sym.s_arctan2(mkS(s.ci), mkS(s.re))

    def exp(z):
        s = cx(z)
        if s is None:
            return cmath.exp(_scal(z))
        return sym.s_exp(S(s.re, s.ci, 'c'))

    def csqrt(z):
        s = cx(z)
        if s is None:
            return cmath.sqrt(_scal(z))
        return sym.s_sqrt(S(s.re, s.ci, 'c'))
    return npx.Module(cmath, {'polar': polar, 'rect': rect, 'phase': phase, 'exp': exp, 'sqrt': csqrt}, lambda n, v: v)


class RandomMod(types.ModuleType):
    def __init__(self):
        super().__init__('random')

    def random(self):
        a = sym.cur().fresh_input('random', 0.0, 1.0, his=True)
        if a is None:
            return 0.37
        return mk({((a.id, 1),): 1}, None, 'f')

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('random.' + n)


# ------------------------------------------------------------------------------- rotations

class Quat:
    """Quaternion with symbolic components."""
    __slots__ = ('w', 'x', 'y', 'z')

    def __init__(self, w, x, y, z):
        self.w, self.x, self.y, self.z = w, x, y, z

    @property
    def components(self):
        return arr.wrap_list([self.w, self.x, self.y, self.z], None)

    def __mul__(a, b):
        if not isinstance(b, Quat):
            return Quat(a.w * b, a.x * b, a.y * b, a.z * b)
        return Quat(a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z,
                    a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
                    a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x,
                    a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w)

    def conjugate(self):
        return Quat(self.w, -self.x, -self.y, -self.z)
    conj = conjugate
    inverse = conjugate

    def norm(self):
        return self.w * self.w + self.x * self.x + self.y * self.y + self.z * self.z

    def __neg__(self):
        return Quat(-self.w, -self.x, -self.y, -self.z)


def from_euler(alpha_beta_gamma, beta=None, gamma=None):
    import quaternion
    if beta is None and gamma is None:
        v = asarray(alpha_beta_gamma)
        if not has_sym(v):
            return quaternion.from_euler_angles(np.asarray(to_real(v), dtype=float))
        if v.shape[-1] != 3 or v.ndim != 1:
            raise Unsupported('array of Euler angles')
        a, b, g = v[0], v[1], v[2]
    else:
        a, b, g = _scal(alpha_beta_gamma), _scal(beta), _scal(gamma)
        if not has_sym([a, b, g]):
            return quaternion.from_euler_angles(a, b, g)
    h = lambda t: lift(t) * 0.5 if isinstance(t, S) else t * 0.5
    c = lambda t: sym.s_cos(lift(t))
    s = lambda t: sym.s_sin(lift(t))
    a, b, g = h(a), h(b), h(g)
    return Quat(c(b) * c(a + g), -s(b) * s(a - g), s(b) * c(a - g), c(b) * s(a + g))


def wigner_D_element(Ra_or_R, *a):
    """Wigner D matrix element in the convention of spherical_functions (checked against the library at start-up)."""
    import spherical_functions as sf
    if isinstance(Ra_or_R, Quat):
        q = Ra_or_R
        if len(a) == 1:
            idx = np.asarray(to_real(a[0]))
            if idx.ndim == 1:
                return wigner_D_element(q, *[int(t) for t in idx])
            o = np.empty(idx.shape[:-1], dtype=object)
            for i in np.ndindex(*o.shape):
                o[i] = wigner_D_element(q, *[int(t) for t in idx[i]])
            return arr.wrap(o, 'c')
        l, mp, m = [_int(t, 'Wigner index') if isinstance(t, (S, int, float, np.integer)) else None for t in a]
        if None in (l, mp, m):
            raise Unsupported('array of Wigner indices')
        Ra = lift(q.w) + 1j * lift(q.z)
        Rb = lift(q.y) + 1j * lift(q.x)
        key = ('wig', P.rkey(lift(Ra).re), P.rkey(lift(Ra).ci), P.rkey(lift(Rb).re), P.rkey(lift(Rb).ci))
        tab = P.POOL.index.setdefault(key, {})
        return _wigner(tab, Ra, Rb, l, mp, m)
    if isinstance(Ra_or_R, S) or has_sym(list(a)):
        raise Unsupported('Wigner arguments')
    return from_real(sf.Wigner_D_element(Ra_or_R, *[to_real(x) for x in a]))


def _cpow(tab, which, z, n):
    key = (which, n)
    v = tab.get(key)
    if v is None:
        v = 1 if n == 0 else lift(_cpow(tab, which, z, n - 1)) * z
        tab[key] = v
    return v


def _wigner(tab, Ra, Rb, l, mp, m):
    if abs(mp) > l or abs(m) > l:
        return 0j
    key = ('D', l, mp, m)
    v = tab.get(key)
    if v is not None:
        return v
    f = math.factorial
    pre = math.sqrt(f(l + m) * f(l - m) / (f(l + mp) * f(l - mp)))
    Rac, Rbc = lift(Ra).conjugate(), lift(Rb).conjugate()
    tot = 0j
    for r in range(max(0, mp - m), min(l + mp, l - m) + 1):
        k = pre * math.comb(l + mp, r) * math.comb(l - mp, l - r - m) * (-1) ** r
        t = lift(k) * _cpow(tab, 'a', Ra, l + mp - r) * _cpow(tab, 'ac', Rac, l - r - m)
        t = t * _cpow(tab, 'b', Rb, r - mp + m) * _cpow(tab, 'bc', Rbc, r)
        tot = tot + t
    tot = arr.cast_elem(tot, 'c')
    tab[key] = tot
    return tot


def make_quaternion():
    import quaternion

    class QMeta(type):
        def __call__(cls, *a):
            if has_sym(list(a)):
                a = ([0] if len(a) == 3 else []) + [_scal(x) for x in a]
                return Quat(*a)
            return quaternion.quaternion(*to_real(list(a)))

        def __instancecheck__(cls, x):
            return isinstance(x, (Quat, quaternion.quaternion))

    class quaternion_cls(metaclass=QMeta):
        pass

    def wrap(n, v):
        if callable(v) and not isinstance(v, type):
            def g(*a, **kw):
                if any(isinstance(x, Quat) for x in a) or has_sym(list(a)):
                    raise Unsupported('quaternion.' + n)
                return v(*to_real(list(a)), **to_real(kw))
            return g
        return v
    return npx.Module(quaternion, {'from_euler_angles': from_euler, 'quaternion': quaternion_cls}, wrap)


def make_spherical_functions():
    import spherical_functions

    def wrap(n, v):
        if callable(v) and not isinstance(v, type):
            def g(*a, **kw):
                if any(isinstance(x, Quat) for x in a) or has_sym(list(a)):
                    raise Unsupported('spherical_functions.' + n)
                return v(*to_real(list(a)), **to_real(kw))
            return g
        return v
    return npx.Module(spherical_functions, {'Wigner_D_element': wigner_D_element}, wrap)


# ------------------------------------------------------------------------------- contracts against the real libraries

def validate():
    """Compare every contract with the library at a grid of concrete points; returns the number of comparisons."""
    import scipy.special as sp
    n = 0
    for l in range(0, 9):
        for m in range(-l, l + 1):
            for x in (-0.9, -0.3, 0.0, 0.45, 0.8):
                want = float(sp.lpmv(m, l, x))
                s = math.sqrt(1 - x * x)
                got = 0.0
                am = abs(m)
                for k, c in legendre_coeffs(l).items():
                    if k >= am:
                        got += float(c) * math.factorial(k) / math.factorial(k - am) * x ** (k - am)
                got *= (-1) ** am * s ** am
                if m < 0:
                    got *= (-1) ** am * math.factorial(l - am) / math.factorial(l + am)
                assert abs(got - want) <= 1e-9 * max(1, abs(want)), ('lpmv', m, l, x, got, want)
                n += 1
    sh = (lambda m, l, az, pl: sp.sph_harm_y(l, m, pl, az)) if hasattr(sp, 'sph_harm_y') else sp.sph_harm
    for l in range(0, 6):
        for m in range(-l, l + 1):
            want = complex(sh(m, l, 0.7, 1.1))
            got = complex(ylm(m, l, 0.7, 1.1))
            assert abs(got - want) < 1e-10, ('sph_harm', m, l, got, want)
            n += 1
    return n


def validate_rotation():
    import quaternion
    import spherical_functions as sf
    n = 0
    for (a, b, g) in ((0.3, 1.1, -2.0), (-1.2, 2.4, 0.9), (2.9, 0.05, 0.4)):
        q = quaternion.from_euler_angles(a, b, g)
        h = lambda t: t / 2
        w = (math.cos(b / 2) * math.cos((a + g) / 2), -math.sin(b / 2) * math.sin((a - g) / 2),
             math.sin(b / 2) * math.cos((a - g) / 2), math.cos(b / 2) * math.sin((a + g) / 2))
        assert max(abs(u - v) for u, v in zip(w, (q.w, q.x, q.y, q.z))) < 1e-12, ('from_euler_angles', w, q)
        Ra, Rb = complex(q.w, q.z), complex(q.y, q.x)
        for l in range(0, 6):
            for mp in range(-l, l + 1):
                for m in range(-l, l + 1):
                    f = math.factorial
                    pre = math.sqrt(f(l + m) * f(l - m) / (f(l + mp) * f(l - mp)))
                    t = 0
                    for r in range(max(0, mp - m), min(l + mp, l - m) + 1):
                        t += pre * math.comb(l + mp, r) * math.comb(l - mp, l - r - m) * (-1) ** r * \
                            Ra ** (l + mp - r) * Ra.conjugate() ** (l - r - m) * Rb ** (r - mp + m) * Rb.conjugate() ** r
                    want = complex(sf.Wigner_D_element(q, l, mp, m))
                    assert abs(t - want) < 1e-10, ('Wigner', l, mp, m, t, want)
                    n += 1
    return n
