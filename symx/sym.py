"""Symbolic scalars (real, integer, complex) and symbolic truth values, plus the path explorer that decides them."""
import math
import cmath
import time
from fractions import Fraction
import numbers
import numpy as np
import z3

from . import poly as P
from .poly import ONE, INF


class Unsupported(BaseException):
    """The engine cannot encode something; the caller falls back to narrower bounds or reports no answer."""


class PathAbort(BaseException):
    """Internal: the current path is infeasible or cut."""


CUR = None  # current Explorer


def cur():
    if CUR is None:
        raise Unsupported('symbolic value used outside of an exploration')
    return CUR


# ------------------------------------------------------------------------------------ coefficients

def num(x):
    """Python number (int / Fraction / float) from any concrete real number."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)):
        return float(x)
    raise Unsupported('not a real number: %r' % (x,))


def isconc(x):
    return isinstance(x, (bool, int, float, complex, Fraction, np.number, np.bool_))


def _finite(x):
    if isinstance(x, (complex, np.complexfloating)):
        return cmath.isfinite(complex(x))
    if isinstance(x, Fraction):
        return True
    return math.isfinite(x)


def mk(re, im=None, kind='f'):
    """Number from polynomials; collapses to a concrete Python number when constant."""
    if im is not None and not im and kind != 'c':
        im = None
    if P.is_const(re) and (im is None or P.is_const(im)):
        r = P.const_value(re)
        if kind == 'c':
            return complex(float(r), float(P.const_value(im)) if im else 0.0)
        if kind == 'i':
            if isinstance(r, int):
                return r
            if r == int(r):
                return int(r)
        return float(r)
    return S(re, im if kind == 'c' else None, kind)


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, SBool):
        return x.as_int()
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        return S(P.const(x.real), P.const(x.imag), 'c')
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return S(P.const(num(x)), None, 'i')
    if isinstance(x, (float, np.floating, Fraction)):
        return S(P.const(num(x)), None, 'f')
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


_ORDER = {'b': 0, 'i': 1, 'f': 2, 'c': 3}


def joink(a, b):
    return a if _ORDER[a] >= _ORDER[b] else b


class S:
    """Symbolic number: re (+ i*im), both polynomials."""
    __slots__ = ('re', 'im', 'kind', 'nn')   # nn: known to be >= 0 by construction (a sum of squares)

    def __init__(self, re, im=None, kind='f'):
        self.nn = False
        self.re, self.im, self.kind = re, (im if im is not None else ({} if kind == 'c' else None)), kind

    # -- numpy hooks
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, args, kwargs)

    @property
    def ci(self):
        return self.im if self.im is not None else {}

    @property
    def real(self):
        return mk(self.re, None, 'f' if self.kind == 'c' else self.kind)

    @property
    def imag(self):
        return mk(self.ci, None, 'f') if self.kind == 'c' else (0 if self.kind == 'i' else 0.0)

    @property
    def dtype(self):
        return {'i': np.dtype(int), 'f': np.dtype(float), 'c': np.dtype(complex)}[self.kind]

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def flatten(self):
        from . import arr
        return arr.wrap_list([self])

    def __getitem__(self, k):
        from . import arr
        return arr.box0(self)[k]

    def astype(self, dt, **kw):
        from . import arr
        return arr.cast_scalar(self, arr.kind_of_dtype(dt))

    def conjugate(self):
        return mk(self.re, P.neg(self.ci), 'c') if self.kind == 'c' else self
    conj = conjugate

    def is_integer(self):
        return self.kind == 'i'

    # -- arithmetic
    def _bin(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isconc(o) and not _finite(o):
            return _nonfinite(self, o, f)
        o = lift(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def _rbin(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isconc(o) and not _finite(o):
            return _nonfinite(o, self, f)
        o = lift(o)
        if o is None:
            return NotImplemented
        return f(o, self)

    def __add__(self, o): return self._bin(o, s_add)
    def __radd__(self, o): return self._rbin(o, s_add)
    def __sub__(self, o): return self._bin(o, s_sub)
    def __rsub__(self, o): return self._rbin(o, s_sub)
    def __mul__(self, o): return self._bin(o, s_mul)
    def __rmul__(self, o): return self._rbin(o, s_mul)
    def __truediv__(self, o): return self._bin(o, s_div)
    def __rtruediv__(self, o): return self._rbin(o, s_div)
    def __pow__(self, o, mod=None): return self._bin(o, s_pow)
    def __rpow__(self, o): return self._rbin(o, s_pow)
    def __mod__(self, o): return self._bin(o, s_mod)
    def __rmod__(self, o): return self._rbin(o, s_mod)
    def __floordiv__(self, o): return self._bin(o, s_floordiv)
    def __rfloordiv__(self, o): return self._rbin(o, s_floordiv)
    def __divmod__(self, o): return self // o, self % o
    def __neg__(self): return mk(P.neg(self.re), None if self.im is None else P.neg(self.im), self.kind)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isconc(o) and not _finite(o):
            if isinstance(o, complex) or o != o:
                return op == '!='
            return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
        o2 = lift(o)
        if o2 is None:
            return NotImplemented if op not in ('==', '!=') else (op == '!=')
        if self.kind == 'c' or o2.kind == 'c':
            if op not in ('==', '!='):
                raise TypeError('complex ordering')
            a = sbool_cmp(P.sub(self.re, o2.re), '==')
            b = sbool_cmp(P.sub(self.ci, o2.ci), '==')
            r = b_and(a, b)
            return r if op == '==' else b_not(r)
        return sbool_cmp(P.sub(self.re, o2.re), op)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')

    def __bool__(self):
        return bool(self._cmp(0, '!='))

    def __hash__(self):
        if self.kind == 'i':
            return hash(concretize(self))
        return hash((P.rkey(self.re), P.rkey(self.ci)))

    def __index__(self):
        if self.kind == 'i':
            return concretize(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        if self.kind == 'i':
            return concretize(self)
        raise Unsupported('int() of a symbolic real')

    def __float__(self):
        if self.kind == 'c':
            raise TypeError("can't convert complex to float")
        raise Unsupported('float() of a symbolic value by native code')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value by native code')

    def __round__(self, n=None):
        if self.kind == 'i':
            return self
        raise Unsupported('round of symbolic real')

    def __format__(self, spec):
        from . import text
        return text.format_symbolic(self, spec)

    def __str__(self):
        from . import text
        return text.format_symbolic(self, '')

    def __repr__(self):
        return 'S(%s%s)' % (P.show(self.re), '' if self.im is None else ', i*(%s)' % P.show(self.im))

    # methods numpy looks up on object elements
    def sqrt(self): return s_sqrt(self)
    def exp(self): return s_exp(self)
    def cos(self): return s_cos(self)
    def sin(self): return s_sin(self)


numbers.Number.register(S)


def _nonfinite(a, b, f):
    """One operand is nan/inf: follow IEEE where the sign of the other operand does not matter, else give nan."""
    x, y = (a, b)
    if f is s_add or f is s_sub:
        o = y if isconc(y) else x
        if isinstance(o, complex):
            return complex('nan')
        return (-o if (isconc(y) and f is s_sub) else o)
    if f is s_div and isconc(y) and not (isinstance(y, complex)) and math.isinf(y):
        return 0.0
    if f is s_mul and not isinstance(x if isconc(x) else y, complex):
        c, s = (x, y) if isconc(x) else (y, x)
        if c == c and s.kind != 'c':
            sg = P.sign(s.re)
            if sg in (1, -1):
                return c * sg
    o = y if isconc(y) else x
    return complex('nan') if isinstance(o, complex) or (a.kind if isinstance(a, S) else b.kind) == 'c' else float('nan')


def _nn(a):
    return a.nn or (a.kind != "c" and (not a.re or P.sign(a.re) in (1, 2)))


def _mark(r):
    if isinstance(r, S) and r.kind != 'c':
        r.nn = True
    return r


def s_add(a, b):
    k = joink(a.kind, b.kind)
    r = mk(P.add(a.re, b.re), P.add(a.ci, b.ci) if k == 'c' else None, k)
    if (a.nn or b.nn) and k != 'c' and _nn(a) and _nn(b):
        _mark(r)
    return r


def s_sub(a, b):
    k = joink(a.kind, b.kind)
    return mk(P.sub(a.re, b.re), P.sub(a.ci, b.ci) if k == 'c' else None, k)


def s_mul(a, b):
    k = joink(a.kind, b.kind)
    if k != 'c':
        r = mk(P.mul(a.re, b.re), None, k)
        if a is b or a.re == b.re or ((a.nn or b.nn) and _nn(a) and _nn(b)):
            _mark(r)
        return r
    re = P.mul(a.re, b.re)
    ai, bi = a.ci, b.ci
    if ai and bi:
        re = P.sub(re, P.mul(ai, bi))
    im = {}
    if bi:
        im = P.mul(a.re, bi)
    if ai:
        im = P.add(im, P.mul(ai, b.re))
    return mk(re, im, 'c')


def s_div(a, b):
    k = joink(joink(a.kind, b.kind), 'f')
    if not b.ci:
        if P.is_const(b.re):
            c = P.const_value(b.re)
            if c == 0:
                return complex('nan') if k == 'c' else _div0(a)
            r = mk(P.scale(a.re, P._recip(c)), P.scale(a.ci, P._recip(c)) if k == 'c' else None, k)
            return _mark(r) if a.nn and c > 0 else r
        if cur().is_zero(b.re):
            return complex('nan') if k == 'c' else _div0(a)
        q = exact_div(a.re, b.re)
        if q is not None and k != 'c':
            return mk(q, None, k)
        inv = P.inverse_pow(b.re, 1)
        return mk(P.mul(a.re, inv), P.mul(a.ci, inv) if k == 'c' else None, k)
    n = P.add(P.mul(b.re, b.re), P.mul(b.im, b.im))
    if P.is_const(n):
        inv = P.const(P._recip(P.const_value(n)))
    else:
        if cur().is_zero(n):
            return complex('nan')
        inv = P.inverse_pow(n, 1)
    t = s_mul(a, S(b.re, P.neg(b.im), 'c'))
    t = lift(t)
    return mk(P.mul(t.re, inv), P.mul(t.ci, inv), 'c')


def _div0(a):
    sg = P.sign(a.re)
    if sg == 1:
        return float('inf')
    if sg == -1:
        return float('-inf')
    return float('nan')


def exact_div(p, q):
    """p / q when it is a single term (p = t*q), else None."""
    if not p:
        return {}
    if len(p) != len(q) or len(q) == 1:
        return None
    mp, mq = max(p), max(q)
    t = P.mono_mul(mp, tuple((a, -e) for a, e in mq))
    c = p[mp] * P._recip(q[mq])
    tq = {P.mono_mul(m, t): v * c for m, v in q.items()}
    if any(P._needs(m) for m in tq):
        return None
    d = P.sub(p, tq)
    if all(abs(v) <= 1e-13 * abs(p[mp]) for v in d.values()):
        return {t: c}
    return None


def s_pow(a, b):
    if b.kind == 'c' and b.ci:
        raise Unsupported('complex exponent')
    if P.is_const(b.re):
        e = P.const_value(b.re)
        if isinstance(e, float) and e == int(e):
            e2 = int(e)
        else:
            e2 = e
        if isinstance(e2, Fraction) and e2.denominator == 1:
            e2 = int(e2)
        if isinstance(e2, int):
            if e2 == 0:
                return 1 if joink(a.kind, b.kind) == 'i' else mk(P.const(1), {}, joink(a.kind, b.kind))
            if a.ci:
                base = a
                n = abs(e2)
                r = None
                while n:
                    if n & 1:
                        r = base if r is None else lift(s_mul(r, base))
                    n >>= 1
                    if n:
                        base = lift(s_mul(base, base))
                return mk(r.re, r.ci, 'c') if e2 > 0 else s_div(lift(1), r)
            k = joink(a.kind, b.kind)
            if e2 < 0:
                if a.kind == 'i' and b.kind == 'i':
                    k = 'f'
                if cur().is_zero(a.re):
                    return float('inf')
            r = mk(P.ipow(a.re, e2), {} if k == 'c' else None, k)
            return _mark(r) if e2 % 2 == 0 and k != 'c' else r
        # half-integer powers
        h = e2 * 2
        if h == int(h):
            r = lift(s_sqrt(a))
            return s_pow(r, lift(int(h)))
        if not a.ci:
            # positive base, arbitrary real exponent
            return s_exp(lift(lift(b) * s_log(a)))
        raise Unsupported('power %r' % (e2,))
    if b.kind == 'i':
        return s_pow_int(a, b)
    if not a.ci and a.kind != 'c':
        return s_exp(lift(s_mul(b, lift(s_log(a)))))
    raise Unsupported('symbolic power')


def s_pow_int(a, b):
    """a ** b for a symbolic integer exponent b (linear in integer atoms)."""
    if a.ci:
        raise Unsupported('complex base with symbolic exponent')
    base, n = a.re, b.re
    if len(base) != 1:
        c = P.content(base)
        if len(c[2]) > 1:
            d = P.den_atom(c[2])
            base = {P.mono_mul(c[1], ((d.id, 1),)): c[0]}
    (m, c), = base.items()
    k = 'f' if not (a.kind == 'i') else 'i'
    out = {ONE: 1}
    # exponent = const + sum k_i * v_i
    const = n.get(ONE, 0)
    lin = [(mm, kk) for mm, kk in n.items() if mm != ONE]
    for mm, kk in lin:
        if isinstance(kk, float) and kk == int(kk):
            kk = int(kk)
        if not isinstance(kk, int) or any(not P.POOL.atoms[x].isint for x, _ in mm):
            raise Unsupported('exponent %s' % P.show(n))
    if c != 1:
        out = P.mul(out, _pow_const(c, const, lin))
    for x, e in m:
        t = {((x, e * const),): 1} if const != 0 else {ONE: 1}
        out = P.mul(out, P.reduce_mono(t))
        for mm, kk in lin:
            at = pow_atom({((x, 1),): 1}, {mm: 1})
            out = P.mul(out, P.reduce_mono({((at.id, e * kk),): 1}))
    if k == 'i' and P.interval(n)[0] < 0:
        k = 'f'
    return mk(out, None, k)


def _pow_const(c, const, lin):
    out = P.const(float(c) ** const if isinstance(c, float) else (Fraction(c) ** const))
    v = out.get(ONE)
    if isinstance(v, Fraction) and v.denominator == 1:
        out = P.const(int(v))
    if c < 0:
        for mm, kk in lin:
            if kk % 2:
                out = P.mul(out, {((sign_atom(mm).id, 1),): 1})
        c = -c
    if c != 1:
        inv = c < 1
        b = 1.0 / c if inv else c
        for mm, kk in lin:
            at = pow_atom(P.const(b), {mm: 1})
            out = P.mul(out, {((at.id, -kk if inv else kk),): 1})
    return out


def sign_atom(mm):
    key = ('sgn', mm)
    a = P.POOL.get(key)
    if a is None:
        a = P.POOL.add(key, P.Atom('pow', 'sg%d' % len(P.POOL.atoms), -1, 1, square={ONE: 1},
                                   data=(P.const(-1), {mm: 1})))
    return a


def pow_atom(base, n):
    key = ('pow', P.rkey(base), P.rkey(n))
    a = P.POOL.get(key)
    if a is None:
        s = P.sign(base)
        bl, bh = P.interval(base)
        nl, nh = P.interval(n)
        lo, hi, los = -INF, INF, False
        if s in (1,):
            lo, los = 0.0, True
            try:
                c = [bl ** nl, bl ** nh, bh ** nl, bh ** nh]
                lo2, hi = min(c), max(c)
                if lo2 > 0:
                    lo, los = lo2, False
            except (OverflowError, ZeroDivisionError):
                hi = INF
        elif s == 2:
            lo = 0.0
        a = P.POOL.add(key, P.Atom('pow', 'pw%d' % len(P.POOL.atoms), lo, hi, los=los, data=(base, n)))
    return a


def s_mod(a, b):
    if a.kind == 'i' and b.kind == 'i':
        x, y = concretize(S(a.re, None, 'i')) if not P.is_const(a.re) else P.const_value(a.re), \
            concretize(S(b.re, None, 'i')) if not P.is_const(b.re) else P.const_value(b.re)
        return x % y
    if P.is_const(b.re):
        c = float(P.const_value(b.re))
        lo, hi = P.interval(a.re)
        if math.isfinite(lo) and math.isfinite(hi) and c > 0:
            k0, k1 = math.floor(lo / c), math.floor(hi / c)
            if k1 - k0 <= 8:
                for k in range(k0, k1 + 1):
                    if k == k1 or bool(mk(P.sub(a.re, P.const(c * (k + 1))), None, 'f') < 0):
                        return mk(P.sub(a.re, P.const(c * k)), None, 'f')
    raise Unsupported('symbolic mod')


def s_floordiv(a, b):
    if a.kind == 'i' and b.kind == 'i':
        x = concretize(a) if not P.is_const(a.re) else P.const_value(a.re)
        y = concretize(b) if not P.is_const(b.re) else P.const_value(b.re)
        return x // y
    m = s_mod(a, b)
    return (mk(a.re, None, 'f') - m) / mk(b.re, None, 'f')


def s_abs(a):
    if a.kind == 'c':
        if not a.ci:
            return s_abs(mkS(a.re))
        return s_sqrt(_mark(mkS(P.add(P.mul(a.re, a.re), P.mul(a.im, a.im)))))
    s = cur().sign(a.re)
    if s in (1, 2):
        return a
    if s in (-1, -2):
        return -a
    if s is None:
        return 0.0
    t = pos_part(a.re)
    return mk(P.sub(P.scale(t, 2), a.re), None, a.kind)


def mkS(p, kind='f'):
    return S(p, {} if kind == 'c' else None, kind)


def pos_part(p):
    """max(p, 0) as a polynomial with a 'pos' atom, canonical in p up to sign and positive factors."""
    s = cur().sign(p)
    if s is None or s in (-1, -2):
        return {}
    if s in (1, 2):
        return p
    c, cm, q = P.content(p)
    factor = P.const(abs(c))
    sgn = 1 if c > 0 else -1
    ms = P.mono_sign(cm)
    if ms in (1, -1):
        factor = {cm: abs(c)}
        sgn *= ms
    else:
        q = P.mul({cm: 1}, q)
    # max(sgn*q,0): with sgn=-1: max(-q,0) = max(q,0)-q
    key = ('pos', P.rkey(q))
    a = P.POOL.get(key)
    if a is None:
        lo, hi = P.interval(q)
        a = P.POOL.add(key, P.Atom('pos', 'pos%d' % len(P.POOL.atoms), 0.0, max(hi, 0.0), data=q))
        if len(q) <= 6:
            a.square = P.mul(q, {((a.id, 1),): 1})
    v = {((a.id, 1),): 1}
    if sgn < 0:
        v = P.sub(v, q)
    return P.mul(factor, v)


# ------------------------------------------------------------------------------------ roots, exp, trig

def s_sqrt(a):
    if a.kind == 'c' and a.ci:
        raise Unsupported('complex square root')
    p = a.re
    if P.is_const(p):
        c = P.const_value(p)
        return math.sqrt(c) if c >= 0 else float('nan')
    if a.kind == 'c':
        # principal root of a complex number with zero imaginary part
        if cur().sign(p) not in (1, 2):
            if bool(mkS(p) < 0):
                return mk({}, lift(s_sqrt(mkS(P.neg(p)))).re, 'c')
        return mk(sqrt_poly(p), {}, 'c')
    s = 2 if a.nn else cur().sign(p)
    if s in (-1,):
        return float('nan')
    if s not in (1, 2):
        if not bool(mkS(p) >= 0):
            return float('nan')
    return mk(sqrt_poly(p), None, 'f')


def sqrt_poly(p):
    if P.is_const(p):
        return P.const(math.sqrt(P.const_value(p)))
    c, cm, q = P.content(p)
    q2 = P.reduce_mono(q)
    if q2 is not q and q2 != q and len(q2) < 60:
        # dividing by the common monomial exposed squares that reduce
        if not q2:
            return {}
        if not cm:
            return P.scale(sqrt_poly(q2), _sqrtc(c)) if c > 0 else sqrt_poly(P.scale(q2, c))
        if all(e % 2 == 0 for _, e in cm) and c > 0:
            return P.scale(P.mul(sqrt_poly({cm: 1}), sqrt_poly(q2)), _sqrtc(c))
    if len(q) > 1:
        sq = perfect_square(q)
        if sq is not None:
            r = lift(s_abs(mkS(sq))).re
            if not cm:
                return P.scale(r, _sqrtc(c))
            return P.mul(sqrt_poly({cm: c}), r)
    # monomial part
    inside = {}
    out = {ONE: 1}
    rest = []
    for a, e in cm:
        at = P.POOL.atoms[a]
        h = e / 2 if not isinstance(e, int) else (e // 2 if e % 2 == 0 else Fraction(e, 2))
        nonneg = at.lo >= 0
        if nonneg:
            if isinstance(h, int) or (isinstance(h, Fraction) and h.denominator == 1):
                out = P.mul(out, {((a, int(h)),): 1})
            else:
                n = math.floor(h)
                if n:
                    out = P.mul(out, {((a, n),): 1})
                rest.append((a, 1))
        elif e % 2 == 0:
            h = int(e // 2)
            if h % 2 == 0:
                out = P.mul(out, {((a, h),): 1})
            else:
                ab = lift(s_abs(mkS({((a, 1),): 1}))).re
                out = P.mul(out, P.ipow(ab, h))
        else:
            n = math.floor(Fraction(e, 2))
            # a^e = a^(2n) * a ; |a|^n
            if n:
                ab = lift(s_abs(mkS({((a, 1),): 1}))).re
                out = P.mul(out, P.ipow(ab, n) if n % 2 else {((a, n),): 1})
            rest.append((a, 1))
    if len(q) == 1 and not rest:
        if c < 0:
            return P.mul(out, sqrt_atom(P.const(c)))
        return P.scale(out, _sqrtc(c))
    inner = P.mul({tuple(rest): 1}, q) if rest else q
    if c < 0:
        inner = P.neg(inner)
        c = -c
    return P.scale(P.mul(out, {((sqrt_atom(inner).id, 1),): 1}), _sqrtc(c))


def _sqrtc(c):
    if isinstance(c, (int, Fraction)):
        f = Fraction(c)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            r = Fraction(a, b)
            return int(r) if r.denominator == 1 else r
    return math.sqrt(c)


def perfect_square(q):
    """s with s*s == q, for short q, else None (tries to read s off the leading terms)."""
    if len(q) > 12:
        return None
    sqs = [(m, c) for m, c in q.items() if c > 0 and all(isinstance(e, int) and e % 2 == 0 for _, e in m)]
    if len(sqs) < 1 or len(sqs) > 4:
        return None
    from itertools import product
    roots = [(tuple((a, e // 2) for a, e in m), math.sqrt(c) if not _is_sq(c) else _sqrtc(c)) for m, c in sqs]
    for signs in product((1, -1), repeat=len(roots) - 1):
        s = {}
        for (m, c), g in zip(roots, (1,) + signs):
            s = P.add(s, {m: c * g})
        # compare without square reductions interfering: compute reduced square and reduced q
        d = P.sub(P.mul(s, s), P.reduce_mono(q))
        if all(abs(v) <= 1e-13 for v in d.values()):
            return s
    # forms like 1 - 2sc reduced by c^2+s^2=1 are left as atoms
    return None


def _is_sq(c):
    return isinstance(c, (int, Fraction))


def sqrt_atom(p):
    key = ('sqrt', P.rkey(p))
    a = P.POOL.get(key)
    if a is None:
        lo, hi = P.interval(p)
        a = P.POOL.add(key, P.Atom('sqrt', 'rt%d' % len(P.POOL.atoms), math.sqrt(max(lo, 0)),
                                   math.sqrt(hi) if hi != INF and hi > 0 else (INF if hi == INF else 0.0),
                                   square=p, data=p))
        if a.lo == 0 and cur().sign(p) == 1:
            a.los = True
    return a


def angle_base(m):
    """Registered unit of an angle-valued monomial."""
    return P.POOL.index.setdefault(('unit', m), 1.0)


def declare_unit(m, unit):
    P.POOL.index[('unit', m)] = unit


def cs_of_mono(m, unit):
    """(cos, sin) polynomials of unit*m."""
    if len(m) == 1 and m[0][1] == 1:
        at = P.POOL.atoms[m[0][0]]
        if at.kind == 'ang' and unit == 1.0:
            return at.data[2], at.data[3]
    key = ('cos', m, unit)
    c = P.POOL.get(key)
    if c is None:
        l, h = P._imul(P.mono_interval(m), (unit, unit))
        (cl, ch), (sl, sh, slos) = _cos_range(l, h), _sin_range(l, h, m)
        s = P.POOL.add(('sin', m, unit), P.Atom('sin', 's(%s)' % P.show({m: unit}), sl, sh, los=slos, data=(m, unit)))
        c = P.POOL.add(key, P.Atom('cos', 'c(%s)' % P.show({m: unit}), cl, ch, data=(m, unit),
                                   square={ONE: 1, ((s.id, 2),): -1}))
    s = P.POOL.get(('sin', m, unit))
    return {((c.id, 1),): 1}, {((s.id, 1),): 1}


def _cos_range(l, h):
    if not (math.isfinite(l) and math.isfinite(h)) or h - l >= 2 * math.pi:
        return -1.0, 1.0
    lo, hi = min(math.cos(l), math.cos(h)), max(math.cos(l), math.cos(h))
    k = math.ceil(l / math.pi - 1e-15)
    while k * math.pi <= h:
        v = 1.0 if k % 2 == 0 else -1.0
        lo, hi = min(lo, v), max(hi, v)
        k += 1
    return lo, hi


def _sin_range(l, h, m):
    lo, hi = _cos_range(l - math.pi / 2, h - math.pi / 2) if math.isfinite(l) and math.isfinite(h) else (-1.0, 1.0)
    strict = False
    if abs(l) < 1e-12 and abs(h - math.pi) < 1e-9:
        lo, hi = 0.0, 1.0
        at = P.POOL.atoms[m[0][0]] if len(m) == 1 else None
        strict = at is not None and at.los and at.his
    if abs(lo) < 1e-15:
        lo = 0.0
    return lo, hi, strict


def cos_sin(p):
    """(cos p, sin p) as polynomials for an angle polynomial p."""
    c, s = {ONE: 1}, {}
    off = 0.0
    for m, k in sorted(p.items()):
        if m == ONE:
            off = float(k)
            continue
        unit = angle_base(m)
        r = float(k) / unit
        n = round(r)
        if abs(r - n) > 1e-11 * max(1, abs(r)) or n == 0:
            b = ('c', m, float('%.11e' % abs(k)))
            unit = abs(float(k))
            n = 1 if k > 0 else -1
        cc, ss = cs_of_mono(m, unit)
        cn, sn = _multi(m, unit, abs(n), cc, ss)
        if n < 0:
            sn = P.neg(sn)
        c, s = P.sub(P.mul(c, cn), P.mul(s, sn)), P.add(P.mul(s, cn), P.mul(c, sn))
    if off:
        co, so = math.cos(off), math.sin(off)
        if abs(co) < 2e-16 * max(1, abs(off)):
            co = 0
        if abs(so) < 2e-16 * max(1, abs(off)):
            so = 0
        c, s = P.sub(P.scale(c, co), P.scale(s, so)), P.add(P.scale(s, co), P.scale(c, so))
    return c, s


def _multi(m, unit, n, cc, ss):
    key = ('multi', m, unit, n)
    v = P.POOL.index.get(key)
    if v is None:
        if n == 0:
            v = ({ONE: 1}, {})
        elif n == 1:
            v = (cc, ss)
        else:
            h = n // 2
            c1, s1 = _multi(m, unit, h, cc, ss)
            c2, s2 = _multi(m, unit, n - h, cc, ss)
            v = (P.sub(P.mul(c1, c2), P.mul(s1, s2)), P.add(P.mul(s1, c2), P.mul(c1, s2)))
        P.POOL.index[key] = v
    return v


def s_cos(a):
    if a.ci:
        raise Unsupported('cos of complex')
    return mk(cos_sin(a.re)[0], {} if a.kind == 'c' else None, 'c' if a.kind == 'c' else 'f')


def s_sin(a):
    if a.ci:
        raise Unsupported('sin of complex')
    return mk(cos_sin(a.re)[1], {} if a.kind == 'c' else None, 'c' if a.kind == 'c' else 'f')


def s_tan(a):
    return s_sin(a) / s_cos(a)


def s_exp(a):
    mag = exp_poly(a.re)
    if a.kind != 'c':
        return mk(mag, None, 'f')
    c, s = cos_sin(a.ci)
    return mk(P.mul(mag, c), P.mul(mag, s), 'c')


def exp_poly(p):
    out = {ONE: 1}
    for m, k in p.items():
        if m == ONE:
            out = P.scale(out, math.exp(k))
            continue
        # exp(k*log(x)) = x^k
        if len(m) == 1 and m[0][1] == 1:
            at = P.POOL.atoms[m[0][0]]
            if at.kind == 'fun' and at.data[2] == 'log':
                kk = int(round(k)) if abs(k - round(k)) < 1e-12 else Fraction(k).limit_denominator(1000)
                if abs(float(kk) - float(k)) < 1e-12:
                    x = at.data[1][0]
                    if isinstance(kk, int):
                        out = P.mul(out, P.ipow(x, kk))
                        continue
                    if kk.denominator == 2:
                        out = P.mul(out, P.ipow(sqrt_poly(x), kk.numerator))
                        continue
        e = POOLfun('exp', _exp, [{m: 1}], 0.0, INF, los=True)
        kk = int(round(k)) if abs(k - round(k)) < 1e-12 else k
        if isinstance(kk, int):
            out = P.mul(out, {((e.id, kk),): 1})
        else:
            e = POOLfun('exp', _exp, [{m: float('%.14g' % k)}], 0.0, INF, los=True)
            out = P.mul(out, {((e.id, 1),): 1})
    return out


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def POOLfun(name, f, args, lo=-INF, hi=INF, los=False, axioms=None, isint=False):
    key = ('fun', name) + tuple(P.rkey(q) for q in args)
    a = P.POOL.get(key)
    if a is None:
        a = P.POOL.add(key, P.Atom('fun', '%s#%d' % (name, len(P.POOL.atoms)), lo, hi, los=los, isint=isint,
                                   data=(f, [dict(q) for q in args], name, axioms)))
    return a


def s_log(a):
    if a.kind == 'c' and a.ci:
        raise Unsupported('complex log')
    p = a.re
    if P.is_const(p):
        c = float(P.const_value(p))
        return math.log(c) if c > 0 else (float('-inf') if c == 0 else float('nan'))
    if cur().sign(p) != 1:
        if cur().is_zero(p):
            return float('-inf')
        if not bool(mkS(p) > 0):
            return float('nan')
    out = {}
    c, cm, q = P.content(p)
    parts = []
    if len(q) == 1 and all(P.POOL.atoms[x].lo >= 0 for x, _ in cm) and c > 0:
        out = P.const(math.log(c)) if c != 1 else {}
        for x, e in cm:
            at = P.POOL.atoms[x]
            if at.kind == 'fun' and at.data[2] == 'exp':
                out = P.add(out, P.scale(at.data[1][0], e))
            elif at.kind == 'sqrt':
                out = P.add(out, P.scale(lift(s_log(mkS(at.data))).re, Fraction(e, 2)))
            elif at.kind == 'fun' and at.data[2].startswith('lambertu'):
                # u exp(-u) = z  =>  ln u = ln z + u
                out = P.add(out, P.scale(P.add(lift(s_log(mkS(at.data[1][0]))).re, {((x, 1),): 1}), e))
            else:
                parts.append(({((x, 1),): 1}, e))
    else:
        if c > 0 and P.sign(q) == 1 and not cm:
            out = P.const(math.log(c)) if c != 1 else {}
            parts.append((q, 1))
        else:
            parts.append((p, 1))
    for x, e in parts:
        l, h = P.interval(x)
        at = POOLfun('log', math.log, [x], math.log(l) if l > 0 else -INF, math.log(h) if 0 < h < INF else INF, axioms=log_axioms)
        out = P.add(out, {((at.id, 1),): e})
    return mk(out, None, 'f')


def log_axioms(at):
    """x > 0, y = 1/x:  ln x <= x - 1  and  2 (1 + y) (ln x + y - 1) >= (y - 1)^2."""
    x = at.data[1][0]
    if len(x) != 1:
        return []
    y = P.inverse_pow(x, 1)
    l = {((at.id, 1),): 1}
    f = P.sub(P.add(l, y), P.const(1))
    y1 = P.sub(y, P.const(1))
    return [sbool_cmp(P.add(P.sub(l, x), P.const(1)), '<='), sbool_cmp(P.neg(f), '<='),
            sbool_cmp(P.sub(P.mul(y1, y1), P.scale(P.mul(P.add(y, P.const(1)), f), 2)), '<=')]


def new_angle(name, f, args, cosp, sinp, lo, hi):
    key = ('ang', name) + tuple(P.rkey(q) for q in args)
    a = P.POOL.get(key)
    if a is None:
        a = P.POOL.add(key, P.Atom('ang', '%s#%d' % (name, len(P.POOL.atoms)), lo, hi, data=(f, args, cosp, sinp)))
    return a


def _single_angle(cosp, sinp):
    """If (cosp, sinp) are exactly (cos v, sin v) of one declared angle, return that angle's polynomial."""
    if len(cosp) == 1 and len(sinp) == 1:
        (mc, kc), = cosp.items()
        (ms, ks), = sinp.items()
        if len(mc) == 1 and len(ms) == 1 and mc[0][1] == 1 == ms[0][1] and abs(kc - 1) < 1e-14 and abs(ks - 1) < 1e-14:
            c, s = P.POOL.atoms[mc[0][0]], P.POOL.atoms[ms[0][0]]
            if c.kind == 'cos' and s.kind == 'sin' and c.data == s.data:
                return {c.data[0]: c.data[1]}
    return None


def s_arctan2(y, x):
    y, x = lift(y), lift(x)
    if P.is_const(y.re) and P.is_const(x.re):
        return math.atan2(float(P.const_value(y.re)), float(P.const_value(x.re)))
    h2 = P.add(P.mul(x.re, x.re), P.mul(y.re, y.re))
    if cur().is_zero(h2):
        return 0.0
    if not y.re:
        return 0.0 if bool(x >= 0) else math.pi
    if not x.re:
        return math.pi / 2 if bool(y >= 0) else -math.pi / 2
    h = sqrt_poly(h2)
    inv = P.ipow(h, -1)
    c, s = P.mul(x.re, inv), P.mul(y.re, inv)
    v = _single_angle(c, s)
    if v is not None:
        lo, hi = P.interval(v)
        if -math.pi <= lo and hi <= math.pi:
            return mk(v, None, 'f')
    a = new_angle('atan2', math.atan2, [y.re, x.re], c, s, -math.pi, math.pi)
    return mk({((a.id, 1),): 1}, None, 'f')


def s_arccos(x):
    if P.is_const(x.re):
        c = float(P.const_value(x.re))
        return math.acos(c) if -1 <= c <= 1 else float('nan')
    s = sqrt_poly(P.sub(P.const(1), P.mul(x.re, x.re)))
    v = _single_angle(x.re, s)
    if v is not None:
        lo, hi = P.interval(v)
        if 0 <= lo and hi <= math.pi:
            return mk(v, None, 'f')
    f = lambda t: math.acos(max(-1.0, min(1.0, t)))
    a = new_angle('acos', f, [x.re], x.re, s, 0.0, math.pi)
    return mk({((a.id, 1),): 1}, None, 'f')


def s_arcsin(x):
    if P.is_const(x.re):
        c = float(P.const_value(x.re))
        return math.asin(c) if -1 <= c <= 1 else float('nan')
    c = sqrt_poly(P.sub(P.const(1), P.mul(x.re, x.re)))
    f = lambda t: math.asin(max(-1.0, min(1.0, t)))
    a = new_angle('asin', f, [x.re], c, x.re, -math.pi / 2, math.pi / 2)
    return mk({((a.id, 1),): 1}, None, 'f')


def s_arctan(x):
    return s_arctan2(x, 1)


def ite(cond, a, b):
    """if-then-else on numbers."""
    if isinstance(cond, (bool, np.bool_)):
        return a if cond else b
    d = cur().forced(cond)
    if d is not None:
        return a if d else b
    if isconc(a) and not _finite(a) or isconc(b) and not _finite(b):
        return a if bool(cond) else b
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return a if bool(cond) else b
    k = joink(la.kind, lb.kind)
    re = _ite_poly(cond, la.re, lb.re)
    if k != 'c':
        return mk(re, None, k)
    return mk(re, _ite_poly(cond, la.ci, lb.ci), 'c')


def _ite_poly(cond, p, q):
    d = P.sub(p, q)
    if not d:
        return p
    if cond.op == 'cmp':
        cp, rel = cond.args
        if rel in ('==', '!='):
            x, y = (p, q) if rel == '!=' else (q, p)  # x when nonzero, y when zero
            if divides(cp, P.sub(x, y)):
                return x
        elif rel in ('<', '<='):
            # cond: cp <(=) 0 -> p else q ;  d = p-q when cp<=0;  if d = t*cp with t constant: q + t*min(cp,0)
            t = term_ratio(d, cp)
            if t is not None and P.mono_sign(max(t) if t else ONE) in (1, -1):
                # min(cp,0) = cp - max(cp,0)
                return P.add(q, P.mul(t, P.sub(cp, pos_part(cp))))
    key = ('ite', cond.key(), P.rkey(p), P.rkey(q))
    a = P.POOL.get(key)
    if a is None:
        l1, h1 = P.interval(p)
        l2, h2 = P.interval(q)
        a = P.POOL.add(key, P.Atom('ite', 'ite%d' % len(P.POOL.atoms), min(l1, l2), max(h1, h2), data=(cond, p, q)))
    return {((a.id, 1),): 1}


def term_ratio(d, p):
    """t with d = t*p, t a single term, else None."""
    if not d or not p or len(d) != len(p):
        return None
    md, mp = max(d), max(p)
    t = P.mono_mul(md, tuple((a, -e) for a, e in mp))
    c = d[md] * P._recip(p[mp])
    tq = {P.mono_mul(m, t): v * c for m, v in p.items()}
    e = P.sub(d, tq)
    if all(abs(v) <= 1e-13 * abs(d[md]) for v in e.values()):
        return {t: c}
    return None


def divides(p, d):
    """True when d = t*p for a polynomial t that is visible term by term (p a single monomial or same length)."""
    if not d:
        return True
    if len(p) == 1:
        (m, c), = p.items()
        for mm in d:
            dd = dict(mm)
            if not all((e > 0 and dd.get(a, 0) >= e) or e <= 0 or P.POOL.atoms[a].lo > 0
                       or (P.POOL.atoms[a].lo == 0 and P.POOL.atoms[a].los) for a, e in m):
                return False
        return True
    if term_ratio(d, p) is not None:
        return True
    # trial division by the (primitive part of) p in one main atom
    return _poly_divides(p, d)


def _poly_divides(p, d):
    c, cm, q = P.content(p)
    for a, e in cm:
        if e > 0 and not (P.POOL.atoms[a].lo > 0 or (P.POOL.atoms[a].lo == 0 and P.POOL.atoms[a].los)):
            return False
    if len(q) == 1:
        return True
    _, dm, d = P.content(d)
    lead = max(q)
    for _ in range(400):
        if not d:
            return True
        hit = None
        for m in sorted(d, reverse=True):
            t = P.mono_mul(m, tuple((a, -e) for a, e in lead))
            if all(e > 0 for _, e in t):
                hit = (m, t)
                break
        if hit is None:
            return False
        m, t = hit
        k = d[m] * P._recip(q[lead])
        s = {P.mono_mul(mm, t): -v * k for mm, v in q.items()}
        if any(P._needs(mm) for mm in s):
            return False
        mag = max(abs(v) for v in d.values())
        d = P.add(d, s)
        d.pop(m, None)
        d = {mm: v for mm, v in d.items() if abs(v) > 1e-13 * mag}
    return False


# ------------------------------------------------------------------------------------ truth values

class SBool:
    __slots__ = ('op', 'args', '_key')

    def __init__(self, op, *args):
        self.op, self.args, self._key = op, args, None

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, args, kwargs)

    dtype = np.dtype(bool)
    shape = ()
    ndim = 0

    def key(self):
        if self._key is None:
            if self.op == 'cmp':
                p, rel = self.args
                if p:
                    s = max(abs(float(c)) for c in p.values())
                    lead = p[max(p)]
                    if rel in ('==', '!='):
                        s = math.copysign(s, lead)
                    p = P.scale(p, 1.0 / s)
                self._key = ('cmp', P.rkey(p), rel)
            else:
                self._key = (self.op,) + tuple(a.key() if isinstance(a, SBool) else a for a in self.args)
        return self._key

    def __bool__(self):
        return cur().decide(self)

    def __and__(self, o): return b_and(self, o) if isinstance(o, (SBool, bool, np.bool_, int)) else NotImplemented
    __rand__ = __and__
    def __or__(self, o): return b_or(self, o) if isinstance(o, (SBool, bool, np.bool_, int)) else NotImplemented
    __ror__ = __or__
    def __xor__(self, o): return b_xor(self, o)
    __rxor__ = __xor__
    def __invert__(self): return b_not(self)

    def as_int(self):
        r = ite(self, S(P.const(1), None, 'i'), S({}, None, 'i'))
        return lift(r)

    def __add__(self, o): return self.as_int() + o
    __radd__ = __add__
    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return ite(self, o, 0 * o) if isconc(o) else self.as_int() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self.as_int() - o
    def __rsub__(self, o): return o - self.as_int()
    def __neg__(self): return -self.as_int()
    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            return b_not(b_xor(self, o))
        return self.as_int() == o
    def __ne__(self, o): return b_not(self == o)
    def __hash__(self): return hash(self.key())
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __index__(self): return int(bool(self))
    def item(self): return self
    def all(self): return self
    def any(self): return self
    def __repr__(self): return 'SBool%s' % (self.key(),)

    def polys(self):
        if self.op == 'cmp':
            return [self.args[0]]
        r = []
        for a in self.args:
            if isinstance(a, SBool):
                r += a.polys()
        return r

    def evaluate(self, env):
        o = self.op
        if o == 'cmp':
            v = P.evaluate(self.args[0], env)
            return {'<': v < 0, '<=': v <= 0, '==': abs(v) <= 1e-12, '!=': abs(v) > 1e-12}[self.args[1]]
        if o == 'not':
            return not self.args[0].evaluate(env)
        if o == 'and':
            return all(a.evaluate(env) for a in self.args)
        if o == 'or':
            return any(a.evaluate(env) for a in self.args)
        if o == 'var':
            return bool(env[self.args[0]])
        raise Unsupported(o)


def sbool_cmp(p, op):
    if op == '>':
        p, op = P.neg(p), '<'
    elif op == '>=':
        p, op = P.neg(p), '<='
    if P.is_const(p):
        v = P.const_value(p)
        return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[op]
    s = P.sign(p)
    if op == '<':
        if s == -1:
            return True
        if s in (1, 2):
            return False
    elif op == '<=':
        if s in (-1, -2):
            return True
        if s == 1:
            return False
    elif s in (1, -1):
        return op == '!='
    return SBool('cmp', p, op)


def b_not(a):
    if isinstance(a, (bool, np.bool_, int)):
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == 'cmp':
        p, rel = a.args
        if rel == '==':
            return SBool('cmp', p, '!=')
        if rel == '!=':
            return SBool('cmp', p, '==')
        return SBool('cmp', P.neg(p), '<=' if rel == '<' else '<')
    return SBool('not', a)


def b_and(*xs):
    out = []
    for a in xs:
        if isinstance(a, (bool, np.bool_, int)):
            if not a:
                return False
        else:
            out.append(a)
    if not out:
        return True
    return out[0] if len(out) == 1 else SBool('and', *out)


def b_or(*xs):
    out = []
    for a in xs:
        if isinstance(a, (bool, np.bool_, int)):
            if a:
                return True
        else:
            out.append(a)
    if not out:
        return False
    return out[0] if len(out) == 1 else SBool('or', *out)


def b_xor(a, b):
    return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))


def concretize(s):
    """Pick a value for a symbolic integer, forking over every feasible one."""
    c = cur()
    p = s.re
    lo, hi = P.interval(p)
    if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo > 4096:
        raise Unsupported('unbounded integer concretised')
    v = c.concrete_int(p, int(math.ceil(lo - 1e-9)), int(math.floor(hi + 1e-9)))
    return v
