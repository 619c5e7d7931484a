"""numpy arrays of symbolic scalars: an object-dtype ndarray subclass that keeps numpy's indexing, views, broadcasting
and dtype bookkeeping and routes ufuncs and functions to symbolic implementations."""
import math
import operator
import numpy as np

from . import poly as P
from . import sym
from .sym import (S, SBool, Unsupported, lift, isconc, mk, mkS, ite, b_and, b_or, b_not, cur)

RND = np.ndarray
_DT = {'b': np.dtype(bool), 'i': np.dtype(int), 'f': np.dtype(float), 'c': np.dtype(complex), 'o': np.dtype(object)}
_RANK = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'o': 4}


def joink(a, b):
    return a if _RANK[a] >= _RANK[b] else b


def kind_of_dtype(dt):
    if dt is None:
        return None
    if isinstance(dt, str) and dt in ('b', 'i', 'f', 'c', 'o'):
        return dt
    n = getattr(dt, '_np_kind', None)
    if n:
        return n
    k = np.dtype(dt).kind
    return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c'}.get(k, 'o')


def kind_elem(x):
    if isinstance(x, S):
        return x.kind
    if isinstance(x, (SBool, bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating)):
        return 'f'
    if isinstance(x, (complex, np.complexfloating)):
        return 'c'
    if isinstance(x, RND) and x.ndim == 0:
        return kind_of(x)
    try:
        from fractions import Fraction
        if isinstance(x, Fraction):
            return 'f'
    except Exception:
        pass
    return 'o'


def kind_of(x):
    if isinstance(x, SymArray):
        return x._k
    if isinstance(x, RND):
        return kind_of_dtype(x.dtype) if x.dtype != object else scan_kind(x.ravel())
    if isinstance(x, (list, tuple)):
        k = 'b'
        if not x:
            return 'f'
        for y in x:
            k = joink(k, kind_of(y))
        return k
    return kind_elem(x)


def scan_kind(flat):
    k = None
    for x in flat:
        e = kind_elem(x)
        k = e if k is None else joink(k, e)
        if k == 'o':
            break
    return k


def cast_elem(x, k, strict=False):
    """Element x as it would be stored in an array of kind k."""
    if k == 'o':
        return x
    if isinstance(x, RND):
        x = x.item() if not isinstance(x, SymArray) else x.view(RND)[()]
    if isinstance(x, S):
        if k == x.kind:
            return x
        if k == 'c':
            return mk(x.re, {}, 'c')
        if k == 'f':
            if x.kind == 'c':
                if strict:
                    raise TypeError("float() argument must be a string or a real number, not 'complex'")
                return mk(x.re, None, 'f')
            return mk(x.re, None, 'f')
        if k == 'i':
            if x.kind == 'i':
                return x
            if x.kind == 'c' and strict:
                raise TypeError("int() argument must not be 'complex'")
            return sym_trunc(mkS(x.re))
        if k == 'b':
            return x != 0
    if isinstance(x, SBool):
        if k == 'b':
            return x
        return cast_elem(mk(x.as_int().re, None, 'i'), k)
    if k == 'b':
        return bool(x)
    if isinstance(x, str):
        return {'i': int, 'f': float, 'c': complex}[k](x)
    if k == 'i':
        if isinstance(x, (complex, np.complexfloating)):
            if strict:
                raise TypeError("int() argument must not be 'complex'")
            x = x.real
        return int(x)
    if k == 'f':
        if isinstance(x, (complex, np.complexfloating)):
            if strict:
                raise TypeError("float() argument must not be 'complex'")
            x = x.real
        return float(x)
    return complex(x)


def cast_scalar(x, k):
    return unbox(cast_elem(x, k), k)


def sym_trunc(x):
    f = sym_floor(x)
    return f


def sym_floor(x):
    x = lift(x)
    if x.kind == 'i':
        return mk(x.re, None, 'i')
    lo, hi = P.interval(x.re)
    if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo > 64:
        raise Unsupported('floor of an unbounded symbolic value')
    for k in range(math.floor(lo), math.floor(hi) + 1):
        if k == math.floor(hi) or bool(mkS(x.re) < k + 1):
            return k
    raise Unsupported('floor')


def unbox(x, k):
    if isinstance(x, (S, SBool)):
        return x
    if k == 'f':
        return np.float64(x)
    if k == 'i':
        return np.int64(x)
    if k == 'c':
        return np.complex128(x)
    if k == 'b':
        return np.bool_(x)
    return x


def is_sym(x):
    return isinstance(x, (S, SBool))


def has_sym(a):
    if isinstance(a, SymArray) or (isinstance(a, RND) and a.dtype == object):
        for x in a.view(RND).flat:
            if isinstance(x, (S, SBool)):
                return True
        return False
    if isinstance(a, RND):
        return False
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    if isinstance(a, dict):
        return any(has_sym(x) for x in a.values())
    return isinstance(a, (S, SBool))


def to_real(a):
    """Concrete SymArray -> ordinary array."""
    if isinstance(a, SymArray):
        return np.array(a.view(RND), dtype=_DT[a._k]) if a._k != 'o' else np.array(a.view(RND))
    if isinstance(a, (list, tuple)):
        return type(a)(to_real(x) for x in a) if not hasattr(a, '_fields') else a
    if isinstance(a, dict):
        return {k: to_real(v) for k, v in a.items()}
    return a


def to_obj(a):
    """SymArray -> plain object ndarray sharing memory."""
    if isinstance(a, SymArray):
        return a.view(RND)
    if isinstance(a, (list, tuple)) and not hasattr(a, '_fields'):
        return type(a)(to_obj(x) for x in a)
    if isinstance(a, dict):
        return {k: to_obj(v) for k, v in a.items()}
    return a


def from_real(a):
    """Ordinary array (or scalar / sequence result) -> SymArray."""
    if isinstance(a, SymArray):
        return a
    if isinstance(a, RND):
        if a.dtype == object:
            return wrap(a)
        if a.dtype.kind in 'biufc':
            return wrap(a.astype(object), kind_of_dtype(a.dtype))
        return a
    if type(a) in (list, tuple):
        return type(a)(from_real(x) for x in a)
    return a


def wrap(a, k=None):
    """object ndarray -> SymArray of kind k (cast) or of the scanned kind."""
    if not isinstance(a, RND):
        return a
    if k is None:
        k = scan_kind(a.flat) or 'f'
        if k != 'o' and a.size:
            flat = a
            for idx in np.ndindex(a.shape):
                x = flat[idx]
                if kind_elem(x) != k:
                    flat[idx] = cast_elem(x, k)
    r = a.view(SymArray)
    r._k = k
    return r


def wrap_list(xs, k=None):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return wrap(a, k)


def box0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return wrap(a, kind_elem(x))


def index_of(k):
    """Make an index acceptable to numpy: concrete SymArrays become int / bool arrays, symbolic ones are decided."""
    if isinstance(k, tuple):
        return tuple(index_of(x) for x in k)
    if isinstance(k, SymArray):
        if k._k == 'b':
            return np.array([bool(x) for x in k.view(RND).flat], dtype=bool).reshape(k.shape)
        if k._k in ('i', 'o'):
            return np.array([operator.index(x) for x in k.view(RND).flat], dtype=int).reshape(k.shape)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(k, list):
        if any(isinstance(x, (list, RND)) for x in k):
            return index_of(asarray(k))
        return [index_of(x) for x in k]
    if isinstance(k, SBool):
        return bool(k)
    if isinstance(k, S):
        if k.kind != 'i':
            raise IndexError('only integers, slices ... are valid indices')
        return operator.index(k)
    if isinstance(k, slice):
        f = lambda v: None if v is None else operator.index(v)
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def _is_case(x):
    """A number that is a case distinction by itself."""
    return isinstance(x, S) and any(p and len(p) == 1 and any(P.POOL.atoms[i].kind == 'ite' for i, _ in min(p)) for p in (x.re, x.ci))


class SymArray(np.ndarray):
    _k = 'o'

    def __array_finalize__(self, obj):
        if obj is not None:
            self._k = getattr(obj, '_k', 'o')

    @property
    def dtype(self):
        return _DT[self._k]

    # ------------------------------------------------------------ element access
    def __getitem__(self, key):
        r = RND.__getitem__(self.view(RND), index_of(key))
        if isinstance(r, RND):
            r = r.view(SymArray)
            r._k = self._k
            return r
        return unbox(r, self._k)

    def __setitem__(self, key, value):
        base = self.view(RND)
        if isinstance(key, SymArray) and key._k == 'b' and has_sym(key) and not isinstance(value, (RND, list, tuple)) \
                and key.shape == self.shape:
            # merged instead of forked where there are many elements, or where the result is no case distinction
            new = [ite(key.view(RND)[idx], value, base[idx]) for idx in np.ndindex(key.shape)] \
                if key.size > 8 or all(isinstance(x, S) or isinstance(x, (int, float)) for x in base.flat) else None
            if new is not None and (key.size > 8 or not any(_is_case(x) for x in new)):
                for idx, x in zip(np.ndindex(key.shape), new):
                    base[idx] = cast_elem(x, self._k)
                return
        idx = index_of(key)
        if isinstance(value, (list, tuple)):
            value = asarray(value)
        if isinstance(value, RND):
            if value.dtype.kind in 'biufc' and not isinstance(value, SymArray):
                value = value.astype(object)
            v = value.view(RND) if isinstance(value, SymArray) else value
            w = np.empty(v.shape, dtype=object)
            for i in np.ndindex(v.shape):
                w[i] = cast_elem(v[i], self._k)
            base[idx] = w
        else:
            v = cast_elem(value, self._k, strict=True)
            if isinstance(RND.__getitem__(base, idx), RND):
                w = np.empty((), dtype=object)
                w[()] = v
                base[idx] = w
            else:
                base[idx] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(self.view(RND).reshape(())[()])

    def __float__(self):
        if self.size != 1:
            raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
        return float(self.view(RND).reshape(())[()])

    def __int__(self):
        return int(self.view(RND).reshape(())[()])

    def __index__(self):
        if self.ndim != 0 or self._k != 'i':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return operator.index(self.view(RND)[()])

    def __complex__(self):
        return complex(self.view(RND).reshape(())[()])

    def __format__(self, spec):
        if self.ndim == 0:
            return format(unbox(self.view(RND)[()], self._k), spec)
        if spec:
            raise TypeError('unsupported format string passed to numpy.ndarray.__format__')
        return str(self)

    def __contains__(self, x):
        return any(bool(y == x) for y in self.view(RND).flat)

    # ------------------------------------------------------------ dispatch
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    # ------------------------------------------------------------ methods
    @property
    def real(self):
        return emap1(self, e_real, 'f' if self._k == 'c' else self._k)

    @property
    def imag(self):
        return emap1(self, e_imag, 'f' if self._k == 'c' else self._k)

    @real.setter
    def real(self, v):
        self[...] = asarray(v) + 1j * self.imag if self._k == 'c' else v

    @imag.setter
    def imag(self, v):
        self[...] = self.real + 1j * asarray(v)

    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        k = kind_of_dtype(dt)
        if k == self._k and not copy:
            return self
        return emap1(self, lambda x: cast_elem(x, k), k)

    def copy(self, order='C'):
        return wrap(self.view(RND).copy(), self._k)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def conj(self): return call(np.conjugate, self)
    def conjugate(self): return call(np.conjugate, self)
    def sum(self, axis=None, dtype=None, out=None, **kw): return f_sum(self, axis=axis, dtype=dtype, out=out, **kw)
    def mean(self, axis=None, **kw): return f_mean(self, axis=axis, **kw)
    def prod(self, axis=None, **kw): return np.prod(self, axis=axis, **kw)
    def std(self, axis=None, ddof=0, **kw): return f_std(self, axis=axis, ddof=ddof)
    def var(self, axis=None, ddof=0, **kw): return f_var(self, axis=axis, ddof=ddof)
    def max(self, axis=None, **kw): return f_max(self, axis=axis, **kw)
    def min(self, axis=None, **kw): return f_min(self, axis=axis, **kw)
    def ptp(self, axis=None, **kw): return f_max(self, axis=axis) - f_min(self, axis=axis)
    def argmax(self, axis=None, **kw): return f_argmax(self, axis=axis)
    def argmin(self, axis=None, **kw): return f_argmin(self, axis=axis)
    def any(self, axis=None, **kw): return f_any(self, axis=axis, **kw)
    def all(self, axis=None, **kw): return f_all(self, axis=axis, **kw)
    def nonzero(self): return f_nonzero(self)
    def dot(self, b): return np.dot(self, b)
    def clip(self, a_min=None, a_max=None, **kw): return f_clip(self, a_min, a_max)
    def round(self, decimals=0, **kw): return np.round(self, decimals)
    def cumsum(self, axis=None, **kw): return np.cumsum(self, axis=axis)
    def cumprod(self, axis=None, **kw): return np.cumprod(self, axis=axis)
    def argsort(self, *a, **kw): return np.argsort(self, *a, **kw)
    def trace(self, *a, **kw): return np.trace(self, *a, **kw)
    def searchsorted(self, v, **kw): return np.searchsorted(self, v, **kw)

    def item(self, *a):
        return RND.item(self.view(RND), *a)

    def tolist(self):
        return self.view(RND).tolist()

    def fill(self, v):
        self[...] = v

    def __str__(self):
        return f_array_str(self)

    def __repr__(self):
        return 'SymArray%s' % (self.view(RND).tolist(),)

    def __reduce__(self):
        raise Unsupported('pickling')


def _struct_method(name):
    def f(self, *a, **kw):
        r = getattr(self.view(RND), name)(*[index_of(x) if isinstance(x, (SymArray, S)) else x for x in a], **kw)
        if isinstance(r, RND):
            r = r.view(SymArray)
            r._k = self._k
            return r
        return unbox(r, self._k)
    f.__name__ = name
    return f


for _n in ('reshape', 'ravel', 'flatten', 'transpose', 'swapaxes', 'squeeze', 'take', 'repeat', 'diagonal', 'compress'):
    setattr(SymArray, _n, _struct_method(_n))


# ------------------------------------------------------------------------------------ elementwise

def e_real(x):
    if isinstance(x, (S,)):
        return x.real
    if isinstance(x, SBool):
        return x
    return x.real


def e_imag(x):
    if isinstance(x, S):
        return x.imag
    if isinstance(x, SBool):
        return 0
    return x.imag


def emap1(a, f, k=None):
    if not isinstance(a, RND):
        return f(a)
    b = a.view(RND) if isinstance(a, SymArray) else a
    out = np.empty(b.shape, dtype=object)
    if out.ndim == 0:
        out[()] = f(b[()])
        return wrap(out, k)
    of = out.reshape(-1)
    for i, x in enumerate(b.flat):
        of[i] = f(x)
    return wrap(out, k)


def conc2(ufunc):
    def f(*xs):
        with np.errstate(all='ignore'):
            r = ufunc(*[_npnum(x) for x in xs])
        return r.item() if hasattr(r, 'item') else r
    return f


def _npnum(x):
    from fractions import Fraction
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, int):
        return np.int64(x) if -2**62 < x < 2**62 else x
    if isinstance(x, float):
        return np.float64(x)
    if isinstance(x, complex):
        return np.complex128(x)
    return x


def _maximum(a, b):
    """max(a, b) = b + max(a-b, 0)"""
    if isconc(a) and a != a:
        return a
    if isconc(b) and b != b:
        return b
    if isconc(a) and math.isinf(a):
        return a if a > 0 else b
    if isconc(b) and math.isinf(b):
        return b if b > 0 else a
    la, lb = lift(a), lift(b)
    d = P.sub(la.re, lb.re)
    return mk(P.add(lb.re, sym.pos_part(d)), None, joink(la.kind, lb.kind))


def _minimum(a, b):
    return -_maximum(-a, -b)


def _hypot(a, b):
    return sym.s_sqrt(lift(a * a + b * b))


def _sign(x):
    s = cur().sign(x.re)
    if s in (1, -1):
        return float(s) if x.kind != 'i' else s
    if bool(x > 0):
        return 1 if x.kind == 'i' else 1.0
    if bool(x < 0):
        return -1 if x.kind == 'i' else -1.0
    return 0 if x.kind == 'i' else 0.0


def _isnan(x):
    return False


def _rint(x):
    if x.kind == 'i':
        return x
    f = sym_floor(x + 0.5)
    return float(f)


def _angle_abs(x):
    return sym.s_abs(x)


def _as_f(x):
    return cast_elem(x, 'f') if kind_elem(x) in ('i', 'b') else x


U1 = {
    'cos': lambda x: sym.s_cos(lift(x)), 'sin': lambda x: sym.s_sin(lift(x)), 'tan': lambda x: sym.s_tan(lift(x)),
    'exp': lambda x: sym.s_exp(lift(x)), 'log': lambda x: sym.s_log(lift(x)),
    'log10': lambda x: sym.s_log(lift(x)) / math.log(10), 'log2': lambda x: sym.s_log(lift(x)) / math.log(2),
    'log1p': lambda x: sym.s_log(lift(x + 1)), 'expm1': lambda x: sym.s_exp(lift(x)) - 1,
    'sqrt': lambda x: sym.s_sqrt(lift(x)), 'square': lambda x: x * x, 'negative': lambda x: -x, 'positive': lambda x: x,
    'absolute': lambda x: abs(x), 'fabs': lambda x: abs(x), 'conjugate': lambda x: x.conjugate(),
    'reciprocal': lambda x: 1 / x, 'deg2rad': lambda x: x * (math.pi / 180), 'radians': lambda x: x * (math.pi / 180),
    'rad2deg': lambda x: x * (180 / math.pi), 'degrees': lambda x: x * (180 / math.pi),
    'arccos': lambda x: sym.s_arccos(lift(x)), 'arcsin': lambda x: sym.s_arcsin(lift(x)),
    'arctan': lambda x: sym.s_arctan(lift(x)),
    'isnan': _isnan, 'isfinite': lambda x: True, 'isinf': lambda x: False,
    'sign': _sign, 'floor': lambda x: float(sym_floor(x)) if lift(x).kind != 'i' else x,
    'ceil': lambda x: -float(sym_floor(-x)), 'trunc': lambda x: float(sym_floor(x)) if bool(x >= 0) else -float(sym_floor(-x)),
    'rint': _rint,
    'logical_not': lambda x: b_not(x if isinstance(x, SBool) else (x != 0)),
    'invert': lambda x: b_not(x) if isinstance(x, SBool) else ~x,
    'signbit': lambda x: x < 0,
    'sinh': lambda x: (sym.s_exp(lift(x)) - sym.s_exp(lift(-x))) / 2,
    'cosh': lambda x: (sym.s_exp(lift(x)) + sym.s_exp(lift(-x))) / 2,
    'cbrt': lambda x: x ** (1 / 3),
    'tanh': lambda x: 1 - 2 / (sym.s_exp(lift(2 * x)) + 1),
}


def _tobool(x):
    return x if isinstance(x, (SBool, bool, np.bool_)) else (x != 0)


def _op(name):
    f = getattr(operator, name)
    return lambda a, b: f(a, b)


U2 = {
    'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'divide': operator.truediv,
    'true_divide': operator.truediv, 'power': operator.pow, 'float_power': lambda a, b: _as_f(a) ** _as_f(b),
    'floor_divide': operator.floordiv, 'remainder': operator.mod, 'mod': operator.mod,
    'fmod': lambda a, b: a - b * U1['trunc'](a / b), 'heaviside': lambda a, b: 1.0 if a > 0 else 0.0 if a < 0 else b,
    'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt, 'greater_equal': operator.ge,
    'equal': operator.eq, 'not_equal': operator.ne,
    'maximum': _maximum, 'minimum': _minimum, 'fmax': _maximum, 'fmin': _minimum,
    'arctan2': lambda a, b: sym.s_arctan2(a, b), 'hypot': _hypot,
    'logical_and': lambda a, b: b_and(_tobool(a), _tobool(b)),
    'logical_or': lambda a, b: b_or(_tobool(a), _tobool(b)),
    'logical_xor': lambda a, b: sym.b_xor(_tobool(a), _tobool(b)),
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b, 'bitwise_xor': lambda a, b: a ^ b,
    'copysign': lambda a, b: abs(a) * _sign(lift(b)),
}
_BOOLRES = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
            'logical_xor', 'logical_not', 'isnan', 'isfinite', 'isinf', 'signbit'}
_FLOATRES = {'cos', 'sin', 'tan', 'exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'sqrt', 'deg2rad', 'radians', 'rad2deg',
             'degrees', 'arccos', 'arcsin', 'arctan', 'divide', 'true_divide', 'arctan2', 'hypot', 'float_power',
             'floor', 'ceil', 'trunc', 'rint', 'fabs', 'copysign', 'sinh', 'cosh', 'tanh', 'heaviside', 'cbrt', 'reciprocal'}


def result_kind(name, kinds):
    k = 'b'
    for x in kinds:
        k = joink(k, x)
    if name in _BOOLRES:
        return 'b'
    if name in _FLOATRES:
        return joink(k, 'f')
    if name == 'absolute':
        return 'f' if k == 'c' else k
    if name == 'power' and k == 'b':
        return 'i'
    if k == 'b' and name in ('add', 'subtract', 'multiply', 'negative', 'positive', 'square'):
        return 'b' if name in ('add', 'multiply') else 'i'
    return k


def call(ufunc, *xs, **kw):
    return array_ufunc(ufunc, '__call__', xs, kw)


def _norm_in(x):
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return asarray(x)
    if isinstance(x, RND) and not isinstance(x, SymArray):
        return from_real(x)
    return x


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kw.pop('where', True)
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    dtype = kw.pop('dtype', None)
    inputs = [_norm_in(x) for x in inputs]
    if method == 'reduce':
        return _reduce(ufunc, inputs[0], out=out, **kw)
    if method == 'accumulate':
        o = to_obj(inputs[0])
        return wrap(np.frompyfunc(lambda a, b: bin_elem(ufunc, a, b), 2, 1).accumulate(o, axis=kw.get('axis', 0)))
    if method == 'outer':
        a, b = [asarray(x) for x in inputs]
        return array_ufunc(ufunc, '__call__', [a.reshape(a.shape + (1,) * b.ndim), b], {})
    if method == 'at':
        a, idx = inputs[0], index_of(inputs[1])
        if len(inputs) == 2:
            raise Unsupported('ufunc.at')
        b = inputs[2]
        pos = np.arange(a.size).reshape(a.shape)[idx]
        pos = np.atleast_1d(pos)
        bb = np.broadcast_to(to_obj(asarray(b)), pos.shape)
        flat = a.view(RND).reshape(-1) if a.flags['C_CONTIGUOUS'] else None
        if flat is None:
            raise Unsupported('ufunc.at on a strided array')
        for p, v in zip(pos.flat, bb.flat):
            flat[p] = cast_elem(bin_elem(ufunc, flat[p], v), a._k)
        return None
    if method != '__call__':
        raise Unsupported('ufunc method %s' % method)
    if name == 'matmul':
        r = _matmul(*inputs)
        return _store(out, r)
    if name in ('modf', 'frexp', 'divmod'):
        if any(has_sym(x) for x in inputs):
            raise Unsupported(name)
    kinds = [kind_of(x) for x in inputs]
    rk = result_kind(name, kinds)
    if dtype is not None:
        rk = kind_of_dtype(dtype)
    conc = not any(has_sym(x) for x in inputs) and not has_sym(out) and not has_sym(where)
    if conc and not any(kind_of(x) == 'o' for x in inputs):
        return _concrete_ufunc(ufunc, inputs, out, where, dtype)
    if out is not None and isinstance(out, SymArray) and _RANK[out._k] < _RANK[rk]:
        raise TypeError("Cannot cast ufunc '%s' output from %s to %s" % (name, _DT[rk], _DT[out._k]))
    n = len(inputs)
    f1 = U1.get(name) if n == 1 else U2.get(name)
    if f1 is None:
        raise Unsupported('ufunc %s on symbolic values' % name)
    arrs = [x.view(RND) if isinstance(x, SymArray) else x for x in inputs]
    shape = np.broadcast_shapes(*[x.shape if isinstance(x, RND) else () for x in arrs])
    wshape = where.shape if isinstance(where, RND) else ()
    if wshape:
        shape = np.broadcast_shapes(shape, wshape)
    if isinstance(out, RND):
        if np.broadcast_shapes(shape, out.shape) != out.shape:
            raise ValueError('non-broadcastable output operand with shape %s' % (out.shape,))
        shape = out.shape
    its = []
    for x in arrs:
        if isinstance(x, RND):
            its.append(np.broadcast_to(x, shape).reshape(-1))
        else:
            its.append(None)
    size = int(np.prod(shape)) if shape else 1
    cf = conc2(ufunc)

    def ev(i):
        xs = [arrs[j] if its[j] is None else its[j][i] for j in range(n)]
        if any(isinstance(x, (S, SBool)) for x in xs):
            return f1(*[x.item() if isinstance(x, np.generic) else x for x in xs])
        return cf(*xs)
    res = np.empty(size, dtype=object)
    if where is True:
        for i in range(size):
            res[i] = ev(i)
    else:
        w = np.broadcast_to(to_obj(where), shape).reshape(-1) if isinstance(where, RND) else [where] * size
        o = np.broadcast_to(to_obj(out), shape).reshape(-1) if isinstance(out, RND) else None
        for i in range(size):
            wi = w[i]
            if isinstance(wi, SBool):
                fd = cur().forced(wi)
                if fd is None and name in ('divide', 'true_divide'):
                    den = arrs[1] if its[1] is None else its[1][i]
                    if isinstance(den, S) and P.sign(den.re) not in (1, -1):
                        fd = bool(wi)
                if fd is None:
                    oi = o[i] if o is not None else _undef(rk)
                    res[i] = ite(wi, ev(i), oi)
                    continue
                wi = fd
            res[i] = ev(i) if wi else (o[i] if o is not None else _undef(rk))
    res = res.reshape(shape)
    if out is None:
        if not shape:
            return unbox(cast_elem(res[()], rk), rk) if rk != 'o' else res[()]
        for i in np.ndindex(shape):
            if rk != 'o' and kind_elem(res[i]) != rk:
                res[i] = cast_elem(res[i], rk)
        return wrap(res, rk)
    return _store(out, wrap(res, rk))


def _store(out, r):
    if out is None:
        return r
    if not isinstance(out, SymArray):
        if has_sym(r):
            raise Unsupported('symbolic result into a native array')
        out[...] = to_real(r)
        return out
    out[...] = r
    return out


def _undef(k):
    a = cur().fresh_var('undef')
    return mk({((a.id, 1),): 1}, {} if k == 'c' else None, k if k in 'fc' else 'f')


def _concrete_ufunc(ufunc, inputs, out, where, dtype):
    kw = {}
    if dtype is not None:
        kw['dtype'] = dtype
    ins = [to_real(x) for x in inputs]
    if where is not True:
        kw['where'] = to_real(where)
    if out is not None:
        o = to_real(out)
        ufunc(*ins, out=o, **kw)
        if isinstance(out, SymArray):
            out.view(RND)[...] = o.astype(object)
        return out
    r = ufunc(*ins, **kw)
    if isinstance(r, tuple):
        return tuple(from_real(x) for x in r)
    return from_real(r)


def bin_elem(ufunc, a, b):
    if isinstance(a, (S, SBool)) or isinstance(b, (S, SBool)):
        f = U2.get(ufunc.__name__)
        if f is None:
            raise Unsupported(ufunc.__name__)
        return f(a.item() if isinstance(a, np.generic) else a, b.item() if isinstance(b, np.generic) else b)
    return conc2(ufunc)(a, b)


def sum_elems(xs):
    re, im = {}, {}
    k = 'i'
    cplx = False
    extra = None
    for x in xs:
        if isinstance(x, SBool):
            x = x.as_int()
        if isinstance(x, S):
            k = joink(k, x.kind)
            _acc(re, x.re)
            if x.im:
                _acc(im, x.im)
        else:
            k = joink(k, {'b': 'i'}.get(kind_elem(x), kind_elem(x)))
            if not sym._finite(x):
                extra = x if extra is None else extra + x
                continue
            if isinstance(x, (complex, np.complexfloating)):
                _acc(re, P.const(float(x.real)))
                _acc(im, P.const(float(x.imag)))
            else:
                _acc(re, P.const(sym.num(x)))
    re = {m: v[0] for m, v in re.items() if not (v[0] == 0 or (isinstance(v[0], float) and abs(v[0]) <= 4e-15 * v[1]))}
    im = {m: v[0] for m, v in im.items() if not (v[0] == 0 or (isinstance(v[0], float) and abs(v[0]) <= 4e-15 * v[1]))}
    r = mk(re, im if k == 'c' else None, k)
    if k != 'c' and extra is None and any(isinstance(x, S) and x.nn for x in xs) and all(isinstance(x, SBool) or sym._nn(lift(x)) for x in xs):
        sym._mark(r)
    if extra is not None:
        return r + extra
    return r


def _acc(d, p):
    for m, c in p.items():
        o = d.get(m)
        if o is None:
            d[m] = [c, abs(c)]
        else:
            o[0] += c
            o[1] += abs(c)


def _reduce(ufunc, a, axis=0, out=None, keepdims=False, initial=None, dtype=None, where=True, **kw):
    name = ufunc.__name__
    a = asarray(a)
    if name == 'add':
        return f_sum(a, axis=axis, keepdims=keepdims, out=out, initial=initial, where=where, dtype=dtype)
    if name in ('maximum', 'fmax'):
        return f_max(a, axis=axis, keepdims=keepdims, out=out, initial=initial, where=where)
    if name in ('minimum', 'fmin'):
        return f_min(a, axis=axis, keepdims=keepdims, out=out, initial=initial, where=where)
    if where is not True and where is not np._NoValue:
        if ufunc.identity is None:
            raise Unsupported('where of a reduction')
        a = f_where(where, a, ufunc.identity)
    if name == 'logical_and':
        return f_all(a, axis=axis, keepdims=keepdims)
    if name == 'logical_or':
        return f_any(a, axis=axis, keepdims=keepdims)

    def f(xs):
        r = None
        for x in xs:
            r = x if r is None else bin_elem(ufunc, r, x)
        if initial is not None and initial is not np._NoValue:
            r = initial if r is None else bin_elem(ufunc, initial, r)
        if r is None:
            r = ufunc.identity
        return r
    return reduce_axis(a, f, axis, keepdims, None, out)


def reduce_axis(a, f, axis, keepdims=False, k=None, out=None):
    """Apply f (list of elements -> element) along the given axis / axes."""
    b = a.view(RND) if isinstance(a, SymArray) else np.asarray(a, dtype=object)
    nd = b.ndim
    if axis is None:
        axes = tuple(range(nd))
    else:
        axes = tuple(int(x) % nd if -nd <= x < nd else _axerr(x, nd) for x in (axis if isinstance(axis, (tuple, list)) else (axis,)))
    rest = [i for i in range(nd) if i not in axes]
    t = b.transpose(rest + list(axes))
    shp = tuple(b.shape[i] for i in rest)
    t = t.reshape(shp + (-1,)) if b.size else t.reshape(shp + (0,))
    o = np.empty(shp, dtype=object)
    for idx in np.ndindex(shp):
        o[idx] = f(list(t[idx]))
    if keepdims:
        o = o.reshape(tuple(1 if i in axes else b.shape[i] for i in range(nd)))
    if o.ndim == 0:
        x = o[()]
        if out is not None:
            out[...] = x
            return out
        kk = k or kind_elem(x)
        return unbox(cast_elem(x, kk), kk) if kk != 'o' else x
    r = wrap(o, None)
    if k is not None and r._k != k:
        r = r.astype(k)
    return _store(out, r)


def _axerr(x, nd):
    raise np.exceptions.AxisError(x, nd)


def _matmul(a, b):
    a, b = asarray(a), asarray(b)
    if not has_sym(a) and not has_sym(b):
        return from_real(np.matmul(to_real(a), to_real(b)))
    r = np.matmul(a.view(RND), b.view(RND))
    if not isinstance(r, RND):
        return r
    return wrap(r)


# ------------------------------------------------------------------------------------ construction

def asarray(x, dtype=None, copy=False):
    k = kind_of_dtype(dtype)
    if isinstance(x, SymArray):
        if k is not None and k != x._k:
            return x.astype(k)
        return x.copy() if copy else x
    if isinstance(x, RND):
        if x.dtype.kind not in 'biufcO':
            return x
        r = from_real(x)
        return r.astype(k) if k is not None and k != r._k else r
    if isinstance(x, (S, SBool)) or isconc(x):
        r = box0(x if is_sym(x) else (x.item() if isinstance(x, np.generic) else x))
        return r.astype(k) if k is not None and k != r._k else r
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        xs = [asarray(y) if isinstance(y, (list, tuple, RND, range)) else y for y in x]
        if xs and all(isinstance(y, RND) for y in xs):
            if any(y.dtype.kind not in 'biufcO' for y in xs):
                return np.asarray([np.asarray(y) for y in xs])
            shp = xs[0].shape
            if any(y.shape != shp for y in xs):
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            o = np.empty((len(xs),) + shp, dtype=object)
            for i, y in enumerate(xs):
                o[i] = to_obj(y)
            kk = 'b'
            for y in xs:
                kk = joink(kk, kind_of(y))
            r = wrap(o, None) if o.size else wrap(o, kk)
            if r._k != kk and o.size:
                r = r.astype(kk)
        elif any(isinstance(y, str) for y in xs):
            return np.asarray(x)
        else:
            if any(isinstance(y, RND) and y.ndim for y in xs):
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            o = np.empty(len(xs), dtype=object)
            for i, y in enumerate(xs):
                if isinstance(y, RND):
                    y = to_obj(y)[()]
                o[i] = y.item() if isinstance(y, np.generic) else y
            r = wrap(o, None) if len(xs) else wrap(o, 'f')
        return r.astype(k) if k is not None and k != r._k else r
    if x is None or isinstance(x, (str, dict, set)):
        return np.asarray(x, dtype=dtype)
    if hasattr(x, '__iter__') and not hasattr(x, '__array__'):
        o = np.empty((), dtype=object)
        o[()] = x
        return wrap(o, 'o')
    return from_real(np.asarray(x, dtype=dtype))


def filled(shape, v, k):
    if isinstance(shape, SymArray):
        shape = tuple(index_of(shape).tolist()) if shape.ndim else int(shape)
    if isinstance(shape, (S, np.integer)):
        shape = operator.index(shape)
    if isinstance(shape, (tuple, list)):
        shape = tuple(operator.index(x) for x in shape)
    o = np.empty(shape, dtype=object)
    if callable(v):
        f = o.reshape(-1)
        for i in range(f.size):
            f[i] = v()
    else:
        o.fill(v)
    return wrap(o, k)


_ZERO = {'b': False, 'i': 0, 'f': 0.0, 'c': 0j, 'o': 0}
_ONEV = {'b': True, 'i': 1, 'f': 1.0, 'c': 1 + 0j, 'o': 1}


def c_zeros(shape, dtype=float, *a, **kw):
    k = kind_of_dtype(dtype) or 'f'
    return filled(shape, _ZERO[k], k)


def c_ones(shape, dtype=None, *a, **kw):
    k = kind_of_dtype(dtype) or 'f'
    return filled(shape, _ONEV[k], k)


def c_empty(shape, dtype=float, *a, **kw):
    k = kind_of_dtype(dtype) or 'f'
    return filled(shape, (lambda: _undef(k)) if k in 'fc' else _ZERO[k], k)


def c_full(shape, fill_value, dtype=None, *a, **kw):
    if isinstance(fill_value, (RND, list, tuple)):
        fv = asarray(fill_value)
        r = filled(shape, 0, fv._k if dtype is None else kind_of_dtype(dtype))
        r[...] = fv
        return r
    k = kind_of_dtype(dtype) or kind_elem(fill_value)
    return filled(shape, cast_elem(fill_value, k), k)


def _like(a, dtype, shape):
    a = asarray(a)
    return (a.shape if shape is None else shape), (kind_of_dtype(dtype) or kind_of(a))


def c_zeros_like(a, dtype=None, order='K', subok=True, shape=None, **kw):
    s, k = _like(a, dtype, shape)
    return filled(s, _ZERO[k], k)


def c_ones_like(a, dtype=None, order='K', subok=True, shape=None, **kw):
    s, k = _like(a, dtype, shape)
    return filled(s, _ONEV[k], k)


def c_empty_like(prototype, dtype=None, order='K', subok=True, shape=None, **kw):
    s, k = _like(prototype, dtype, shape)
    return filled(s, (lambda: _undef(k)) if k in 'fc' else _ZERO[k], k)


def c_full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None, **kw):
    s, k = _like(a, dtype, shape)
    r = filled(s, _ZERO[k], k)
    r[...] = fill_value
    return r


def c_array(object, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
    r = asarray(object, dtype, copy=copy is not False)
    if isinstance(r, RND) and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def c_asarray(a, dtype=None, order=None, copy=None, **kw):
    return asarray(a, dtype, copy=bool(copy))


def _atleast(n, f):
    def g(*arys):
        r = []
        for a in arys:
            a = asarray(a)
            if a.ndim >= n:
                r.append(a)
            else:
                b = f(a.view(RND)).view(SymArray)
                b._k = a._k
                r.append(b)
        return r[0] if len(r) == 1 else tuple(r)
    return g


# ------------------------------------------------------------------------------------ functions

def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
    a = asarray(a)
    if where is not None and where is not True and where is not np._NoValue:
        a = f_where(where, a, 0)
    k = {'b': 'i'}.get(kind_of(a), kind_of(a))
    if dtype is not None:
        k = kind_of_dtype(dtype)
    kd = keepdims if keepdims is not np._NoValue else False
    if k == 'o':
        k = None
    r = reduce_axis(a, sum_elems, axis, kd, k, out)
    if initial is not None and initial is not np._NoValue:
        r = r + initial
    return r


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = asarray(a)
    w = kw.get('where', None)
    if w is not None and w is not True and w is not np._NoValue:
        s = f_sum(a, axis=axis, keepdims=keepdims, where=w)
        n = f_sum(f_where(w, c_ones(a.shape), 0.0), axis=axis, keepdims=keepdims)
        return _store(out, s / n)
    s = f_sum(a, axis=axis, keepdims=keepdims)
    n = a.size if axis is None else int(np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
    return _store(out, s / n if n else s * float('nan'))


def f_var(a, axis=None, ddof=0, **kw):
    a = asarray(a)
    m = f_mean(a, axis=axis, keepdims=True)
    d = call(np.absolute, a - m)
    n = a.size if axis is None else int(np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
    return f_sum(d * d, axis=axis) / (n - ddof)


def f_std(a, axis=None, ddof=0, **kw):
    return call(np.sqrt, f_var(a, axis=axis, ddof=ddof))


def f_average(a, axis=None, weights=None, returned=False, **kw):
    if weights is None:
        return f_mean(a, axis=axis)
    a, w = asarray(a), asarray(weights)
    if w.shape != a.shape and axis is not None:
        shp = [1] * a.ndim
        shp[axis] = w.size
        w = w.reshape(shp) * c_ones(a.shape)
    s = f_sum(w, axis=axis)
    r = f_sum(a * w, axis=axis) / s
    return (r, s) if returned else r


def _maxlist(xs):
    b = xs[0]
    for x in xs[1:]:
        if isconc(x) and x != x:
            return x
        if bool(x > b):
            b = x
    return b


def _minlist(xs):
    b = xs[0]
    for x in xs[1:]:
        if isconc(x) and x != x:
            return x
        if bool(x < b):
            b = x
    return b


def _empty_guard(f):
    def g(xs):
        if not xs:
            raise ValueError('zero-size array to reduction operation which has no identity')
        return f(xs)
    return g


def _extreme(real, pick, a, axis, out, keepdims, initial, where):
    a = asarray(a)
    kd = bool(keepdims) if keepdims is not np._NoValue else False
    kw = {}
    if initial is not None and initial is not np._NoValue:
        kw['initial'] = initial
    if where is not True and where is not None and where is not np._NoValue:
        kw['where'] = where
    if not has_sym(a) and not has_sym(kw):
        r = from_real(real(to_real(a), axis=axis, keepdims=kd, **to_real(kw)))
        return r if out is None else _store(out, r)
    if 'where' in kw:
        if 'initial' not in kw:
            raise ValueError('reduction operation has no identity, so to use a where mask one has to specify initial')
        a = f_where(where, a, kw['initial'])
    f = _empty_guard(pick) if 'initial' not in kw else (lambda xs: pick(list(xs) + [initial]))
    return reduce_axis(a, f, axis, kd, kind_of(a), out)


def f_max(a, axis=None, out=None, keepdims=False, initial=None, where=True, **kw):
    return _extreme(np.max, _maxlist, a, axis, out, keepdims, initial, where)


def f_min(a, axis=None, out=None, keepdims=False, initial=None, where=True, **kw):
    return _extreme(np.min, _minlist, a, axis, out, keepdims, initial, where)


def _argmaxlist(xs):
    b = 0
    for i, x in enumerate(xs):
        if i and bool(x > xs[b]):
            b = i
    return b


def _argminlist(xs):
    b = 0
    for i, x in enumerate(xs):
        if i and bool(x < xs[b]):
            b = i
    return b


def f_argmax(a, axis=None, out=None, **kw):
    a = asarray(a)
    return reduce_axis(a, _argmaxlist, axis, False, 'i')


def f_argmin(a, axis=None, out=None, **kw):
    a = asarray(a)
    return reduce_axis(a, _argminlist, axis, False, 'i')


def f_any(a, axis=None, out=None, keepdims=False, **kw):
    a = asarray(a)
    return reduce_axis(a, lambda xs: b_or(*[_tobool(x) for x in xs]), axis, keepdims if keepdims is not np._NoValue else False, 'b')


def f_all(a, axis=None, out=None, keepdims=False, **kw):
    a = asarray(a)
    return reduce_axis(a, lambda xs: b_and(*[_tobool(x) for x in xs]), axis, keepdims if keepdims is not np._NoValue else False, 'b')


def f_nonzero(a):
    a = asarray(a)
    m = np.array([bool(_tobool(x)) for x in a.view(RND).flat], dtype=bool).reshape(a.shape)
    return tuple(from_real(x) for x in np.nonzero(m))


def f_count_nonzero(a, axis=None, **kw):
    a = asarray(a)
    return reduce_axis(a, lambda xs: sum(bool(_tobool(x)) for x in xs), axis, False, 'i')


def f_where(cond, x=None, y=None):
    if x is None and y is None:
        return f_nonzero(cond)
    cond, x, y = [_norm_in(v) for v in (cond, x, y)]
    k = joink(kind_of(x), kind_of(y))
    arrs = [to_obj(v) for v in (cond, x, y)]
    shape = np.broadcast_shapes(*[v.shape if isinstance(v, RND) else () for v in arrs])
    bs = [np.broadcast_to(v, shape).reshape(-1) if isinstance(v, RND) else None for v in arrs]
    n = int(np.prod(shape)) if shape else 1
    o = np.empty(n, dtype=object)
    for i in range(n):
        c, a, b = [arrs[j] if bs[j] is None else bs[j][i] for j in range(3)]
        c = _tobool(c)
        r = ite(c, a, b) if isinstance(c, SBool) else (a if c else b)
        if isinstance(r, np.generic):
            r = r.item()
        o[i] = cast_elem(r, k)
    o = o.reshape(shape)
    if o.ndim == 0:
        return box0(o[()]) if not is_sym(o[()]) else wrap(o, k)
    return wrap(o, k)


def f_select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = f_where(c, v, r)
    return r


def near_zero(d, scale):
    """d is zero up to rounding of the constants involved."""
    p = P.clear(d)
    return all(abs(float(c)) <= 1e-11 * scale for c in p.values())


def close_elem(a, b, rtol, atol, equal_nan=False):
    if not is_sym(a) and not is_sym(b):
        return bool(np.isclose(_npnum(a), _npnum(b), rtol=rtol, atol=atol, equal_nan=equal_nan))
    if isconc(a) and not sym._finite(a) or isconc(b) and not sym._finite(b):
        return False
    a, b = lift(a), lift(b)
    dr, di = P.sub(a.re, b.re), P.sub(a.ci, b.ci)
    sc = max([abs(float(c)) for q in (a.re, b.re, a.ci, b.ci) for c in q.values()] + [1e-30])
    if (not dr or near_zero(dr, sc)) and (not di or near_zero(di, sc)):
        return True
    if not di and not a.ci and not b.ci:
        t = atol + rtol * sym.s_abs(mkS(b.re))
        d = mkS(dr) if not P.is_const(dr) else P.const_value(dr)
        return b_and(d <= t, -d <= t)
    m2 = mk(P.add(P.mul(dr, dr), P.mul(di, di)))
    t = atol + rtol * sym.s_abs(b)
    return m2 <= t * t


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = _norm_in(a), _norm_in(b)
    arrs = [to_obj(v) for v in (a, b)]
    shape = np.broadcast_shapes(*[v.shape if isinstance(v, RND) else () for v in arrs])
    bs = [np.broadcast_to(v, shape).reshape(-1) if isinstance(v, RND) else None for v in arrs]
    n = int(np.prod(shape)) if shape else 1
    o = np.empty(n, dtype=object)
    for i in range(n):
        x, y = [arrs[j] if bs[j] is None else bs[j][i] for j in range(2)]
        o[i] = close_elem(x, y, rtol, atol, equal_nan)
    o = o.reshape(shape)
    return unbox(o[()], 'b') if o.ndim == 0 else wrap(o, 'b')


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_all(f_isclose(a, b, rtol, atol, equal_nan))
    return r


def f_array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return f_all(call(np.equal, a, b))


def f_clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get('min', a_min)
    a_max = kw.get('max', a_max)
    r = a
    if a_min is not None:
        r = call(np.maximum, r, a_min)
    if a_max is not None:
        r = call(np.minimum, r, a_max)
    return _store(out, r)


def f_real(a):
    return asarray_or(a, lambda x: x.real)


def f_imag(a):
    return asarray_or(a, lambda x: x.imag)


def asarray_or(a, f):
    a = _norm_in(a)
    return f(a)


def f_real_if_close(a, tol=100):
    a = asarray(a)
    if kind_of(a) != 'c':
        return a
    if not has_sym(a):
        return from_real(np.real_if_close(to_real(a), tol))
    for x in a.view(RND).flat:
        im = x.ci if isinstance(x, S) else P.const(complex(x).imag)
        if im and not near_zero(im, max([1e-30] + [abs(float(c)) for c in lift(x).re.values()])):
            if P.is_const(im) and abs(float(P.const_value(im))) < 100 * 2.3e-16:
                continue
            return a
    return a.real


def f_angle(z, deg=False):
    z = _norm_in(z)
    r = emap1(z, lambda x: sym.s_arctan2(e_imag(x), e_real(x)) if is_sym(x) else float(np.angle(x)), 'f') \
        if isinstance(z, RND) else sym.s_arctan2(e_imag(z), e_real(z))
    return r * (180 / math.pi) if deg else r


def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **kw):
    return _reduce(np.multiply, asarray(a), axis=axis, out=out, initial=initial,
                   keepdims=keepdims if keepdims is not np._NoValue else False,
                   where=True if where is None or where is np._NoValue else where)


def f_around(a, decimals=0, out=None, **kw):
    if not has_sym(a):
        return from_real(np.round(to_real(a), decimals))
    if decimals == 0:
        return call(np.rint, a)
    raise Unsupported('round')


def f_linalg_norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm ord')
    ab = x.real * x.real + x.imag * x.imag if kind_of(x) == 'c' else x * x
    return call(np.sqrt, f_sum(ab, axis=axis, keepdims=keepdims))


def f_einsum(*ops, **kw):
    kw.pop('optimize', None)
    ops = [asarray(o) if isinstance(o, (list, tuple)) and not isinstance(ops[0], str) else o for o in ops]
    if not any(has_sym(o) for o in ops):
        return from_real(np.einsum(*[to_real(o) for o in ops], **kw))
    r = np.einsum(*[to_obj(o if isinstance(o, str) else asarray(o)) for o in ops], **kw)
    return wrap(r) if isinstance(r, RND) and r.ndim else (r[()] if isinstance(r, RND) else r)


def f_diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarray(a)
    if prepend is not None or append is not None:
        edge = lambda v: [c_full(a.shape[:axis % a.ndim] + (1,) + a.shape[axis % a.ndim + 1:], v) if asarray(v).ndim == 0 else asarray(v)] if v is not None else []
        a = array_function(np.concatenate, (edge(prepend) + [a] + edge(append),), {'axis': axis})
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


def f_nan_to_num(x, *a, **kw):
    return emap1(asarray(x), lambda v: v if is_sym(v) else np.nan_to_num(v).item()) if isinstance(x, RND) else x


def f_unique(a, *args, **kw):
    a = asarray(a)
    if not has_sym(a):
        return from_real(np.unique(to_real(a), *args, **kw))
    if args or kw:
        raise Unsupported('unique with options on symbolic values')
    xs = f_sort(a.reshape(-1)).view(RND)
    out = []
    for x in xs:
        if not out or not bool(out[-1] == x):
            out.append(x)
    return wrap_list(out, kind_of(a))


def _cmp(a, b):
    return -1 if bool(a < b) else (1 if bool(b < a) else 0)


def f_sort(a, axis=-1, **kw):
    a = asarray(a)
    import functools as ft
    if not has_sym(a):
        return from_real(np.sort(to_real(a), axis=axis))
    if axis is None:
        a, axis = a.reshape(-1), -1
    key = ft.cmp_to_key(_cmp)
    if a.ndim == 1:
        return wrap_list(sorted(a.view(RND), key=key), kind_of(a))
    t = np.moveaxis(a, axis, -1)
    out = filled(t.shape, 0, kind_of(a))
    for i in np.ndindex(t.shape[:-1]):
        for j, v in enumerate(sorted(t[i].view(RND), key=key)):
            out[i + (j,)] = v
    return np.moveaxis(out, -1, axis)


def f_quantile(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **kw):
    """Linear interpolation between the sorted values."""
    a = asarray(a)
    if not has_sym(a) and not has_sym(q):
        return from_real(np.quantile(to_real(a), to_real(q), axis=axis, method=method, keepdims=keepdims))
    if has_sym(q) or kw or keepdims or method != 'linear' or out is not None or isinstance(axis, tuple):
        raise Unsupported('quantile options')
    s = f_sort(a, axis)
    s = s if axis is None else np.moveaxis(s, axis, 0)
    n = s.shape[0]

    def one(x):
        if not 0 <= x <= 1:
            raise ValueError('Quantiles must be in the range [0, 1]')
        i = int(np.floor(x * (n - 1)))
        f = x * (n - 1) - i
        return s[i] if f == 0 else s[i] + (s[min(i + 1, n - 1)] - s[i]) * f
    q = to_real(q)
    if np.ndim(q) == 0:
        return one(float(q))
    return asarray([one(float(x)) for x in np.ravel(q)])


def f_percentile(a, q, *args, **kw):
    return f_quantile(a, np.asarray(to_real(q)) / 100, *args, **kw)


def f_median(a, axis=None, **kw):
    return f_quantile(a, 0.5, axis, **kw)


def f_argsort(a, axis=-1, **kw):
    a = asarray(a)
    if not has_sym(a):
        return from_real(np.argsort(to_real(a), axis=axis, **kw))
    import functools as ft
    v = a.view(RND)
    return from_real(np.array(sorted(range(len(v)), key=ft.cmp_to_key(lambda i, j: _cmp(v[i], v[j])))))


def f_copy(a, order='K', subok=False):
    return asarray(a, copy=True)


def f_array_str(a, *args, **kw):
    a = asarray(a)
    if not has_sym(a):
        return np.array_str(to_real(a), *args, **kw)
    if args or kw:
        raise Unsupported('array_str options')
    from . import text

    def show(x):
        if isinstance(x, np.ndarray):
            return '[' + ' '.join(show(y) for y in x) + ']'
        if isinstance(x, S) and x.kind == 'f':     # eight digits, in plain notation after the point, else in all
            return text.marker(text.Text(x.re, 'rel', 6e-8))
        return str(x)
    return show(a.view(RND))


def f_interp(x, xp, fp, left=None, right=None, period=None):
    if not has_sym([x, xp, fp, left, right]):
        return from_real(np.interp(*to_real([x, xp, fp, left, right]), period=period))
    if period is not None:
        raise Unsupported('interp with a period')
    xp, fp = [list(asarray(v)) for v in (xp, fp)]

    def one(v):
        if v < xp[0]:
            return fp[0] if left is None else left
        if v > xp[-1]:
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if v <= xp[i + 1]:
                return fp[i] + (fp[i + 1] - fp[i]) * ((v - xp[i]) / (xp[i + 1] - xp[i]))
        return fp[-1]
    x = _norm_in(x)
    if not isinstance(x, RND):
        return one(x)
    return wrap_list([one(v) for v in x.reshape(-1)], joink('f', kind_elem(fp[0]))).reshape(x.shape)


def f_copyto(dst, src, casting='same_kind', where=True):
    if not isinstance(dst, SymArray):
        raise Unsupported('copyto')
    dst[...] = src if where is True else f_where(where, src, dst)


def f_putmask(a, mask, values):
    if not isinstance(a, SymArray):
        raise Unsupported('putmask')
    v = asarray(values)
    if v.ndim and v.shape != a.shape:
        v = asarray(np.resize(to_obj(v), a.shape))
    a[...] = f_where(mask, v, a)


def f_place(a, mask, values):
    if asarray(values).size != 1:
        raise Unsupported('place')
    f_putmask(a, mask, asarray(values).reshape(-1)[0])


def f_bincount(x, weights=None, minlength=0):
    if not has_sym([x, weights]):
        return from_real(np.bincount(to_real(x), None if weights is None else to_real(weights), minlength))
    x = [operator.index(v) for v in asarray(x)]
    w = [1] * len(x) if weights is None else list(asarray(weights))
    out = [0.0 if weights is not None else 0] * max([minlength] + [v + 1 for v in x])
    for i, v in zip(x, w):
        out[i] = out[i] + v
    return asarray(out)


def f_choose(a, choices, out=None, mode='raise'):
    if not has_sym([a, list(choices)]):
        return from_real(np.choose(to_real(a), to_real(list(choices)), mode=mode))
    if mode != 'raise' or out is not None:
        raise Unsupported('choose options')
    r = choices[-1]
    for i in range(len(choices) - 2, -1, -1):
        r = f_where(call(np.equal, a, i), choices[i], r)
    return r


def f_gradient(f, *spacing, axis=None, edge_order=1):
    f = asarray(f)
    if not has_sym([f, list(spacing)]):
        r = np.gradient(to_real(f), *to_real(list(spacing)), axis=axis, edge_order=edge_order)
        return [from_real(v) for v in r] if isinstance(r, (list, tuple)) else from_real(r)
    if edge_order != 1 or isinstance(axis, tuple):
        raise Unsupported('gradient options')
    axes = range(f.ndim) if axis is None else [axis]
    out = []
    for n, ax in enumerate(axes):
        h = spacing[0] if len(spacing) == 1 else spacing[n] if spacing else 1.0
        t = np.moveaxis(f, ax, 0)
        h = asarray(h)
        d = [h[i + 1] - h[i] for i in range(t.shape[0] - 1)] if h.ndim else [h[()]] * (t.shape[0] - 1)
        rows = [(t[1] - t[0]) / d[0]]
        for i in range(1, t.shape[0] - 1):
            a, b = d[i - 1], d[i]
            rows.append(t[i - 1] * (-b / (a * (a + b))) + t[i] * ((b - a) / (a * b)) + t[i + 1] * (a / (b * (a + b))))
        rows.append((t[-1] - t[-2]) / d[-1])
        out.append(np.moveaxis(asarray(np.stack([to_obj(asarray(r)) for r in rows])), 0, ax))
    return out[0] if len(out) == 1 else out


def f_fix(x, out=None):
    return call(np.trunc, x)


def _minor(a, i, j):
    n = len(a)
    return [[a[p][q] for q in range(n) if q != j] for p in range(n) if p != i]


def _det(a):
    if len(a) == 1:
        return a[0][0]
    return sum([(-1) ** j * a[0][j] * _det(_minor(a, 0, j)) for j in range(1, len(a))], a[0][0] * _det(_minor(a, 0, 0)))


def _small(a, what):
    a = asarray(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1] or a.shape[0] > 4:
        raise Unsupported(what + ' of this size')
    return [list(r) for r in a]


def f_det(a):
    if not has_sym(a):
        return from_real(np.linalg.det(to_real(a)))
    return _det(_small(a, 'determinant'))


def f_inv(a):
    if not has_sym(a):
        return from_real(np.linalg.inv(to_real(a)))
    m = _small(a, 'inverse')
    d, n = _det(m), len(m)
    if n == 1:
        return asarray([[1.0 / d]])
    return asarray([[(-1) ** (i + j) * _det(_minor(m, j, i)) / d for j in range(n)] for i in range(n)])


def f_solve(a, b):
    if not has_sym([a, b]):
        return from_real(np.linalg.solve(to_real(a), to_real(b)))
    return call(np.matmul, f_inv(a), asarray(b))


def f_piecewise(x, condlist, funclist, *args, **kw):
    r = None
    conds = list(condlist)
    fs = list(funclist)
    base = fs.pop() if len(fs) > len(conds) else 0
    r = base(x) if callable(base) else base
    for c, f in list(zip(conds, fs))[::-1]:
        r = f_where(c, f(x) if callable(f) else f, r)
    return r


def _fns(table):
    out = {}
    for k, v in table.items():
        f = getattr(np, k, None)
        if f is not None:
            out[f] = v
    return out


FN = _fns({
    'sum': f_sum, 'mean': f_mean, 'var': f_var, 'std': f_std, 'average': f_average, 'max': f_max, 'amax': f_max,
    'min': f_min, 'amin': f_min, 'nanmax': f_max, 'nanmin': f_min, 'nansum': f_sum, 'argmax': f_argmax,
    'argmin': f_argmin, 'any': f_any, 'all': f_all, 'nonzero': f_nonzero, 'count_nonzero': f_count_nonzero,
    'where': f_where, 'select': f_select, 'isclose': f_isclose, 'allclose': f_allclose, 'array_equal': f_array_equal,
    'clip': f_clip, 'real': f_real, 'imag': f_imag, 'real_if_close': f_real_if_close, 'angle': f_angle, 'prod': f_prod,
    'round': f_around, 'around': f_around, 'einsum': f_einsum, 'diff': f_diff, 'nan_to_num': f_nan_to_num,
    'unique': f_unique, 'sort': f_sort, 'quantile': f_quantile, 'percentile': f_percentile, 'median': f_median,
    'nanquantile': f_quantile, 'nanpercentile': f_percentile, 'nanmedian': f_median, 'argsort': f_argsort, 'copy': f_copy, 'array_str': f_array_str, 'array2string': f_array_str,
    'zeros_like': c_zeros_like, 'ones_like': c_ones_like, 'empty_like': c_empty_like, 'full_like': c_full_like,
    'atleast_1d': _atleast(1, np.atleast_1d), 'atleast_2d': _atleast(2, np.atleast_2d), 'atleast_3d': _atleast(3, np.atleast_3d),
    'flatnonzero': lambda a: f_nonzero(asarray(a).reshape(-1))[0],
    'argwhere': lambda a: asarray(np.stack([to_real(x) for x in f_nonzero(a)], axis=-1)),
    'piecewise': f_piecewise, 'interp': f_interp, 'copyto': f_copyto, 'putmask': f_putmask, 'place': f_place, 'bincount': f_bincount,
    'choose': f_choose, 'gradient': f_gradient, 'fix': f_fix, 'nanmean': f_mean, 'nanstd': f_std, 'nanvar': f_var, 'nanprod': f_prod,
    'nanargmax': f_argmax, 'nanargmin': f_argmin,
    'iscomplexobj': lambda x: kind_of(_norm_in(x)) == 'c', 'isrealobj': lambda x: kind_of(_norm_in(x)) != 'c',
    'isreal': lambda x: asarray(x).imag == 0,
    'result_type': lambda *a: np.result_type(*[_DT[x._k] if isinstance(x, SymArray) else (_DT[x.kind] if isinstance(x, S) else x) for x in a]),
    'shape': lambda a: asarray(a).shape, 'ndim': lambda a: asarray(a).ndim, 'size': lambda a, axis=None: asarray(a).size if axis is None else asarray(a).shape[axis],
    'ptp': lambda a, axis=None, **k: f_max(a, axis=axis) - f_min(a, axis=axis),
})
FN[np.linalg.norm] = f_linalg_norm
FN[np.linalg.det], FN[np.linalg.inv], FN[np.linalg.solve] = f_det, f_inv, f_solve

# functions that only move elements around: always run on the object arrays so that views stay views
STRUCT = {getattr(np, n) for n in (
    'reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'squeeze', 'expand_dims', 'broadcast_to',
    'broadcast_arrays', 'concatenate', 'stack', 'hstack', 'vstack', 'dstack', 'column_stack', 'row_stack', 'split',
    'array_split', 'hsplit', 'vsplit', 'dsplit', 'tile', 'repeat', 'roll', 'flip', 'fliplr', 'flipud', 'rot90', 'take',
    'take_along_axis', 'delete', 'append', 'insert', 'diag', 'diagonal', 'triu', 'tril', 'resize', 'compress', 'extract',
    'meshgrid', 'block', 'pad', 'unravel_index', 'ravel_multi_index', 'place', 'put', 'putmask', 'copyto', 'ix_',
    'trim_zeros', 'matrix_transpose') if hasattr(np, n)}


def _realidx(a):
    """Index-like arguments of structural functions: concrete integer arrays become native."""
    if isinstance(a, SymArray) and a._k in ('i', 'b') and not has_sym(a):
        return to_real(a)
    return a


def _obj_lists(a):
    """Lists of scalars with symbolic members become object arrays."""
    if isinstance(a, (list, tuple)):
        if a and all(not isinstance(x, (list, tuple, RND)) for x in a) and any(is_sym(x) for x in a):
            return to_obj(asarray(a))
        return type(a)(_obj_lists(x) for x in a)
    if isinstance(a, (S, SBool)):
        o = np.empty((), dtype=object)
        o[()] = a
        return o
    return to_obj(a)


def _wrap_deep(r, k):
    if isinstance(r, RND):
        if isinstance(r, SymArray):
            return r
        if r.dtype == object:
            if k is not None and k != 'o':
                v = r.view(SymArray)
                v._k = k
                return v
            return wrap(r, None)
        return from_real(r)
    if type(r) in (list, tuple):
        return type(r)(_wrap_deep(x, k) for x in r)
    return r


def array_function(func, args, kwargs):
    f = FN.get(func)
    if f is not None:
        return f(*args, **kwargs)
    if func in STRUCT:
        name = func.__name__
        if name in ('take', 'take_along_axis', 'delete', 'insert', 'repeat', 'compress', 'extract', 'roll'):
            args = (args[0],) + tuple(_realidx(a) for a in args[1:]) if name not in ('compress', 'extract') else \
                (index_of(args[0]) if isinstance(args[0], SymArray) else args[0],) + tuple(args[1:])
            kwargs = {k: _realidx(v) for k, v in kwargs.items()}
        if name in ('unravel_index', 'ravel_multi_index', 'ix_'):
            return from_real(func(*to_real(list(args)), **kwargs))
        if name in ('copyto', 'place', 'put', 'putmask'):
            raise Unsupported(name)
        ks = [kind_of(a) for a in (args[0] if isinstance(args[0], (list, tuple)) else args[:1])]
        if name in ('append', 'insert', 'concatenate', 'stack', 'hstack', 'vstack', 'dstack', 'column_stack', 'block'):
            k = None
        elif name in ('meshgrid', 'broadcast_arrays'):
            k = None
        else:
            k = ks[0] if ks else None
        if name in ('compress', 'extract'):
            k = kind_of(args[1] if len(args) > 1 else kwargs['a' if name == 'compress' else 'arr'])
        r = func(*[_obj_lists(a) for a in args], **{kk: _obj_lists(v) for kk, v in kwargs.items()})
        if k is None and name not in ('meshgrid', 'broadcast_arrays'):
            seq = args[0] if name not in ('append', 'insert') else [args[0], args[-1]]
            k = 'b'
            for a in seq:
                k = joink(k, kind_of(a))
            r = _wrap_deep(r, None)
            if isinstance(r, SymArray) and r._k != k:
                r = r.astype(k)
            return r
        return _wrap_deep(r, k)
    sym_in = has_sym(list(args)) or has_sym(kwargs)
    if not sym_in:
        return from_real(func(*to_real(list(args)), **to_real(kwargs)))
    try:
        r = func(*[_obj_lists(a) for a in args], **{k: _obj_lists(v) for k, v in kwargs.items()})
    except (Unsupported, sym.PathAbort):
        raise
    except (TypeError, ValueError, AttributeError) as e:
        raise Unsupported('%s on symbolic values: %s' % (getattr(func, '__name__', func), e))
    return _wrap_deep(r, None)
