"""The numpy seen by the loaded code: creation functions make symbolic-capable arrays, everything else dispatches."""
import math
import operator
import os
import types
import numpy as np

from . import arr, sym, text
from . import poly as P
from .arr import RND, SymArray, from_real, to_real, has_sym, asarray
from .sym import S, SBool, Unsupported


class Ufunc:
    """A numpy ufunc accepting lists and symbolic scalars, returning symbolic-capable arrays."""

    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **kw):
        n = self._u.nin
        if len(a) > n:
            kw['out'] = a[n]
            a = a[:n]
        a = [asarray(x) if isinstance(x, (list, tuple)) else x for x in a]
        return arr.array_ufunc(self._u, '__call__', a, kw)

    def reduce(self, a, axis=0, **kw):
        return arr.array_ufunc(self._u, 'reduce', [asarray(a)], dict(kw, axis=axis))

    def accumulate(self, a, axis=0, **kw):
        return arr.array_ufunc(self._u, 'accumulate', [asarray(a)], dict(kw, axis=axis))

    def outer(self, a, b, **kw):
        return arr.array_ufunc(self._u, 'outer', [a, b], kw)

    def at(self, *a):
        return arr.array_ufunc(self._u, 'at', list(a), {})

    def __getattr__(self, n):
        return getattr(self._u, n)


class _CastMeta(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, (S, SBool)):
            return arr.cast_scalar(x, cls._np_kind)
        if isinstance(x, SymArray):
            if x.ndim == 0:
                return arr.cast_scalar(x[()], cls._np_kind)
            return x.astype(cls._np_kind)
        if isinstance(x, (list, tuple)):
            return asarray(x, cls._np_kind)
        return cls._np(x, *a)

    def __instancecheck__(cls, x):
        return isinstance(x, cls._np) or (isinstance(x, S) and x.kind == cls._np_kind)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._np) if c is not cls else True

    def __eq__(cls, o):
        return o is cls or o is cls._np or o == np.dtype(cls._np)

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls._np)

    @property
    def dtype(cls):
        return np.dtype(cls._np)


def _cast(np_type, kind):
    return _CastMeta(np_type.__name__, (), {'_np': np_type, '_np_kind': kind})


CASTS = {}
for _n, _k in (('float64', 'f'), ('double', 'f'), ('float32', 'f'), ('longdouble', 'f'), ('int64', 'i'), ('int32', 'i'),
               ('intp', 'i'), ('int_', 'i'), ('complex128', 'c'), ('complex64', 'c'), ('bool_', 'b'), ('bool', 'b')):
    if hasattr(np, _n):
        CASTS[_n] = _cast(getattr(np, _n), _k)


def kw_dtype(kw):
    d = kw.get('dtype')
    if d is not None and getattr(d, '_np_kind', None):
        kw = dict(kw, dtype=arr._DT[d._np_kind])
    return kw


class Vectorize:
    """np.vectorize: element by element, first output decides the type; usable as a method decorator."""

    def __init__(self, pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.otypes, self.excluded, self.signature = otypes, set(excluded or ()), signature
        self.pyfunc = pyfunc
        if signature is not None:
            raise Unsupported('vectorize signature')
        self.__name__ = getattr(pyfunc, '__name__', 'vectorized')

    def __call__(self, *args, **kw):
        if self.pyfunc is None:
            self.pyfunc = args[0]
            return self
        names = sorted(kw)
        ins = list(args) + [kw[n] for n in names]
        fixed = [i for i in range(len(args)) if i in self.excluded] + \
                [len(args) + j for j, n in enumerate(names) if n in self.excluded]
        arrs = []
        for i, x in enumerate(ins):
            if i in fixed:
                arrs.append(None)
            elif isinstance(x, (RND, list, tuple, S, SBool)) or sym.isconc(x):
                arrs.append(asarray(x).view(RND))
            else:
                o = np.empty((), dtype=object)
                o[()] = x
                arrs.append(o)
        shape = np.broadcast_shapes(*[a.shape for a in arrs if a is not None])
        flat = [None if a is None else np.broadcast_to(a, shape).reshape(-1) for a in arrs]
        n = int(np.prod(shape)) if shape else 1
        if n == 0:
            if self.otypes is None:
                raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
            return arr.c_zeros(shape, np.dtype(self.otypes[0]))
        outs = []
        for i in range(n):
            xs = [ins[j] if f is None else _np_scalar(f[i], ins[j]) for j, f in enumerate(flat)]
            outs.append(self.pyfunc(*xs[:len(args)], **dict(zip(names, xs[len(args):]))))
        tup = isinstance(outs[0], tuple)
        cols = list(zip(*outs)) if tup else [outs]
        res = []
        for c in cols:
            vals = [v.view(RND)[()] if isinstance(v, RND) and v.ndim == 0 else v for v in c]
            vals = [v.item() if isinstance(v, np.generic) else v for v in vals]
            if any(isinstance(v, RND) for v in vals):
                raise ValueError('setting an array element with a sequence.')
            r = arr.wrap_list(vals, None)
            k = arr.kind_elem(vals[0])
            if self.otypes is not None:
                k = arr.kind_of_dtype(np.dtype(self.otypes[len(res)]))
            if r._k != k and k != 'o':
                r = r.astype(k)
            res.append(r.reshape(shape))
        return tuple(res) if tup else res[0]


def _np_scalar(x, like):
    if sym.isconc(x) and not isinstance(x, bool):
        return arr.unbox(x, arr.kind_elem(x))
    return x


class RandomNS(types.ModuleType):
    """numpy.random: arbitrary values within the documented support."""

    def __init__(self):
        super().__init__('numpy.random')

    def _draw(self, size, tag, lo, hi, f):
        def one():
            a = sym.cur().fresh_input(tag, lo, hi)
            if a is None:
                return f(0.37)
            return f(sym.mk({((a.id, 1),): 1}, None, 'f'))
        if size is None:
            return one()
        return arr.filled(size, one, 'f')

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw(size, 'normal', -8.0, 8.0, lambda z: loc + scale * z)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *shape):
        return self.normal(size=shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(size, 'uniform', 0.0, 1.0, lambda u: low + (high - low) * u)

    def random(self, size=None):
        return self.uniform(size=size)
    rand = lambda self, *shape: self.uniform(size=shape or None)
    random_sample = random

    def seed(self, *a):
        pass

    def default_rng(self, *a):
        return self

    def RandomState(self, *a):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('numpy.random.' + n)


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym([start, stop]):
        return from_real(np.linspace(to_real(start), to_real(stop), operator.index(num), endpoint=endpoint,
                                     retstep=retstep, dtype=None if dtype is None else arr._DT[arr.kind_of_dtype(dtype)]))
    num = operator.index(num)
    div = (num - 1) if endpoint else num
    step = (stop - start) / div if div > 0 else float('nan')
    xs = [start + step * i for i in range(num)]
    if endpoint and num > 1:
        xs[-1] = stop + 0 * start
    r = arr.wrap_list(xs, 'f')
    return (r, step) if retstep else r


def _arange(*a, **kw):
    kw = kw_dtype(kw)
    if has_sym(list(a)):
        if all(not isinstance(x, S) or x.kind == 'i' for x in a):
            a = [operator.index(x) for x in a]
        else:
            raise Unsupported('arange with symbolic reals')
    return from_real(np.arange(*to_real(list(a)), **kw))


def _iscomplexobj(x):
    return arr.kind_of(arr._norm_in(x)) == 'c'


def _isscalar(x):
    return isinstance(x, (S, SBool)) or np.isscalar(x)


def _fromiter(it, dtype, count=-1):
    return asarray(list(it), dtype)


def _trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if axis not in (-1, y.ndim - 1):
        raise Unsupported('trapezoid axis')
    d = dx if x is None else arr.f_diff(asarray(x))
    return arr.f_sum(d * (y[..., 1:] + y[..., :-1]) / 2.0, axis=-1)


def _ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    return np.ndindex(*[operator.index(s) for s in shape])


def _nditer(op, flags=None, op_flags=None, order='K', **k):
    if flags or op_flags or k or order not in 'KC':
        raise Unsupported('nditer options')
    many = isinstance(op, (list, tuple))
    xs = [asarray(x) for x in (op if many else [op])]
    shape = np.broadcast_shapes(*[x.shape for x in xs])
    xs = [np.broadcast_to(x, shape) for x in xs]
    for i in np.ndindex(shape):
        r = tuple(x[i] for x in xs)
        yield r if many else r[0]


class _FromPyFunc:
    def __init__(self, f, nin, nout, **kw):
        self.v, self.nin, self.nout = Vectorize(f), nin, nout

    def __call__(self, *a):
        if all(not isinstance(x, (RND, list, tuple)) for x in a):
            return self.v.pyfunc(*a)
        return self.v(*a)


def _modf(x):
    if not has_sym(x):
        return tuple(from_real(v) for v in np.modf(to_real(x)))
    t = arr.call(np.trunc, x)
    return x - t, t


def _ndenumerate(a):
    a = asarray(a)
    for i in np.ndindex(a.shape):
        yield i, a[i]


def _errstate(*a, **kw):
    return np.errstate(*a, **kw)


def _vander(*a, **k):
    raise Unsupported('vander')


def _text_table(skip_name):
    def read(fname, dtype=float, **kw):
        skip = operator.index(kw.pop(skip_name, 0))
        comments = kw.pop('comments', '#')
        if kw.pop('encoding', None) not in (None, 'utf-8', 'utf8') or kw or dtype is not float or not isinstance(fname, (str, os.PathLike)):
            raise Unsupported('text table reader options')
        with open(fname, encoding='utf-8') as f:
            lines = f.read().split('\n')[skip:]
        rows = [ln.split(comments)[0].split() for ln in lines]
        rows = [r for r in rows if r]
        if any(len(r) != len(rows[0]) for r in rows):
            raise ValueError('rows of different length')

        def num(t):
            v = text.parse(t, 'f')
            return float(t) if v is None else v
        x = asarray([[num(t) for t in r] for r in rows])
        return np.squeeze(x) if min(x.shape) == 1 else x
    return read


def _apply_along_axis(f, axis, a, *args, **kw):
    a = asarray(a)
    t = np.moveaxis(a, axis, -1)
    shp = t.shape[:-1]
    res = {}
    for i in np.ndindex(shp):
        res[i] = f(t[i], *args, **kw)
    first = asarray(next(iter(res.values())))
    out = arr.filled(shp + first.shape, 0, first._k)
    for i, v in res.items():
        out[i] = v
    return np.moveaxis(out, -1, axis) if first.ndim else out


class _Concatenator:
    """np.r_ and np.c_: the real object when nothing is symbolic, else concatenation of one-dimensional items."""

    def __init__(self, real, columns):
        self._real, self._columns = real, columns

    def __getitem__(self, key):
        items = key if isinstance(key, tuple) else (key,)
        if not has_sym(list(items)):
            return from_real(self._real[to_real(key)])
        if any(isinstance(x, (str, bytes)) for x in items):
            raise Unsupported('np.r_ with a directive')
        parts = []
        for x in items:
            if isinstance(x, slice):
                x = from_real(np.r_[x])
            x = asarray(x)
            if x.ndim == 0:
                x = x.reshape((1,))
            if self._columns and x.ndim == 1:
                x = x.reshape((-1, 1))
            parts.append(x)
        return arr.array_function(np.concatenate, (parts,), {'axis': -1 if self._columns else 0})


class Module(types.ModuleType):
    """A stand-in module: explicit overrides first, then the real module's members suitably wrapped."""

    def __init__(self, real, table, wrap_default):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table
        self.__dict__['_wrapd'] = wrap_default

    def __getattr__(self, n):
        t = self.__dict__['_table']
        if n in t:
            return t[n]
        v = getattr(self.__dict__['_real'], n)
        w = self.__dict__['_wrapd'](n, v)
        t[n] = w
        return w


def wrap_np_member(n, v):
    if isinstance(v, np.ufunc):
        return Ufunc(v)
    if isinstance(v, types.ModuleType):
        return v
    if isinstance(v, type) or not callable(v):
        return v

    def f(*a, **kw):
        kw = kw_dtype(kw)
        return arr.array_function(v, a, kw)
    f.__name__ = n
    return f


def make_numpy():
    t = {
        'zeros': arr.c_zeros, 'ones': arr.c_ones, 'empty': arr.c_empty, 'full': arr.c_full, 'array': arr.c_array,
        'asarray': arr.c_asarray, 'asanyarray': arr.c_asarray, 'ascontiguousarray': lambda a, dtype=None: asarray(a, dtype),
        'zeros_like': arr.c_zeros_like, 'ones_like': arr.c_ones_like, 'empty_like': arr.c_empty_like,
        'full_like': arr.c_full_like, 'linspace': _linspace, 'arange': _arange, 'vectorize': Vectorize,
        'iscomplexobj': _iscomplexobj, 'isscalar': _isscalar, 'fromiter': _fromiter, 'ndindex': _ndindex,
        'modf': _modf, 'nditer': _nditer, 'frompyfunc': _FromPyFunc, 'ndenumerate': _ndenumerate, 'errstate': _errstate, 'trapezoid': _trapezoid,
        'apply_along_axis': _apply_along_axis, 'r_': _Concatenator(np.r_, False), 'c_': _Concatenator(np.c_, True), 'ndarray': np.ndarray,
        'random': RandomNS(), 'linalg': Module(np.linalg, {}, wrap_np_member),
        'eye': lambda *a, **k: from_real(np.eye(*to_real(list(a)), **kw_dtype(k))),
        'identity': lambda *a, **k: from_real(np.identity(*a, **kw_dtype(k))),
        'dtype': np.dtype, 'genfromtxt': _text_table('skip_header'), 'loadtxt': _text_table('skiprows'),
    }
    t.update(CASTS)
    return Module(np, t, wrap_np_member)
