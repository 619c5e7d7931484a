"""The two faces of a harness: SymCtx runs it over symbolic inputs on the encoded code, ConcCtx on the real code."""
import importlib
import io
import contextlib
import math
import os
import random
import shutil
import sys
import tempfile
import numpy as np

from . import arr, engine, loader, npx, sym, text
from . import poly as P
from .arr import RND, SymArray
from .engine import Obligation, TOL
from .sym import S, SBool, Unsupported, PathAbort, isconc, lift, mk

PI = math.pi


class Skip(BaseException):
    """The sampled concrete inputs violate an assumption."""


def elems(x):
    """(shape, flat list of scalars) of anything array-like."""
    if isinstance(x, (S, SBool)) or isconc(x):
        return (), [x]
    if isinstance(x, SymArray):
        return x.shape, list(x.view(RND).reshape(-1))
    if isinstance(x, RND):
        return x.shape, list(x.reshape(-1).tolist())
    if isinstance(x, (list, tuple)):
        parts = [elems(y) for y in x]
        if not parts:
            return (0,), []
        shp = parts[0][0]
        if any(p[0] != shp for p in parts):
            return ('ragged',) + tuple(p[0] for p in parts), [e for p in parts for e in p[1]]
        return (len(parts),) + shp, [e for p in parts for e in p[1]]
    if hasattr(x, '__iter__'):
        return elems(list(x))
    if hasattr(x, 'dtype') and hasattr(x, 'item'):
        return elems(x.item())
    raise TypeError('not a value: %r' % (x,))


class _Base:
    PI = PI

    def pkg(self, name):
        return self.mod(name)

    # ---- what the caller keeps: arrays and coefficient sets handed over are not changed by the code under test
    def keep(self, x):
        if not hasattr(self, 'kept'):
            self.kept = []
        self.kept.append((x, _content(x)))
        return x

    def give(self, x):
        """The harness itself is going to change x (or the code is meant to)."""
        self.kept = [(y, c) for y, c in getattr(self, 'kept', []) if y is not x]
        return x

    def forget(self):
        """Drop the statements made so far."""
        del (self.obs if self.symbolic else self.failures)[:]

    def check_kept(self):
        for i, (x, c) in enumerate(getattr(self, 'kept', [])):
            now = _content(x)
            if now[0] != c[0]:
                self.fail('argument %d left as it was' % i, '%s instead of %s' % (now[0], c[0]))
                continue
            d = [(a, b) for a, b in zip(now[1], c[1]) if not (a is b or isconc(a) and isconc(b) and (a == b or a != a and b != b))]
            self.same('argument %d left as it was' % i, [a for a, b in d], [b for a, b in d])
        self.kept = []


def _content(x):
    """(shape or keys, values) of an array or coefficient set."""
    if hasattr(x, 'contents'):
        items = [((int(k[0]), int(k[1])), elems(v)) for k, v in x.contents()] + [('default', elems(x.default_coefficients))]
        return [(k, v[0]) for k, v in items], [e for k, v in items for e in v[1]]
    if hasattr(x, 'polar_corners') and hasattr(x, 'azimuthal_corners'):
        parts = [elems(x.polar_corners), elems(x.azimuthal_corners)]
        return [p[0] for p in parts], [e for p in parts for e in p[1]]
    if hasattr(x, 'alpha') and hasattr(x, 'degrees_l'):
        parts = [elems(getattr(x, n)) for n in ('degrees_l', 'orders_m', 'alpha', 'beta', 'gamma')]
        return [p[0] for p in parts], [e for p in parts for e in p[1]]
    try:
        return elems(x)
    except TypeError:
        return type(x).__name__, []


class SymCtx(_Base):
    symbolic = True

    def __init__(self, ex, pins=None, overrides=None):
        self.ex = ex
        self.loader = loader.Loader(overrides)
        self.np = loader.proxy('numpy')
        self.pins = pins
        self.pinned = {}
        self.obs = ex.obligations
        self.logged = []
        self._tmp = None
        self._overr = []

    def mod(self, name):
        self.loader.load(loader.PKG)
        return self.loader.load(loader.PKG + '.' + name)

    # ---- inputs
    def _pin(self, name, lo, hi, isint=False):
        r = random.Random('%s:%s' % (self.pins, name))
        lo, hi = max(lo, -3.0), min(hi, 3.0) if hi > -3 else hi
        v = r.randint(int(lo), int(hi)) if isint else lo + (0.05 + 0.9 * r.random()) * (hi - lo)
        self.pinned[name] = v
        return v

    def real(self, name, lo=-10.0, hi=10.0, los=False, his=False, lin=False, kind='f'):
        if self.pins is not None and not lin:
            return np.float64(self._pin(name, lo, hi))
        a = self.ex.new_var(name, float(lo), float(hi), los, his)
        return mk({((a.id, 1),): 1}, None, kind)

    def angle(self, name, lo=0.0, hi=2 * PI, unit=1.0, los=False, his=False):
        if self.pins is not None:
            return np.float64(self._pin(name, lo, hi))
        a = self.ex.new_var(name, float(lo), float(hi), los, his)
        sym.declare_unit(((a.id, 1),), unit)
        return mk({((a.id, 1),): 1}, None, 'f')

    def cplx(self, name, lo=-10.0, hi=10.0, lin=True):
        re, im = self.real(name + '.re', lo, hi, lin=lin), self.real(name + '.im', lo, hi, lin=lin)
        return arr.cast_elem(lift(re), 'c') + 1j * lift(im)

    def int(self, name, lo, hi):
        a = self.ex.new_var(name, lo, hi, isint=True)
        return mk({((a.id, 1),): 1}, None, 'i')

    def choice(self, name, options):
        """A free choice among the options (explored exhaustively)."""
        options = list(options)
        k = self.ex.choose(len(options))
        self.ex.choices[name] = k
        return options[k]

    def flag(self, name):
        return self.choice(name, [False, True])

    def array(self, x, dtype=None):
        return self.keep(arr.asarray(x, dtype, copy=True))

    # ---- values for oracles
    def eval(self, x):
        return x

    def scalar(self, x):
        return x

    # ---- statements
    def assume(self, c):
        self.ex.assume(self._b(c))

    def _b(self, c):
        if isinstance(c, SymArray):
            c = arr.f_all(c)
        if isinstance(c, RND):
            c = bool(c.all())
        return c if isinstance(c, SBool) else bool(c)

    def true(self, label, c):
        self.obs.append(Obligation(label, 'true', self._b(c), 0.0))

    def fail(self, label, why=''):
        o = Obligation(label, 'true', False, 0.0)
        o.note = why
        self.obs.append(o)

    def same(self, label, got, want):
        """Structural equality of Python values (numbers inside may be symbolic)."""
        c = _same(got, want)
        self.true(label, c)

    def eq(self, label, got, want, tol=TOL, log=True, rtol=None, atol=None):
        gs, g = elems(got)
        ws, w = elems(want)
        if gs != ws:
            return self.fail(label, 'shape %s, expected %s' % (gs, ws))
        if log:
            self.logged.append((label, g))
        scale = max([abs(complex(x)) for x in w + g if isconc(x) and sym._finite(x)] + [1e-300])
        for i, (x, y) in enumerate(zip(g, w)):
            if isinstance(x, SBool) or isinstance(y, SBool):
                self.obs.append(Obligation('%s[%d]' % (label, i), 'true', _same(x, y), 0.0))
                continue
            if not isinstance(x, S) and not isinstance(y, S):
                if _bad(x) or _bad(y):
                    if not (x == y or (x != x and y != y)):
                        self.fail('%s[%d]' % (label, i), '%r instead of %r' % (x, y))
                elif abs(complex(x) - complex(y)) > 1e-8 * max(abs(complex(x)), abs(complex(y))) + 1e-10 * scale + (atol or 0.0):
                    self.fail('%s[%d]' % (label, i), '%r instead of %r' % (x, y))
                else:
                    o = Obligation('%s[%d]' % (label, i), 'true', True, 0.0)
                    self.obs.append(o)
                continue
            if isconc(x) and _bad(x) or isconc(y) and _bad(y):
                self.fail('%s[%d]' % (label, i), '%r instead of %r' % (x, y))
                continue
            x, y = lift(x), lift(y)
            self.obs.append(Obligation('%s[%d]' % (label, i), 'zero', (x.re, y.re, atol or 0.0), tol))
            if x.ci or y.ci:
                self.obs.append(Obligation('%s[%d].im' % (label, i), 'zero', (x.ci, y.ci, atol or 0.0), tol))

    def close(self, label, got, want, rel=0.0, abs_=0.0):
        """|got - want| <= rel*|want| + abs_, element by element."""
        gs, g = elems(got)
        ws, w = elems(want)
        if gs != ws:
            return self.fail(label, 'shape %s, expected %s' % (gs, ws))
        for i, (x, y) in enumerate(zip(g, w)):
            for part in ('real', 'imag'):
                a, b = getattr(x, part), getattr(y, part)
                if not isinstance(a, S) and not isinstance(b, S):
                    self.true('%s[%d]' % (label, i), bool(abs(a - b) <= rel * abs(b) * (1 + 1e-9) + abs_ + 1e-300))
                    continue
                if not rel:
                    d = lift(a) - b
                    if isinstance(d, S):
                        o = Obligation('%s[%d].%s' % (label, i, part), 'within', d.re, abs_)
                        o.cond = lambda d=d: sym.b_and(d <= abs_, -d <= abs_)
                        self.obs.append(o)
                        continue
                t = rel * sym.s_abs(lift(b)) + abs_ if rel else abs_
                d = lift(a) - b
                if isconc(d) and abs(d) <= 1e-12:
                    self.true('%s[%d]' % (label, i), True)
                    continue
                self.obs.append(Obligation('%s[%d].%s' % (label, i, part), 'true', sym.b_and(d <= t, -d <= t), 0.0))

    def raises(self, label, fn, exc=Exception):
        """fn must raise exc."""
        try:
            fn()
        except exc:
            self.obs.append(Obligation(label, 'true', True, 0.0))
            return True
        self.fail(label, 'no exception')
        return False

    def attempt(self, fn, exc=Exception):
        try:
            return True, fn()
        except exc as e:
            return False, e

    # ---- environment
    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='symx_')
        return self._tmp

    def num_text(self, x, conv='r', prec=6):
        """A token denoting the number x, as some writer may have produced it."""
        if isinstance(x, S):
            return text.format_real(x.re, conv, prec, x.kind == 'i')
        return ('%.*' + conv) % (prec, x) if conv != 'r' else repr(float(x) if not isinstance(x, int) else x)

    def read_num(self, s):
        """The number a string denotes."""
        v = text.parse(s, 'f')
        return float(s) if v is None else v

    def split_g(self):
        """From now on %g explores plain and exponent notation."""
        self.ex.split_g = True

    def close_ctx(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
        self._tmp = None


class WarmCtx(SymCtx):
    """An earlier use of the same loaded modules with other, fixed inputs: its statements are not judged."""

    def __init__(self, ctx, seed):
        self.ex, self.loader, self.np = ctx.ex, ctx.loader, ctx.np
        self.pins, self.pinned, self.obs, self.logged, self._tmp, self._overr = 'warm%s' % seed, {}, [], [], None, []
        self.rng = random.Random('warm%s' % seed)

    def real(self, name, lo=-10.0, hi=10.0, los=False, his=False, lin=False, kind='f'):
        return np.float64(warm_real(self.rng, lo, hi))

    def angle(self, name, lo=0.0, hi=2 * PI, unit=1.0, los=False, his=False):
        return self.real(name, lo, hi)

    def cplx(self, name, lo=-10.0, hi=10.0, lin=True):
        return complex(self.real(name, lo, hi), self.real(name, lo, hi))

    def int(self, name, lo, hi):
        return self.rng.randint(lo, hi)

    def choice(self, name, options):
        options = list(options)
        return options[self.rng.randrange(len(options))]

    def assume(self, c):
        if not bool(np.all(c)):
            raise Skip()

    def _nothing(self, *a, **kw):
        return None

    true = fail = same = eq = close = split_g = _nothing


def warm_real(rng, lo, hi):
    return lo + (0.02 + 0.96 * rng.random()) * (hi - lo)


def _bad(x):
    return not sym._finite(x)


def _same(a, b):
    if isinstance(a, (S, SBool)) or isinstance(b, (S, SBool)):
        r = (a == b)
        return r if isinstance(r, SBool) else bool(r)
    if isinstance(a, RND) or isinstance(b, RND):
        sa, ea = elems(a)
        sb, eb = elems(b)
        if sa != sb:
            return False
        return sym.b_and(*[_same(x, y) for x, y in zip(ea, eb)])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return sym.b_and(True, *[_same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return sym.b_and(True, *[_same(a[k], b[k]) for k in a])
    if isconc(a) and isconc(b):
        return bool(a == b or (a != a and b != b))
    return type(a) == type(b) and bool(a == b)


# ==================================================================================== concrete

_real = {}


def real_module(name):
    if name not in _real:
        if loader.REPO not in sys.path:
            sys.path.insert(0, loader.REPO)
        m = importlib.import_module(loader.PKG + '.' + name)
        if not os.path.abspath(m.__file__).startswith(os.path.abspath(loader.REPO) + os.sep):
            raise RuntimeError('wrong package: ' + m.__file__)
        _real[name] = m
    return _real[name]


def forget():
    """The next run imports the real code anew, so that nothing it remembers from earlier runs is seen."""
    for n in [n for n in sys.modules if n == loader.PKG or n.startswith(loader.PKG + '.')]:
        del sys.modules[n]
    _real.clear()


class ConcCtx(_Base):
    symbolic = False

    def __init__(self, values, choices=None, seed=0, rel=2e-7):
        self.values, self.choices = dict(values), dict(choices or {})
        self.rng = random.Random(seed)
        self.np = np
        self.rel = rel
        self.failures = []
        self.logged = []
        self.checked = 0
        self._tmp = None

    def mod(self, name):
        return real_module(name)

    @contextlib.contextmanager
    def patched(self):
        """Sources of randomness return the values of the replayed run."""
        count = {}
        rng = self.rng

        def draw(tag, default):
            n = count.get(tag, 0)
            count[tag] = n + 1
            name = '%s!%d' % (tag, n)
            if name not in self.values:
                self.values[name] = default()
            return self.values[name]
        old = random.random
        random.random = lambda: draw('random', rng.random)
        try:
            yield
        finally:
            random.random = old

    def real(self, name, lo=-10.0, hi=10.0, los=False, his=False, lin=False, kind='f'):
        v = self.values.get(name)
        if v is None:
            v = lo + self.rng.random() * (hi - lo)
            self.values[name] = v
        return np.float64(v)

    def angle(self, name, lo=0.0, hi=2 * PI, unit=1.0, los=False, his=False):
        return self.real(name, lo, hi)

    def cplx(self, name, lo=-10.0, hi=10.0, lin=True):
        return complex(self.real(name + '.re', lo, hi), self.real(name + '.im', lo, hi))

    def int(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            v = self.rng.randint(lo, hi)
            self.values[name] = v
        return int(v)

    def choice(self, name, options):
        options = list(options)
        if name not in self.choices:
            self.choices[name] = self.rng.randrange(len(options))
        return options[self.choices[name]]

    def flag(self, name):
        return self.choice(name, [False, True])

    def array(self, x, dtype=None):
        return self.keep(np.array(x, dtype=getattr(dtype, '_np', dtype)))

    def assume(self, c):
        if not np.all(c):
            raise Skip()

    def fail(self, label, why=''):
        self.failures.append((label, why))

    def true(self, label, c):
        self.checked += 1
        if not np.all(c):
            self.fail(label, 'condition is false')

    def same(self, label, got, want):
        self.checked += 1
        if not _same(got, want):
            self.fail(label, '%s instead of %s' % (_short(got), _short(want)))

    def eq(self, label, got, want, tol=TOL, log=True, rtol=None, atol=None):
        gs, g = elems(got)
        ws, w = elems(want)
        self.checked += 1
        if gs != ws:
            return self.fail(label, 'shape %s, expected %s' % (gs, ws))
        if log:
            self.logged.append((label, g))
        scale = max([abs(complex(x)) for x in w + g if not _bad(x)] + [0.0])
        for i, (x, y) in enumerate(zip(g, w)):
            if _bad(x) or _bad(y):
                if not (x == y or (x != x and y != y)):
                    self.fail('%s[%d]' % (label, i), '%r instead of %r' % (x, y))
                continue
            x, y = complex(x), complex(y)
            if abs(x - y) > (rtol or self.rel) * max(abs(x), abs(y)) + 1e-9 * scale + (atol or 1e-14):
                self.fail('%s[%d]' % (label, i), '%r instead of %r' % (x if x.imag or y.imag else x.real,
                                                                       y if x.imag or y.imag else y.real))

    def close(self, label, got, want, rel=0.0, abs_=0.0):
        gs, g = elems(got)
        ws, w = elems(want)
        self.checked += 1
        if gs != ws:
            return self.fail(label, 'shape %s, expected %s' % (gs, ws))
        for i, (x, y) in enumerate(zip(g, w)):
            for a, b in ((x.real, y.real), (x.imag, y.imag)):
                if not abs(a - b) <= rel * abs(b) * (1 + 1e-9) + abs_ * (1 + 1e-9) + 1e-300:
                    self.fail('%s[%d]' % (label, i), '%r instead of %r' % (x, y))

    def raises(self, label, fn, exc=Exception):
        self.checked += 1
        try:
            fn()
        except exc:
            return True
        self.fail(label, 'no exception')
        return False

    def attempt(self, fn, exc=Exception):
        try:
            return True, fn()
        except exc as e:
            return False, e

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='symx_')
        return self._tmp

    def num_text(self, x, conv='r', prec=6):
        return ('%.*' + conv) % (prec, x) if conv != 'r' else repr(float(x) if not isinstance(x, int) else x)

    def read_num(self, s):
        return float(s)

    def split_g(self):
        pass

    def close_ctx(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
        self._tmp = None


def _short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'
