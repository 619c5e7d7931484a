"""Loads the modules of /repo from their current source into a namespace in which numbers may be symbolic."""
import ast
import builtins
import os
import sys
import types

from . import arr, libs, npx, sym, text
from .sym import S, SBool, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'starwinds_magnetogram'
_stdout = sys.stdout


# ------------------------------------------------------------------------------- builtins

class _NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._np) or (isinstance(x, S) and x.kind == cls._np_kind)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._np)

    def __eq__(cls, o):
        return o is cls or o is cls._np

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls._np)

    def __call__(cls, *a, **kw):
        return cls._conv(*a, **kw)

    def __getattr__(cls, n):
        return getattr(cls._np, n)


def _scalar(x):
    if isinstance(x, arr.SymArray) and x.size == 1:
        if x.ndim:
            pass
        return x.view(arr.RND).reshape(-1)[0]
    return x


def _int(x=0, *base, **kw):
    x = _scalar(x)
    if isinstance(x, str):
        v = text.parse(x, 'i') if not base else None
        return int(x, *base) if v is None else v
    if isinstance(x, S):
        if x.kind == 'c':
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
        return x if x.kind == 'i' else _trunc(x)
    if isinstance(x, SBool):
        return x.as_int()
    return int(x, *base)


def _trunc(x):
    if bool(x >= 0):
        return arr.sym_floor(x)
    return -arr.sym_floor(-x)


def _float(x=0.0):
    x = _scalar(x)
    if isinstance(x, str):
        v = text.parse(x, 'f')
        return float(x) if v is None else v
    if isinstance(x, S):
        if x.kind == 'c':
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return arr.cast_elem(x, 'f')
    if isinstance(x, SBool):
        return arr.cast_elem(x, 'f')
    return float(x)


def _complex(re=0, im=None):
    re, im = _scalar(re), _scalar(im) if im is not None else None
    if isinstance(re, str):
        if text.A in re:
            raise Unsupported('complex() of formatted text')
        return complex(re)
    if arr.has_sym([re, im]):
        z = arr.cast_elem(re, 'c')
        return z if im is None else sym.lift(z) + 1j * sym.lift(im)
    return complex(re) if im is None else complex(re, im)


def _bool(x=False):
    return bool(x)


INT = _NumMeta('int', (), {'_np': int, '_np_kind': 'i', '_conv': staticmethod(_int)})
FLOAT = _NumMeta('float', (), {'_np': float, '_np_kind': 'f', '_conv': staticmethod(_float)})
COMPLEX = _NumMeta('complex', (), {'_np': complex, '_np_kind': 'c', '_conv': staticmethod(_complex)})
_TYPES = {int: INT, float: FLOAT, complex: COMPLEX}
_KINDS = {'i': INT, 'f': FLOAT, 'c': COMPLEX}


class _TypeMeta(type):
    def __call__(cls, *a, **kw):
        if len(a) == 1 and not kw:
            t = type(a[0])
            if t is S:
                return _KINDS[a[0].kind]
            if t is SBool:
                return bool
            if t is arr.SymArray:
                import numpy as np
                return np.ndarray
            return _TYPES.get(t, t)
        return type(*a, **kw)

    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)


TYPE = _TypeMeta('type', (), {})


def _round(x, n=None):
    x = _scalar(x)
    if isinstance(x, S) and x.kind != 'i':
        if n is None:
            return arr.sym_floor(x + 0.5)
        raise Unsupported('round(x, n)')
    return round(x) if n is None else round(x, n)


def _print(*a, **kw):
    """Kept when it goes to a file, or to an output that the harness has redirected."""
    if kw.get('file') is not None or sys.stdout is not _stdout:
        print(*a, **kw)


class Abort(SystemExit):
    pass


# ------------------------------------------------------------------------------- source transformation

class _Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__fmt_mod__', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.copy_location(ast.Name(node.target.id, ast.Load()), node)
            call = ast.copy_location(ast.Call(ast.Name('__fmt_mod__', ast.Load()), [load, node.value], []), node)
            return ast.copy_location(ast.Assign([node.target], call), node)
        return node


_code = {}


def compile_file(path):
    with open(path, encoding='utf-8') as f:
        src = f.read()
    c = _code.get(path)
    if c is None or c[0] != src:
        tree = ast.fix_missing_locations(_Rewrite().visit(ast.parse(src, path)))
        c = (src, compile(tree, path, 'exec'))
        _code[path] = c
    return c[1]


_proxies = {}


def proxy(name):
    """Stand-in for an external module, or None for the real one."""
    if name in _proxies:
        return _proxies[name]
    p = None
    if name == 'numpy':
        p = npx.make_numpy()
    elif name == 'numpy.random':
        p = proxy('numpy').random
    elif name == 'numpy.linalg':
        p = proxy('numpy').linalg
    elif name == 'math':
        p = libs.make_math()
    elif name == 'cmath':
        p = libs.make_cmath()
    elif name == 'random':
        p = libs.RandomMod()
    elif name == 'scipy.special':
        p = libs.make_special()
    elif name == 'scipy':
        import scipy
        import scipy.constants

        def wrap(n, v):
            q = proxy('scipy.' + n) if isinstance(v, types.ModuleType) else None
            return q if q is not None else v
        p = npx.Module(scipy, {'special': proxy('scipy.special'), 'constants': scipy.constants}, wrap)
    elif name.startswith('scipy.') and name not in ('scipy.constants',):
        import importlib
        p = libs.generic_module(importlib.import_module(name))
    elif name == 'quaternion':
        p = libs.make_quaternion()
    elif name == 'spherical_functions':
        p = libs.make_spherical_functions()
    _proxies[name] = p
    return p


class Loader:
    """One fresh set of loaded modules (one per explored path)."""

    def __init__(self, overrides=None):
        self.modules = {}
        self.overrides = overrides or {}
        b = dict(vars(builtins))
        b.update({'__import__': self.imp, 'int': INT, 'float': FLOAT, 'complex': COMPLEX, 'type': TYPE, 'round': _round,
                  'print': _print, '__fmt_mod__': text.fmt_mod})
        b.pop('breakpoint', None)
        self.builtins = b

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        rel = name.split('.')
        base = os.path.join(REPO, *rel)
        path = None
        pkg = False
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            path, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.exists(base + '.py'):
            path = base + '.py'
        if path is None:
            raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [base]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        try:
            exec(compile_file(path), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if '.' in name:
            setattr(parent, name.rpartition('.')[2], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if name in self.overrides:
            return self.overrides[name]
        if top == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError as e:
                            if e.name != name + '.' + f:
                                raise
                return m
            return self.load(top)
        if top in ('numpy', 'scipy', 'math', 'cmath', 'random', 'quaternion', 'spherical_functions'):
            __import__(name)
            if fromlist:
                p = proxy(name)
                if p is None:
                    return sys.modules[name]
                return p
            p = proxy(top)
            return p if p is not None else sys.modules[top]
        return __import__(name, globals, locals, fromlist, 0)
