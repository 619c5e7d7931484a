"""Formatted symbolic numbers.  A symbolic number written with %e / %f / %g / str becomes a marker token made of
private-use characters; reading the token back with float() gives the number up to the rounding of the format."""
import re
from fractions import Fraction

from . import poly as P
from . import sym
from .sym import S, SBool, Unsupported, isconc, mk, lift

A, B, D0 = '\ue000', '\ue001', '\ue010'
TOK = re.compile(A + '([\ue010-\ue019]+)' + B)
_SPEC = re.compile(r'%(?:\((\w+)\))?([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+))?([diouxXeEfFgGcrsa%])')


def marker(text_value):
    tab = sym.cur().texts
    n = len(tab)
    tab[n] = text_value
    return A + ''.join(chr(ord(D0) + int(c)) for c in str(n)) + B


def _longest(p, conv, prec, flags=''):
    """The largest number of characters the formatted number can have, from the range of its values; None if unknown."""
    lo, hi = P.interval(p)
    n = 1 if lo < 0 or '+' in flags or ' ' in flags else 0
    big = max(abs(lo), abs(hi))
    small = lo if lo > 0 else -hi if hi < 0 else 0.0
    if conv in 'eE':
        return n + 1 + (1 if prec else 0) + prec + (4 if big < 9.9e99 and small >= 1e-99 else 5)
    if conv in 'fF' and big < 1e300:
        return n + len('%.0f' % (big + 1)) + (1 if prec else 0) + prec
    return None


def pad(s, p, conv, prec, flags, width, left=False):
    """The token with the blanks that are there for every value; a number as wide as its field has none."""
    if not width:
        return s
    k = _longest(p, conv, prec, flags)
    if k is None or int(width) <= k:
        return s
    b = ' ' * (int(width) - k)
    return s + b if left else b + s


class Text:
    """What a token denotes: the value and the rounding introduced when it was written."""
    __slots__ = ('re', 'mode', 'prec', 'isint', 'back')

    def __init__(self, re_, mode, prec, isint=False):
        self.re, self.mode, self.prec, self.isint, self.back = re_, mode, prec, isint, None

    def value(self):
        if self.back is None:
            if self.mode == 'exact':
                self.back = self.re
            elif self.mode == 'rel':
                e = sym.cur().fresh_var('round', -self.prec, self.prec)
                self.back = P.add(self.re, P.mul(self.re, {((e.id, 1),): 1}))
            else:
                e = sym.cur().fresh_var('round', -self.prec, self.prec)
                self.back = P.add(self.re, {((e.id, 1),): 1})
        return self.back


def _split_g(p, conv, prec):
    """%g with the choice between plain and exponent notation explored."""
    x = sym.mkS(p)
    if bool(x == 0):
        return '0'
    a = lift(sym.s_abs(x))
    k = 12
    while k > -12 and bool(a < 10.0 ** k):
        k -= 1
    if -4 <= k < prec:
        return marker(Text(p, 'rel', 0.5000001 * 10.0 ** -(prec - 1)))
    return marker(Text(P.scale(p, 10.0 ** -k), 'rel', 0.5000001 * 10.0 ** -(prec - 1))) + '%s%+03d' % ('e' if conv == 'g' else 'E', k)


def format_real(p, conv, prec, isint=False):
    if conv in 'gG' and sym.cur().split_g:
        return _split_g(p, conv, max(prec, 1))
    if isint and conv in 'dis':
        return marker(Text(p, 'exact', 0, True))
    if conv in 'rs':
        return marker(Text(p, 'exact', 0, isint))
    if conv in 'eE':
        return marker(Text(p, 'rel', 0.5000001 * 10.0 ** -prec))
    if conv in 'gG':
        return marker(Text(p, 'rel', 0.5000001 * 10.0 ** -(max(prec, 1) - 1)))
    if conv in 'fF':
        return marker(Text(p, 'abs', 0.5000001 * 10.0 ** -prec))
    if conv in 'di':
        raise Unsupported('%d of a symbolic real')
    raise Unsupported('format %' + conv)


def format_symbolic(x, spec):
    """format(x, spec) for a symbolic scalar."""
    if isinstance(x, SBool):
        return str(bool(x))
    m = re.fullmatch(r'(?:(.)?([<>=^]))?([-+ ])?(z)?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?', spec or '')
    if not m:
        raise Unsupported('format spec %r' % spec)
    conv = m.group(10)
    prec = m.group(9)
    if x.kind == 'i':
        if conv in (None, 'd'):
            return format(sym.concretize(x), spec)
    if x.kind == 'c':
        if conv is None and prec is None:
            return '(' + format_real(x.re, 'r', 17) + '+' + format_real(x.ci, 'r', 17) + 'j)'
        raise Unsupported('complex format')
    if conv is None:
        return format_real(x.re, 'g' if prec else 'r', int(prec) if prec else 17)
    if conv == '%':
        return format_real(P.scale(x.re, 100), 'f', int(prec) if prec else 6) + '%'
    prec = int(prec) if prec is not None else 6
    t = format_real(x.re, conv, prec)
    if m.group(1) in (None, ' ') and not m.group(6) and not m.group(8) and m.group(2) in (None, '<', '>'):
        t = pad(t, x.re, conv, prec, m.group(3) or '', m.group(7), m.group(2) == '<')
    return t


def mod_format(fmt, args):
    """fmt % args with symbolic members."""
    pos = 0
    out = []
    seq = args if isinstance(args, tuple) else None
    k = 0

    def nxt():
        nonlocal k
        if seq is not None:
            if k >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[k]
            k += 1
            return v
        if k:
            raise TypeError('not enough arguments for format string')
        k += 1
        return args
    for m in _SPEC.finditer(fmt):
        out.append(fmt[pos:m.start()].replace('%%', '%'))
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if width == '*':
            width = str(int(nxt()))
        if prec == '*':
            prec = str(int(nxt()))
        v = args[key] if key else nxt()
        v = _scalar(v)
        if isinstance(v, SBool):
            v = bool(v)
        if isinstance(v, S):
            if v.kind == 'i' and conv in 'dius':
                v = sym.concretize(v)
            elif conv in 'sr':
                out.append(str(v))
                continue
            elif v.kind == 'c':
                raise TypeError('must be real number, not complex')
            else:
                pr = int(prec) if prec is not None else 6
                t = format_real(v.re, conv, pr, v.kind == 'i')
                if '0' not in flags:
                    t = pad(t, v.re, conv, pr, flags, width, '-' in flags)
                out.append(t)
                continue
        spec = '%' + flags + (width or '') + ('.' + prec if prec is not None else '') + conv
        out.append(spec % (v,))
    out.append(fmt[pos:])
    if seq is not None and k < len(seq):
        raise TypeError('not all arguments converted during string formatting')
    return ''.join(out)


def _scalar(v):
    from . import arr
    if isinstance(v, arr.SymArray):
        if v.size == 1 and v.ndim <= 1 and arr.has_sym(v):
            return v.view(arr.RND).reshape(-1)[0]
        if not arr.has_sym(v):
            r = arr.to_real(v)
            return r[()] if r.ndim == 0 else r
    return v


def hassym(x):
    from . import arr
    if isinstance(x, (S, SBool)):
        return True
    if isinstance(x, (tuple, list)):
        return any(hassym(y) for y in x)
    if isinstance(x, dict):
        return any(hassym(y) for y in x.values())
    return isinstance(x, arr.SymArray)


def fmt_mod(a, b):
    """Replacement of the % operator in loaded code."""
    if isinstance(a, str) and hassym(b):
        return mod_format(a, b)
    return a % b


def parse(s, kind):
    """float(s) / int(s) for a string with markers.  Returns None when there is none."""
    if A not in s and B not in s:
        return None
    t = s.strip()
    sg = 1
    if t[:1] in '+-':
        sg = -1 if t[0] == '-' else 1
        t = t[1:]
    m = TOK.fullmatch(t)
    if not m:
        m = re.fullmatch(TOK.pattern + r'[eE]([-+]?\d+)', t)
        if not m or kind == 'i':
            raise ValueError('could not convert string to float: %r' % s)
        sg *= 10.0 ** int(m.group(2))
    n = int(''.join(str(ord(c) - ord(D0)) for c in m.group(1)))
    tx = sym.cur().texts[n]
    if kind == 'i':
        if not tx.isint:
            raise ValueError('invalid literal for int(): %r' % s)
        return mk(P.scale(tx.value(), sg), None, 'i')
    return mk(P.scale(tx.value(), sg), None, 'f')
