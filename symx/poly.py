"""Multivariate Laurent polynomials over 'atoms' (symbolic inputs, their sines/cosines, square roots,
denominators, exponentials ...).  Coefficients are int / Fraction / float; a float coefficient is the value
the code computed, so results are statements over real arithmetic with those constants.

A polynomial is a plain dict {monomial: coefficient}, a monomial a tuple of (atom id, exponent) sorted by id.
Reduction rules (c^2 -> 1-s^2, sqrt(p)^2 -> p, sign^2 -> 1) keep a normal form for the identities needed here.
"""
import math
from fractions import Fraction

INF = float('inf')
ONE = ()


class NotNumber(Exception):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'name', 'lo', 'hi', 'los', 'his', 'square', 'data', 'isint', 'key')

    def __init__(self, kind, name, lo=-INF, hi=INF, los=False, his=False, square=None, data=None, isint=False):
        self.kind, self.name, self.lo, self.hi, self.los, self.his = kind, name, lo, hi, los, his
        self.square, self.data, self.isint = square, data, isint

    def __repr__(self):
        return self.name


class Pool:
    """The atoms of one exploration (shared by all its paths)."""

    def __init__(self):
        self.atoms = []
        self.index = {}

    def get(self, key):
        i = self.index.get(key)
        return None if i is None else self.atoms[i]

    def add(self, key, atom):
        atom.id = len(self.atoms)
        atom.key = key
        self.atoms.append(atom)
        self.index[key] = atom.id
        return atom


POOL = Pool()


def reset_pool():
    global POOL
    POOL = Pool()
    return POOL


def isnum(x):
    return isinstance(x, (int, float, Fraction))


def const(c):
    return {ONE: c} if c != 0 else {}


def var(atom, e=1):
    return reduce_mono({((atom.id, e),): 1}) if atom.square is not None and e not in (1, 0) else {((atom.id, e),): 1}


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def const_value(p):
    return p.get(ONE, 0)


def _close0(s, a, b):
    return isinstance(s, float) and abs(s) <= 4e-15 * (abs(a) + abs(b))


def add(p, q):
    if not q:
        return p
    if not p:
        return q
    if len(q) > len(p):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            s = o + c
            if s == 0 or _close0(s, o, c):
                del r[m]
            else:
                r[m] = s
    return r


def scale(p, k):
    if k == 0:
        return {}
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()}


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    return add(p, neg(q))


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e != 0:
                r.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def _needs(m):
    atoms = POOL.atoms
    for a, e in m:
        if e >= 2 and atoms[a].square is not None:
            return True
    return False


def reduce_mono(p):
    """Apply square rules until none applies."""
    work = [m for m in p if _needs(m)]
    if not work:
        return p
    out = {m: c for m, c in p.items() if not _needs(m)}
    todo = {m: p[m] for m in work}
    atoms = POOL.atoms
    while todo:
        m, c = todo.popitem()
        for k, (a, e) in enumerate(m):
            sq = atoms[a].square
            if e >= 2 and sq is not None:
                n = int(e // 2)
                rest = m[:k] + (((a, e - 2 * n),) if e - 2 * n != 0 else ()) + m[k + 1:]
                f = {rest: c}
                sqn = ipow_raw(sq, n)
                for m1, c1 in f.items():
                    for m2, c2 in sqn.items():
                        mm = mono_mul(m1, m2)
                        d = todo if _needs(mm) else out
                        o = d.get(mm)
                        v = c1 * c2
                        if o is None:
                            d[mm] = v
                        else:
                            s = o + v
                            if s == 0 or _close0(s, o, v):
                                del d[mm]
                            else:
                                d[mm] = s
                break
    return out


def mul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and ONE in p:
        return scale(q, p[ONE])
    if len(q) == 1 and ONE in q:
        return scale(p, q[ONE])
    r = {}
    mag = {}
    flt = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = c1 * c2
            o = r.get(m)
            if o is None:
                r[m] = v
            else:
                r[m] = o + v
                if isinstance(v, float):
                    mag[m] = mag.get(m, abs(o)) + abs(v)
    for m in list(mag):
        if abs(r[m]) <= 4e-15 * mag[m]:
            r[m] = 0
    r = {m: c for m, c in r.items() if c != 0}
    return reduce_mono(r)


_powcache = {}


def ipow_raw(p, n):
    r = {ONE: 1}
    b = p
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def ipow(p, n):
    """Integer power; a negative power of a single term is a Laurent monomial, otherwise a denominator atom."""
    if n == 0:
        return {ONE: 1}
    if n < 0:
        return inverse_pow(p, -n)
    if len(p) == 1:
        (m, c), = p.items()
        return reduce_mono({tuple((a, e * n) for a, e in m): c ** n})
    return ipow_raw(p, n)


def _recip(c):
    if isinstance(c, (int, Fraction)):
        r = Fraction(1) / c
        return int(r) if r.denominator == 1 else r
    return 1.0 / c


def rkey(p):
    """Hashable key of a polynomial, float coefficients rounded to 12 significant digits."""
    return tuple(sorted((m, float('%.11e' % c)) for m, c in p.items()))


def content(p):
    """Split p = c * mono * q with q having leading coefficient 1 and no common monomial factor."""
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) for a, e in common.items()}
            for a, e in d.items():
                if e < 0 and a not in common:
                    common[a] = e
    # atoms absent from some monomial: min with 0
    if common:
        for m in p:
            d = dict(m)
            for a in list(common):
                common[a] = min(common[a], d.get(a, 0))
    cm = tuple(sorted((a, e) for a, e in (common or {}).items() if e != 0))
    inv = tuple((a, -e) for a, e in cm)
    q = {mono_mul(m, inv): c for m, c in p.items()}
    lead = max(q)  # any canonical choice
    c = q[lead]
    r = _recip(c)
    return c, cm, {m: v * r for m, v in q.items()}


def inverse_pow(p, n):
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        return reduce_mono({tuple((a, -e * n) for a, e in m): _recip(c) ** n})
    c, cm, q = content(p)
    d = den_atom(q)
    m = tuple((a, -e * n) for a, e in cm)
    return {mono_mul(m, ((d.id, -n),)): _recip(c) ** n}


def den_atom(q):
    key = ('den', rkey(q))
    a = POOL.get(key)
    if a is None:
        lo, hi = interval(q)
        a = POOL.add(key, Atom('den', 'D%d' % len(POOL.atoms), lo, hi, data=q))
        s = sign(q)
        if s > 0:
            a.lo, a.los = max(a.lo, 0), a.lo <= 0
        elif s < 0:
            a.hi, a.his = min(a.hi, 0), a.hi >= 0
    return a


# ---------------------------------------------------------------- intervals and signs

def _imul(a, b):
    def m(x, y):
        return 0.0 if x == 0 or y == 0 else x * y
    v = (m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1]))
    return min(v), max(v)


def _fpow(x, e):
    try:
        return float(x) ** e
    except OverflowError:
        return INF
    except ZeroDivisionError:
        return INF


def atom_pow_interval(a, e):
    lo, hi = a.lo, a.hi
    if e < 0:
        if lo < 0 < hi or lo == hi == 0:
            return -INF, INF
        if lo >= 0:
            l = _fpow(hi, e) if hi != INF else 0.0
            h = _fpow(lo, e) if lo != 0 else INF
            return l, h
        # hi <= 0
        if e == int(e) and int(e) % 2 == 0:
            return (_fpow(-lo, e) if lo != -INF else 0.0), (_fpow(-hi, e) if hi != 0 else INF)
        return -(_fpow(-hi, e) if hi != 0 else INF), -(_fpow(-lo, e) if lo != -INF else 0.0)
    if e != int(e):
        return _fpow(max(lo, 0), e), _fpow(max(hi, 0), e)
    e = int(e)
    if e % 2 == 0:
        if lo >= 0:
            return _fpow(lo, e), _fpow(hi, e)
        if hi <= 0:
            return _fpow(hi, e), _fpow(lo, e)
        return 0.0, max(_fpow(lo, e), _fpow(hi, e))
    return (math.copysign(_fpow(abs(lo), e), lo), math.copysign(_fpow(abs(hi), e), hi))


def mono_interval(m):
    r = (1.0, 1.0)
    for a, e in m:
        r = _imul(r, atom_pow_interval(POOL.atoms[a], e))
    return r


def interval(p):
    lo = hi = 0.0
    for m, c in p.items():
        l, h = mono_interval(m)
        l, h = _imul((l, h), (float(c), float(c)))
        lo += l
        hi += h
        if lo != lo or hi != hi:
            return -INF, INF
    return lo, hi


def mono_sign(m):
    """+1 strictly positive, -1 strictly negative, 2 nonnegative, -2 nonpositive, 0 unknown."""
    s, strict = 1, True
    for a, e in m:
        at = POOL.atoms[a]
        if e == int(e) and int(e) % 2 == 0:
            if not (at.lo > 0 or at.hi < 0 or (at.lo == 0 and at.los) or (at.hi == 0 and at.his) or e < 0):
                strict = False
            continue
        if at.lo > 0 or (at.lo == 0 and at.los):
            continue
        if at.hi < 0 or (at.hi == 0 and at.his):
            s = -s
            continue
        if at.lo == 0:
            strict = strict and e < 0
            continue
        if at.hi == 0:
            s = -s
            strict = strict and e < 0
            continue
        return 0
    return s if strict else 2 * s


def sign(p):
    """Sign of p from atom bounds alone: +1/-1 strict, +2/-2 weak, 0 unknown, None for the zero polynomial."""
    if not p:
        return None
    pos = neg_ = True
    strict = False
    for m, c in p.items():
        s = mono_sign(m)
        if s == 0:
            pos = neg_ = False
            break
        v = s if c > 0 else -s
        if v > 0:
            neg_ = False
        else:
            pos = False
        if abs(v) == 1:
            strict = True
    if pos:
        return 1 if strict else 2
    if neg_:
        return -1 if strict else -2
    lo, hi = interval(p)
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    if lo == 0:
        return 2
    if hi == 0:
        return -2
    return 0


# ---------------------------------------------------------------- evaluation

def evaluate(p, env):
    s = 0.0
    for m, c in p.items():
        v = float(c)
        for a, e in m:
            x = env[a]
            if e == 1:
                v *= x
            else:
                try:
                    v *= x ** (float(e) if isinstance(e, Fraction) else e)
                except ZeroDivisionError:
                    v *= math.copysign(INF, x)
        s += v
    return s


class Env(dict):
    """Values of atoms; derived atoms are computed on demand from the inputs."""

    def __missing__(self, i):
        a = POOL.atoms[i]
        v = _atom_value(a, self)
        self[i] = v
        return v


def _atom_value(a, env):
    k = a.kind
    if k == 'den':
        return evaluate(a.data, env)
    if k == 'sqrt':
        v = evaluate(a.data, env)
        return math.sqrt(v) if v > 0 else 0.0
    if k == 'cos' or k == 'sin':
        m, unit = a.data
        x = unit * evaluate({m: 1}, env)
        return math.cos(x) if k == 'cos' else math.sin(x)
    if k == 'ang':
        f, args = a.data[:2]
        return f(*[evaluate(q, env) for q in args])
    if k == 'fun':
        f, args = a.data[:2]
        return f(*[evaluate(q, env) for q in args])
    if k == 'pow':
        b, n = a.data
        return evaluate(b, env) ** int(round(evaluate(n, env)))
    if k == 'pos':
        return max(0.0, evaluate(a.data, env))
    if k == 'ite':
        cond, x, y = a.data
        return evaluate(x, env) if cond.evaluate(env) else evaluate(y, env)
    if k == 'var':
        raise KeyError(a.name)
    raise KeyError(k)


def atoms_of(p, acc=None):
    acc = set() if acc is None else acc
    for m in p:
        for a, _ in m:
            acc.add(a)
    return acc


def deps(i, acc=None):
    """All atoms an atom's definition depends on (transitively), itself included."""
    acc = set() if acc is None else acc
    st = [i]
    while st:
        j = st.pop()
        if j in acc:
            continue
        acc.add(j)
        a = POOL.atoms[j]
        for q in atom_polys(a):
            for b in atoms_of(q):
                if b not in acc:
                    st.append(b)
    return acc


def atom_polys(a):
    k = a.kind
    if k in ('den', 'sqrt', 'pos'):
        return [a.data]
    if k in ('cos', 'sin'):
        return [{a.data[0]: 1}]
    if k in ('ang', 'fun'):
        return list(a.data[1])
    if k == 'pow':
        return list(a.data)
    if k == 'ite':
        return [a.data[1], a.data[2]] + a.data[0].polys()
    return []


# ---------------------------------------------------------------- clearing denominators

def clear(p, others=()):
    """Multiply by powers of atoms so that no negative exponent remains, expanding denominator atoms.
    Returns the cleared polynomial(s); all get the same multiplier."""
    ps = [p] + list(others)
    for _ in range(60):
        mins = {}
        for q in ps:
            for m in q:
                for a, e in m:
                    if e < 0:
                        mins[a] = min(mins.get(a, 0), e)
        # expand positive powers of den atoms
        dens = set()
        for q in ps:
            for m in q:
                for a, e in m:
                    if POOL.atoms[a].kind == 'den':
                        dens.add(a)
        if not mins and not dens:
            break
        if mins:
            mult = {tuple(sorted((a, -e) for a, e in mins.items())): 1}
            # multiply without square reduction first for the offending atoms, then reduce
            mm = next(iter(mult))
            ps = [reduce_mono({mono_mul(m, mm): c for m, c in q.items()}) for q in ps]
        if dens:
            ps = [subst_atoms(q, {d: POOL.atoms[d].data for d in dens}) for q in ps]
    return ps[0] if not others else ps


def subst_atoms(p, mp):
    """Replace atoms (nonnegative integer exponents only) by polynomials."""
    out = {}
    groups = {}
    for m, c in p.items():
        keep = tuple((a, e) for a, e in m if a not in mp or e < 0)
        rep = tuple((a, e) for a, e in m if a in mp and e > 0)
        groups.setdefault(rep, {})[keep] = c
    for rep, q in groups.items():
        f = q
        for a, e in rep:
            f = mul(f, ipow_raw(mp[a], int(e)))
        out = add(out, f)
    return out


def show(p, limit=12):
    if not p:
        return '0'
    s = []
    for m, c in sorted(p.items())[:limit]:
        t = '*'.join('%s^%s' % (POOL.atoms[a].name, e) if e != 1 else POOL.atoms[a].name for a, e in m)
        s.append(('%g' % c) + ('*' + t if t else ''))
    return ' + '.join(s) + (' + ...(%d terms)' % len(p) if len(p) > limit else '')
