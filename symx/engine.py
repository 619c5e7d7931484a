"""Path exploration by re-execution, translation to z3, discharge of obligations, witnesses for replay."""
import math
import random
import time
from fractions import Fraction
import z3

from . import poly as P
from . import sym
from .poly import ONE, INF
from .sym import S, SBool, Unsupported, PathAbort, lift, isconc

TOL = 1e-9


class Stats(dict):
    def inc(self, k, n=1):
        self[k] = self.get(k, 0) + n


def frac(c):
    if isinstance(c, float):
        return Fraction(c)
    return Fraction(c)


def rv(c):
    f = frac(c)
    return z3.RatVal(f.numerator, f.denominator)


class Explorer:
    def __init__(self, stats, seed=1, deadline=None, max_paths=4000, pins=None):
        self.stats = stats
        self.rng = random.Random(seed)
        self.prefix = []
        self.deadline = deadline
        self.max_paths = max_paths
        self.begin_path()

    # ---------------------------------------------------------------- path bookkeeping
    def begin_path(self):
        self.pool = P.reset_pool()
        self.pos = 0
        self.pc = []
        self.pckeys = {}
        self.inputs = {}       # name -> atom id
        self.choices = {}
        self.obligations = []
        self.log = []          # (label, got) pairs for validation
        self.solver = None
        self.zv = {}
        self.zinv = {}
        self.axdone = set()
        self.signcache = {}
        self.texts = {}
        self.fresh = 0
        self.unknown_feas = False
        self.split_g = False
        self.warming = False

    def next_prefix(self):
        while self.prefix:
            ch, opts = self.prefix[-1]
            k = opts.index(ch)
            if k + 1 < len(opts):
                self.prefix[-1] = (opts[k + 1], opts)
                return True
            self.prefix.pop()
        return False

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    # ---------------------------------------------------------------- inputs
    def new_var(self, name, lo=-INF, hi=INF, los=False, his=False, isint=False, isbool=False):
        key = ('var', name)
        a = P.POOL.get(key)
        if self.warming:
            raise Unsupported('symbolic value in an earlier use')
        if a is None:
            a = P.POOL.add(key, P.Atom('var', name, lo, hi, los=los, his=his, isint=isint))
            self.inputs[name] = a.id
        return a

    def fresh_var(self, tag, lo=-INF, hi=INF, value=None):
        """A value the engine is free to choose (uninitialised memory, rounding): value(env) gives a concrete guess."""
        self.fresh += 1
        name = '%s!%d' % (tag, self.fresh)
        key = ('fresh', name)
        return P.POOL.add(key, P.Atom('fun', name, lo, hi, data=(value or (lambda: 0.0), [], tag, None)))

    def fresh_input(self, tag, lo=-INF, hi=INF, los=False, his=False):
        """The next value of an environment source (random numbers): an ordinary input named by its position."""
        if self.warming:
            return None
        self.fresh += 1
        n = sum(1 for k in self.inputs if k.startswith(tag + '!'))
        return self.new_var('%s!%d' % (tag, n), lo, hi, los, his)

    # ---------------------------------------------------------------- z3 translation
    def zatom(self, i):
        v = self.zv.get(i)
        if v is None:
            a = P.POOL.atoms[i]
            v = z3.ToReal(z3.Int('i%d' % i)) if a.isint and a.kind == 'var' else z3.Real('a%d' % i)
            self.zv[i] = v
        return v

    def zpow(self, i, e):
        if e < 0:
            v = self.zinv.get(i)
            if v is None:
                v = z3.Real('inv%d' % i)
                self.zinv[i] = v
                self._pending.append(v * self.zatom(i) == 1)
            return self._rep(v, -e, i)
        return self._rep(self.zatom(i), e, i)

    def _rep(self, v, n, i):
        if n != int(n):
            w = z3.Real('fp%d_%s' % (i, str(n).replace('/', '_')))
            self._pending.append(w >= 0)
            f = Fraction(n)
            if f.denominator == 2:
                self._pending.append(w * w == self._rep(v, f.numerator, i))
            return w
        r = v
        for _ in range(int(n) - 1):
            r = r * v
        return r

    def zpoly(self, p):
        t = []
        for m, c in p.items():
            x = None
            for a, e in m:
                y = self.zpow(a, e)
                x = y if x is None else x * y
            t.append(rv(c) if x is None else (x if c == 1 else rv(c) * x))
        if not t:
            return z3.RealVal(0)
        return z3.Sum(t) if len(t) > 1 else t[0]

    def zbool(self, b):
        if isinstance(b, bool) or not isinstance(b, SBool):
            return z3.BoolVal(bool(b))
        if b.op == 'cmp':
            p, rel = b.args
            x = self.zpoly(p)
            return {'<': x < 0, '<=': x <= 0, '==': x == 0, '!=': x != 0}[rel]
        if b.op == 'not':
            return z3.Not(self.zbool(b.args[0]))
        f = z3.And if b.op == 'and' else z3.Or
        return f(*[self.zbool(a) for a in b.args])

    _pending = None

    def axioms(self, ids):
        """z3 facts about the given atoms and everything they depend on."""
        out = []
        todo = set()
        for i in ids:
            todo |= P.deps(i)
        for i in sorted(todo):
            if i in self.axdone:
                continue
            self.axdone.add(i)
            a = P.POOL.atoms[i]
            v = self.zatom(i)
            if a.lo > -INF:
                out.append(v > rv(a.lo) if a.los else v >= rv(a.lo))
            if a.hi < INF:
                out.append(v < rv(a.hi) if a.his else v <= rv(a.hi))
            if a.kind == 'cos':
                j = P.POOL.get(('sin',) + a.key[1:]).id
                out.append(v * v + self.zatom(j) * self.zatom(j) == 1)
            elif a.kind == 'sqrt':
                out.append(v * v == self.zpoly(a.data))
                out.append(v >= 0)
            elif a.kind == 'den':
                out.append(v == self.zpoly(a.data))
            elif a.kind == 'pos':
                q = self.zpoly(a.data)
                out.append(z3.And(v >= q, z3.Or(v == 0, v == q)))
            elif a.kind == 'ite':
                c, x, y = a.data
                out.append(v == z3.If(self.zbool(c), self.zpoly(x), self.zpoly(y)))
            elif a.kind == 'pow' and a.square is not None:
                out.append(v * v == 1)
            elif a.kind == 'fun' and a.data[3] is not None:
                out += [self.zbool(b) for b in a.data[3](a)]
        # atoms introduced by the translation itself (cos partner etc.)
        return out

    def _ensure(self, polys):
        ids = set()
        for p in polys:
            P.atoms_of(p, ids)
        extra = set()
        for i in list(ids):
            a = P.POOL.atoms[i]
            if a.kind in ('cos', 'sin'):
                for k in ('cos', 'sin'):
                    b = P.POOL.get((k,) + a.key[1:])
                    if b is not None:
                        extra.add(b.id)
        ids |= extra
        self._pending = []
        ax = self.axioms(ids)
        s = self.z()
        for f in ax:
            s.add(f)
        return s

    def z(self):
        if self.solver is None:
            self.solver = z3.Solver()
        return self.solver

    def _flush(self):
        for f in self._pending:
            self.z().add(f)
        self._pending = []

    def zcheck(self, formulas, polys, timeout=2000):
        """Is pc /\\ axioms /\\ formulas satisfiable?  Returns z3 result; self.zmodel holds a model."""
        self.check_time()
        self._pending = []
        s = self._ensure(polys)
        fs = [f() if callable(f) else f for f in formulas]
        self._flush()
        s.push()
        for f in fs:
            s.add(f)
        s.set('timeout', timeout)
        t = time.time()
        r = s.check()
        self.stats.inc('queries')
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t
        if r == z3.sat:
            self.zmodel = s.model()
        s.pop()
        return r

    def add_pc(self, b):
        if isinstance(b, SBool):
            self.pc.append(b)
            self.pckeys[b.key()] = True
            self.pckeys[sym.b_not(b).key()] = False
            self._pending = []
            self._ensure(b.polys())
            f = self.zbool(b)
            self._flush()
            self.z().add(f)
            self.signcache = {}
            # transfer simple facts to atom bounds: single atom compared with a constant
            self._tighten(b)

    def _tighten(self, b):
        if b.op == 'and':
            for x in b.args:
                self._tighten(x)
            return
        if b.op != 'cmp':
            return
        p, rel = b.args
        if rel not in ('<', '<='):
            return
        ms = [m for m in p if m != ONE]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            a = P.POOL.atoms[ms[0][0][0]]
            c = float(p[ms[0]])
            bound = -float(p.get(ONE, 0)) / c
            strict = rel == '<'
            if c > 0:
                if bound < a.hi or (bound == a.hi and strict):
                    a.hi, a.his = bound, strict
            else:
                if bound > a.lo or (bound == a.lo and strict):
                    a.lo, a.los = bound, strict

    # ---------------------------------------------------------------- decisions
    def known(self, b):
        return self.pckeys.get(b.key())

    def forced(self, b):
        k = self.known(b)
        if k is not None:
            return k
        key = ('f', b.key())
        if key in self.signcache:
            return self.signcache[key]
        r = None
        if self.zcheck([lambda: self.zbool(b)], b.polys(), 1000) == z3.unsat:
            r = False
        elif self.zcheck([lambda: z3.Not(self.zbool(b))], b.polys(), 1000) == z3.unsat:
            r = True
        self.signcache[key] = r
        return r

    def sign(self, p):
        s = P.sign(p)
        if s != 0:
            return s
        key = P.rkey(p)
        if key in self.signcache:
            return self.signcache[key]
        r = 0
        if len(p) <= 60:
            b = SBool('cmp', p, '<')      # p < 0
            if self.zcheck([lambda: self.zbool(b)], [p], 500) == z3.unsat:
                b2 = SBool('cmp', p, '<=')
                r = 1 if self.zcheck([lambda: self.zbool(b2)], [p], 500) == z3.unsat else 2
            else:
                b = SBool('cmp', P.neg(p), '<')
                if self.zcheck([lambda: self.zbool(b)], [p], 500) == z3.unsat:
                    b2 = SBool('cmp', P.neg(p), '<=')
                    r = -1 if self.zcheck([lambda: self.zbool(b2)], [p], 500) == z3.unsat else -2
        if r == 0 and self.pc and len(p) <= 200:
            if self.lra_unsat([SBool('cmp', p, '<')]):
                r = 1 if self.lra_unsat([SBool('cmp', p, '<=')]) else 2
            elif self.lra_unsat([SBool('cmp', P.neg(p), '<')]):
                r = -1 if self.lra_unsat([SBool('cmp', P.neg(p), '<=')]) else -2
        self.signcache[key] = r
        return r

    # ---------------------------------------------------------------- linear abstraction
    def _cleared(self, p):
        mult = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    mult[a] = min(mult.get(a, 0), e)
        mm = []
        for a, e in sorted(mult.items()):
            at = P.POOL.atoms[a]
            if at.lo > 0 or (at.lo == 0 and (at.los or at.kind in ('sqrt', 'den'))):
                mm.append((a, -e))
            elif int(e) == e and int(e) % 2 == 0:
                mm.append((a, -e))
            else:
                return p
        if not mm:
            return p
        mm = tuple(mm)
        return P.reduce_mono({P.mono_mul(m, mm): c for m, c in p.items()})

    def lra_unsat(self, conds):
        """pc and conds contradict each other already with every monomial an independent number in its range."""
        s = z3.Solver()
        s.set('timeout', 3000)
        zm = {}

        def mv(m):
            if m not in zm:
                v = z3.Real('n%d' % len(zm))
                zm[m] = v
                lo, hi = P.mono_interval(m)
                if lo > -INF:
                    s.add(v >= rv(lo))
                if hi < INF:
                    s.add(v <= rv(hi))
                sg = P.mono_sign(m)
                if sg == 1:
                    s.add(v > 0)
                elif sg == -1:
                    s.add(v < 0)
            return zm[m]

        def tr(b):
            if not isinstance(b, SBool):
                return z3.BoolVal(bool(b))
            if b.op == 'cmp':
                q = self._cleared(b.args[0])
                x = z3.Sum([rv(c) if m == ONE else rv(c) * mv(m) for m, c in q.items()] + [z3.RealVal(0)])
                return {'<': x < 0, '<=': x <= 0, '==': x == 0, '!=': x != 0}[b.args[1]]
            if b.op == 'not':
                return z3.Not(tr(b.args[0]))
            return (z3.And if b.op == 'and' else z3.Or)(*[tr(a) for a in b.args])
        for b in self.pc + list(conds):
            if sum(len(q) for q in b.polys()) <= 400:
                s.add(tr(b))
        t = time.time()
        r = s.check()
        self.stats.inc('queries')
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t
        return r == z3.unsat

    def resolve_pos(self, p):
        """Replace max(q, 0) atoms whose argument has a known sign on this path."""
        for i in sorted(P.atoms_of(p)):
            a = P.POOL.atoms[i]
            if a.kind != 'pos':
                continue
            s = self.sign(a.data)
            to = a.data if s in (1, 2) else ({} if s in (-1, -2, None) else None)
            if to is not None:
                p = P.subst_atoms(p, {i: to})
        return p

    def is_zero(self, p):
        if not p:
            return True
        if P.sign(p) in (1, -1):
            return False
        c = sym.sbool_cmp(p, '==')
        return bool(c)

    def decide(self, b):
        if self.warming:
            raise Unsupported('decision in an earlier use')
        k = self.known(b)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos][0]
            self.pos += 1
            self.add_pc(b if ch else sym.b_not(b))
            return ch
        ch = self._trivial(b)
        if ch is None:
            rt = self.zcheck([lambda: self.zbool(b)], b.polys())
            rf = self.zcheck([lambda: z3.Not(self.zbool(b))], b.polys())
            if rt == z3.unknown or rf == z3.unknown:
                self.stats.inc('feasibility_unknown')
                self.unknown_feas = True
            t, f = rt != z3.unsat, rf != z3.unsat
            if not t and not f:
                raise PathAbort('infeasible')
            opts = [True, False] if t and f else ([True] if t else [False])
            self.stats.inc('decisions')
        else:
            opts = [ch]
        self.prefix.append((opts[0], opts))
        self.pos += 1
        self.add_pc(b if opts[0] else sym.b_not(b))
        return opts[0]

    def _trivial(self, b):
        """Float noise: a comparison of a polynomial that is zero up to rounding."""
        return None

    def concrete_int(self, p, lo, hi):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][0]
            self.pos += 1
            self._pin(p, v)
            return v
        opts = []
        for v in range(lo, hi + 1):
            d = P.sub(p, P.const(v))
            if not d:
                opts.append(v)
                continue
            c = sym.sbool_cmp(d, '==')
            if c is False:
                continue
            if c is True or self.zcheck([lambda: self.zbool(c)], [d]) != z3.unsat:
                opts.append(v)
        if not opts:
            raise PathAbort('infeasible')
        self.stats.inc('decisions')
        self.prefix.append((opts[0], opts))
        self.pos += 1
        self._pin(p, opts[0])
        return opts[0]

    def _pin(self, p, v):
        c = sym.sbool_cmp(P.sub(p, P.const(v)), '==')
        if isinstance(c, SBool):
            self.add_pc(c)
        ms = [m for m in p if m != ONE]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            a = P.POOL.atoms[ms[0][0][0]]
            x = (v - p.get(ONE, 0)) / p[ms[0]]
            a.lo = a.hi = int(round(x))
            a.los = a.his = False

    def choose(self, n, feasible=None):
        """Free n-way choice (a configuration variable of the harness)."""
        if self.warming:
            raise Unsupported('decision in an earlier use')
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos][0]
            self.pos += 1
            return ch
        opts = list(range(n))
        self.prefix.append((0, opts))
        self.pos += 1
        self.stats.inc('decisions')
        return 0

    def assume(self, b):
        if isinstance(b, SBool):
            k = self.known(b)
            if k is False:
                raise PathAbort('assumption')
            if k is None:
                if self.zcheck([lambda: self.zbool(b)], b.polys()) == z3.unsat:
                    raise PathAbort('assumption')
                self.add_pc(b)
        elif not b:
            raise PathAbort('assumption')

    # ---------------------------------------------------------------- sampling of the path
    def sample_env(self, tries=300, only=None):
        for _ in range(tries):
            env = P.Env()
            for name, i in self.inputs.items():
                env[i] = self.sample_atom(P.POOL.atoms[i])
            try:
                if all(b.evaluate(env) for b in self.pc):
                    return env
            except (ValueError, OverflowError, ZeroDivisionError, KeyError):
                continue
        return None

    def sample_atom(self, a):
        r = self.rng
        lo, hi = a.lo, a.hi
        if a.isint:
            if lo == -INF:
                lo = -20
            if hi == INF:
                hi = 20
            return r.randint(int(math.ceil(lo)), int(math.floor(hi)))
        if lo == -INF and hi == INF:
            return r.uniform(-3, 3)
        if lo == -INF:
            return hi - r.uniform(1e-3, 3)
        if hi == INF:
            return lo + r.uniform(1e-3, 3)
        u = r.random()
        u = 1e-6 + u * (1 - 2e-6)
        v = lo + u * (hi - lo)
        return v

    def z3_env(self, model):
        """Input values from a z3 model (angles recovered from their cosine and sine)."""
        env = P.Env()
        for name, i in self.inputs.items():
            a = P.POOL.atoms[i]
            v = self.zv.get(i)
            val = None
            if v is not None:
                x = model.eval(v, model_completion=False)
                val = _zfloat(x)
            for key, cid in list(P.POOL.index.items()):
                if not (isinstance(key, tuple) and key[0] == 'cos' and key[1] == ((i, 1),)) or cid not in self.zv:
                    continue
                c = P.POOL.atoms[cid]
                unit = key[2]
                s = P.POOL.get(('sin',) + key[1:])
                cv = _zfloat(model.eval(self.zv[c.id], model_completion=True))
                sv = _zfloat(model.eval(self.zatom(s.id), model_completion=True))
                if cv is not None and sv is not None:
                    t, per = math.atan2(sv, cv) / unit, abs(2 * math.pi / unit)
                    if a.lo > -INF:
                        t += per * math.ceil((a.lo - 1e-9 - t) / per)
                    elif a.hi < INF:
                        t += per * math.floor((a.hi + 1e-9 - t) / per)
                    val = t
                break
            if val is None:
                val = self.sample_atom(a)
            if a.isint:
                val = int(round(val))
            env[i] = val
        return env

    def names(self, env):
        return {n: env[i] for n, i in self.inputs.items()}


def _zfloat(x):
    try:
        if z3.is_int_value(x):
            return float(x.as_long())
        if z3.is_rational_value(x):
            return float(x.as_fraction())
        if z3.is_algebraic_value(x):
            return float(x.approx(30).as_fraction())
    except Exception:
        pass
    return None


# ==================================================================== obligations

class Obligation:
    __slots__ = ('label', 'kind', 'data', 'tol', 'status', 'note', 'cond')

    def __init__(self, label, kind, data, tol):
        self.label, self.kind, self.data, self.tol = label, kind, data, tol
        self.status, self.note = None, ''


def discharge(ex, obs, budget=20.0):
    """Decide the obligations of one path.  Sets status to 'proved', 'refuted' (with env in note) or 'unknown'."""
    st = ex.stats
    lp = []
    for o in obs:
        if o.status:
            continue
        if o.kind == 'zero':
            got, want, atol = o.data
            D, g, w = P.clear(P.sub(got, want), (got, want))
            sc = max([abs(float(c)) for c in g.values()] + [abs(float(c)) for c in w.values()] + [0.0])
            M = 1.0
            bounds = {}
            for q in (g, w):
                for m in q:
                    lo, hi = P.mono_interval(m)
                    b = max(abs(lo), abs(hi))
                    bounds[m] = b
                    if b < INF:
                        M = max(M, b)
            lim = max(o.tol * max(sc, 1e-300) * M, atol)
            lp.append((o, D, bounds, lim, M))
        elif o.kind in ('true', 'within'):
            if o.kind == 'within':
                if _within(ex, o.data, o.tol):
                    o.status = 'proved'
                    continue
                o.data = o.cond()
            cond = o.data
            if isinstance(cond, SBool):
                _prove_cond(ex, o, cond, budget)
            else:
                if cond:
                    o.status = 'proved'
                else:
                    o.status, o.note = 'refuted', None
    if lp:
        _lp_batch(ex, lp)
        for o, D, bounds, lim, M in lp:
            if o.status is None:
                _refine_zero(ex, o, D, lim, budget)
    for o in obs:
        st.inc('obligations')
        if o.status == 'proved':
            st.inc('proved')


def _within(ex, d, lim):
    """|d| <= lim for all values: the monomials are independent reals within their ranges (a sound relaxation)."""
    s = z3.Solver()
    s.set('timeout', 20000)
    t = []
    for i, (m, c) in enumerate(d.items()):
        if m == ONE:
            t.append(rv(c))
            continue
        lo, hi = P.mono_interval(m)
        if not max(abs(lo), abs(hi)) < INF:
            return False
        v = z3.Real('m%d' % i)
        s.add(v >= rv(lo), v <= rv(hi))
        t.append(rv(c) * v)
    e = z3.Sum(t) if t else z3.RealVal(0)
    s.add(z3.Or(e > rv(lim), e < rv(-lim)))
    t0 = time.time()
    r = s.check()
    ex.stats.inc('queries')
    ex.stats['solver_s'] = ex.stats.get('solver_s', 0.0) + time.time() - t0
    return r == z3.unsat


def _lp_batch(ex, lp):
    """One LRA query per batch: monomials become independent bounded reals (a sound relaxation)."""
    st = ex.stats
    zm = {}

    def mv(m, b):
        v = zm.get(m)
        if v is None:
            v = z3.Real('m%d' % len(zm))
            zm[m] = v
        return v
    for k in range(0, len(lp), 200):
        part = lp[k:k + 200]
        s = z3.Solver()
        s.set('timeout', 20000)
        disj = []
        seen = set()
        for o, D, bounds, lim, M in part:
            if not D:
                disj.append(z3.RealVal(0) > rv(lim))
                continue
            t = []
            for m, c in D.items():
                if m == ONE:
                    t.append(rv(c))
                    continue
                lo, hi = P.mono_interval(m)
                b = max(abs(lo), abs(hi))
                if not b < INF:
                    b = M
                v = mv((m, b), b)
                if (m, b) not in seen:
                    seen.add((m, b))
                    s.add(v >= rv(-b), v <= rv(b))
                t.append(rv(c) * v)
            e = z3.Sum(t)
            disj.append(z3.Or(e > rv(lim), e < rv(-lim)))
        t0 = time.time()
        s.push()
        s.add(z3.Or(*disj))
        r = s.check()
        st.inc('queries')
        s.pop()
        if r == z3.unsat:
            for o, *_ in part:
                o.status = 'proved'
        else:
            for (o, *_), d in zip(part, disj):
                s.push()
                s.add(d)
                r = s.check()
                st.inc('queries')
                s.pop()
                if r == z3.unsat:
                    o.status = 'proved'
        st['solver_s'] = st.get('solver_s', 0.0) + time.time() - t0


def _nonlinear_inputs(ex, polys):
    """Inputs under a derived atom (angles, roots, denominators ...): these get pinned."""
    ids = set()
    for p in polys:
        for i in P.atoms_of(p):
            if P.POOL.atoms[i].kind != 'var':
                ids |= P.deps(i)
    return {i for i in ids if P.POOL.atoms[i].kind == 'var'}


def _refine_zero(ex, o, D, lim, budget):
    """The relaxation admits a difference: look for a real one, then try to prove there is none."""
    got, want, atol = o.data
    t_end = time.time() + budget
    if any(P.POOL.atoms[i].kind == 'pos' for i in P.atoms_of(D)):
        D = P.clear(P.reduce_mono(ex.resolve_pos(D)))
        if not D or P.interval(D)[0] >= -lim and P.interval(D)[1] <= lim:
            o.status = 'proved'
            return
    diff = P.sub(got, want)
    polys = [diff] + [q for b in ex.pc for q in b.polys()]
    # 1. concrete pins of the nonlinear inputs, z3 for the remaining ones
    pins = _nonlinear_inputs(ex, polys)
    free = [i for i in ex.inputs.values() if i not in pins]
    for k in range(24):
        if time.time() > t_end:
            break
        env = ex.sample_env(tries=60)
        if env is None:
            break
        w = _witness_pinned(ex, env, pins, diff, got, want, o.tol, atol)
        if w is not None:
            o.status, o.note = 'refuted', w
            return
        ex.stats.inc('pinned_unsat')
    # 2. full nonlinear query
    f1 = lambda: z3.Or(ex.zpoly(D) > rv(lim), ex.zpoly(D) < rv(-lim))
    r = ex.zcheck([f1], [D] + polys, int(max(1.0, min(15.0, t_end - time.time() + 5)) * 1000))
    if r == z3.unsat:
        o.status = 'proved'
        ex.stats.inc('nra_proved')
        return
    if r == z3.sat:
        env = ex.z3_env(ex.zmodel)
        o.status, o.note = 'refuted', ex.names(env)
        return
    o.status = 'unknown'
    o.note = 'difference %s' % P.show(D, 4)


def _witness_pinned(ex, env, pins, diff, got, want, tol, atol=0.0):
    """Values for all inputs making |got-want| clearly nonzero with the pinned inputs as in env; z3 picks the rest."""
    sub = {}
    for i in range(len(P.POOL.atoms)):
        a = P.POOL.atoms[i]
        if a.kind == 'var' and i not in pins:
            continue
        if a.kind != 'var':
            d = {j for j in P.deps(i) if P.POOL.atoms[j].kind == 'var'}
            if not d <= pins:
                continue
        try:
            sub[i] = env[i]
        except (ValueError, OverflowError, ZeroDivisionError, KeyError):
            return None

    def spec(p):
        out = {}
        for m, c in p.items():
            k = float(c)
            rest = []
            for a, e in m:
                if a in sub:
                    try:
                        k *= sub[a] ** (float(e) if isinstance(e, Fraction) else e)
                    except (ZeroDivisionError, OverflowError):
                        return None
                else:
                    rest.append((a, e))
            mm = tuple(rest)
            out[mm] = out.get(mm, 0.0) + k
            big[0] = max(big[0], abs(k))
        return out
    big = [1e-300]
    d = spec(diff)
    g = spec(got)
    if d is None or g is None:
        return None
    if any(not math.isfinite(v) for v in d.values()):
        return None
    mag = max([abs(v) for v in g.values()] + [abs(v) for v in d.values()] + [1e-300])
    d = {m: v for m, v in d.items() if abs(v) > 1e-13 * big[0]}
    d = {m: v for m, v in d.items() if abs(v) > max(tol * mag, atol)}
    if not d:
        return None
    # ask z3 for the free inputs
    s = z3.Solver()
    s.set('timeout', 4000)
    zv = {}

    def za(i):
        if i not in zv:
            a = P.POOL.atoms[i]
            v = z3.ToReal(z3.Int('i%d' % i)) if a.isint else z3.Real('p%d' % i)
            zv[i] = v
            lo, hi = a.lo, a.hi
            s.add(v >= rv(max(lo, -1e6)), v <= rv(min(hi, 1e6)))
        return zv[i]

    def zp(p):
        t = [z3.RealVal(0)]
        for m, c in p.items():
            x = rv(c)
            for a, e in m:
                if e < 0 or e != int(e):
                    raise Unsupported('pinned')
                for _ in range(int(e)):
                    x = x * za(a)
            t.append(x)
        return z3.Sum(t)

    def zb(b):
        if not isinstance(b, SBool):
            return z3.BoolVal(bool(b))
        if b.op == 'cmp':
            q = spec(b.args[0])
            if q is None:
                raise Unsupported('pinned')
            if all(m == ONE for m in q) and b.args[1] == '==' and abs(q.get(ONE, 0)) < 1e-9:
                return z3.BoolVal(True)
            x = zp(q)
            return {'<': x < 0, '<=': x <= 0, '==': x == 0, '!=': x != 0}[b.args[1]]
        if b.op == 'not':
            return z3.Not(zb(b.args[0]))
        return (z3.And if b.op == 'and' else z3.Or)(*[zb(a) for a in b.args])
    try:
        for b in ex.pc:
            s.add(zb(b))
        e = zp(d)
    except Unsupported:
        e = None
    if e is not None:
        t0 = time.time()
        for margin in (0.3, 1e-3, 1e-6, 1e-12):
            s.push()
            lim = margin * max(abs(v) for v in d.values())
            s.add(z3.Or(e > rv(lim), e < rv(-lim)))
            r = s.check()
            ex.stats.inc('queries')
            if r == z3.sat:
                mdl = s.model()
                out = {}
                for name, i in ex.inputs.items():
                    if i in zv:
                        v = _zfloat(mdl.eval(zv[i], model_completion=True))
                        out[name] = int(round(v)) if P.POOL.atoms[i].isint else v
                    else:
                        out[name] = env[i]
                s.pop()
                ex.stats['solver_s'] = ex.stats.get('solver_s', 0.0) + time.time() - t0
                return out
            s.pop()
            if r == z3.unknown:
                break
        ex.stats['solver_s'] = ex.stats.get('solver_s', 0.0) + time.time() - t0
    # fall back to the sampled point itself
    try:
        v = P.evaluate(diff, env)
        if abs(v) > atol + tol * (1 + abs(P.evaluate(got, env)) + abs(P.evaluate(want, env))):
            return ex.names(env)
    except (ValueError, OverflowError, ZeroDivisionError, KeyError):
        pass
    return None


def loosen(b, positive=True):
    """The condition up to rounding: comparisons of real quantities get a margin of 1e-11 of their largest coefficient."""
    if not isinstance(b, SBool):
        return b
    if b.op == 'not':
        a = loosen(b.args[0], not positive)
        return sym.b_not(a)
    if b.op in ('and', 'or'):
        return SBool(b.op, *[loosen(a, positive) for a in b.args])
    p, rel = b.args
    if all(isinstance(c, int) for c in p.values()) and all(P.POOL.atoms[a].isint for a in P.atoms_of(p)):
        return b
    eps = P.const(1e-11 * max(abs(float(c)) for c in p.values()))
    if rel in ('<', '<='):
        return SBool('cmp', P.sub(p, eps) if positive else P.add(p, eps), rel)
    if (rel == '==') == positive:
        lo, hi = SBool('cmp', P.sub(p, eps), '<='), SBool('cmp', P.sub(P.neg(p), eps), '<=')
        r = SBool('and', lo, hi)
        return r if positive else SBool('not', r)
    return b


def _prove_cond(ex, o, cond, budget):
    cond = loosen(cond)
    r = ex.zcheck([lambda: z3.Not(ex.zbool(cond))], cond.polys(), 5000)
    if r == z3.unsat:
        o.status = 'proved'
        return
    # candidate counterexamples: z3's model, then sampled points of the path
    cands = []
    if r == z3.sat:
        cands.append(ex.z3_env(ex.zmodel))
    for _ in range(40):
        e = ex.sample_env(tries=20)
        if e is None:
            break
        cands.append(e)
    for env in cands:
        try:
            if all(b.evaluate(env) for b in ex.pc) and not cond.evaluate(env):
                o.status, o.note = 'refuted', ex.names(env)
                return
        except (ValueError, OverflowError, ZeroDivisionError, KeyError):
            continue
    if r == z3.sat:
        # a model of the relaxation that does not evaluate: still offered for replay
        o.status, o.note = 'refuted', ex.names(cands[0])
        return
    r = ex.zcheck([lambda: z3.Not(ex.zbool(cond))], cond.polys(), int(budget * 1000))
    if r == z3.unsat:
        o.status = 'proved'
    else:
        o.status = 'unknown'
