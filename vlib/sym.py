"""Symbolic scalars carried through the real code by object-dtype arrays.

A Sym is an immutable linear combination  const + sum(coef * atom).  Atoms are
hash-consed:  variables, products of atoms / sums, reciprocals, square roots and
uninterpreted applications.  No expansion is done here: sums of products stay
nested, and it is the SMT solver which decides equalities between them.
"""
from fractions import Fraction
import contextlib
import math
import numbers

import numpy as np


class Unsupported(Exception):
    """The symbolic engine met an operation it has no semantics for."""


_FLOAT_EPS = 1e-12


def rat(x):
    """Exact rational meaning of a python/numpy number; float literals such as
    0.333.. are read as the simple rational they round (within 1e-12)."""
    if isinstance(x, (bool,)):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x if x.denominator != 1 else x.numerator
    if isinstance(x, numbers.Integral) or isinstance(x, np.bool_):
        return int(x)
    if isinstance(x, np.floating):
        x = float(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported('non-finite constant %r' % x)
        if x == int(x):
            return int(x)
        f = Fraction(x)
        g = f.limit_denominator(10 ** 6)
        if abs(f - g) <= _FLOAT_EPS * max(1, abs(f)):
            f = g
        return f
    raise Unsupported('cannot interpret %r as a real number' % (type(x),))


class Atom:
    __slots__ = ('op', 'args', 'id', '__weakref__')
    table = {}
    count = 0

    def __new__(cls, op, args):
        key = (op, args)
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.op, a.args = op, args
            a.id = Atom.count
            Atom.count += 1
            cls.table[key] = a
        return a

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return f'{self.op}{self.args}'

    @classmethod
    def reset(cls):
        cls.table.clear()


def _norm(c, terms):
    terms = {a: k for a, k in terms.items() if k != 0}
    return Sym(c, terms)


class Sym:
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c, self.t = c, t

    # -- construction
    @staticmethod
    def var(name):
        return Sym(0, {Atom('v', (name,)): 1})

    @staticmethod
    def const(x):
        return Sym(rat(x), {})

    @staticmethod
    def of(x):
        return x if isinstance(x, Sym) else Sym(rat(x), {})

    @staticmethod
    def apply(name, *args):
        return Sym(0, {Atom('f', (name,) + tuple(Sym.of(a).key() for a in args)): 1})

    @property
    def is_const(self):
        return not self.t

    def key(self):
        """An atom denoting this whole expression (only used inside other atoms)"""
        if not self.t:
            return Atom('c', (Fraction(self.c),))
        if self.c == 0 and len(self.t) == 1:
            (a, k), = self.t.items()
            if k == 1:
                return a
        return Atom('+', (Fraction(self.c), tuple(sorted(self.t.items(), key=lambda q: q[0].id))))

    # -- ring operations
    def __add__(self, o):
        try:
            o = Sym.of(o)
        except Unsupported:
            return NotImplemented
        if not o.t:
            return Sym(self.c + o.c, self.t)
        if not self.t:
            return Sym(self.c + o.c, o.t)
        a, b = (self, o) if len(self.t) >= len(o.t) else (o, self)
        t = dict(a.t)
        for k, v in b.t.items():
            w = t.get(k, 0) + v
            if w == 0:
                t.pop(k, None)
            else:
                t[k] = w
        return Sym(a.c + b.c, t)
    __radd__ = __add__

    def __neg__(self):
        return Sym(-self.c, {a: -k for a, k in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        try:
            o = Sym.of(o)
        except Unsupported:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def _scale(self, k):
        if k == 0:
            if Sym.TOTAL and nonfinite(self):
                return Sym(0, {Atom('nan', ()): 1})
            return Sym(0, {})
        if k == 1:
            return self
        return Sym(self.c * k, {a: v * k for a, v in self.t.items()})

    def _mono(self):
        """(coefficient, factor atoms) for use inside a product"""
        if self.c == 0 and len(self.t) == 1:
            (a, k), = self.t.items()
            return k, (a.args if a.op == '*' else (a,))
        return 1, (self.key(),)

    def __mul__(self, o):
        try:
            o = Sym.of(o)
        except Unsupported:
            return NotImplemented
        if not o.t:
            return self._scale(o.c)
        if not self.t:
            return o._scale(self.c)
        k1, f1 = self._mono()
        k2, f2 = o._mono()
        # cancel reciprocals: inv(a) * a = 1 is left to the solver on purpose
        return Sym(0, {Atom('*', tuple(sorted(f1 + f2, key=lambda a: a.id))): k1 * k2})
    __rmul__ = __mul__

    TOTAL = False           # 1/0 is the infinity of floating point instead of an error

    def inv(self):
        if not self.t:
            if self.c == 0:
                if Sym.TOTAL:
                    return Sym(0, {Atom('inf', ()): 1})
                raise ZeroDivisionError
            return Sym(rat(1 / Fraction(self.c)), {})
        return Sym(0, {Atom('inv', (self.key(),)): 1})

    def __truediv__(self, o):
        try:
            o = Sym.of(o)
        except Unsupported:
            return NotImplemented
        return self * o.inv()

    def __rtruediv__(self, o):
        return Sym.of(o) * self.inv()

    def sqrt(self):
        if not self.t:
            f = Fraction(self.c)
            if f >= 0:
                n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if n * n == f.numerator and d * d == f.denominator:
                    return Sym(rat(Fraction(n, d)), {})
        return Sym(0, {Atom('sqrt', (self.key(),)): 1})

    def __pow__(self, p):
        if isinstance(p, Sym):
            raise Unsupported('symbolic exponent')
        p = rat(p)
        if p == Fraction(1, 2):
            return self.sqrt()
        if p == Fraction(-1, 2):
            return self.sqrt().inv()
        if isinstance(p, int):
            if p == 0:
                return Sym(1, {})
            r = self
            for _ in range(abs(p) - 1):
                r = r * self
            return r if p > 0 else r.inv()
        raise Unsupported('power %r' % p)

    def __abs__(self):
        if not self.t:
            return Sym(abs(self.c), {})
        return Sym(0, {Atom('abs', (self.key(),)): 1})
    fabs = __abs__

    def exp(self):
        return Sym(1, {}) if self.is_zero() else Sym.apply('exp', self)

    def is_zero(self):
        return not self.t and self.c == 0

    def log(self):
        return Sym.apply('log', self)

    def cos(self):
        return Sym(1, {}) if self.is_zero() else Sym.apply('cos', self)

    def sin(self):
        return Sym(0, {}) if self.is_zero() else Sym.apply('sin', self)

    def arctan(self):
        return Sym.apply('arctan', self)

    def arctan2(self, other):
        return Sym.apply('arctan2', self, other)

    def arccos(self):
        return Sym.apply('arccos', self)

    def arcsinh(self):
        return Sym.apply('arcsinh', self)

    def conjugate(self):
        return self

    def __bool__(self):
        if not self.t:
            return bool(self.c)
        raise Unsupported('truth value of a symbolic scalar')

    def __float__(self):
        if not self.t:
            return float(self.c)
        raise Unsupported('float() of a symbolic scalar')

    def __int__(self):
        if not self.t and self.c == int(self.c):
            return int(self.c)
        raise Unsupported('int() of a symbolic scalar')

    def __lt__(self, o):
        return compare('lt', self, o)

    def __le__(self, o):
        return compare('le', self, o)

    def __gt__(self, o):
        return compare('gt', self, o)

    def __ge__(self, o):
        return compare('ge', self, o)

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, Sym):
            d = self - o
        else:
            try:
                d = self - o
            except Exception:
                return NotImplemented
        if not d.t:
            return d.c == 0
        if SymBool.oracle is not None:
            return SymBool('eq', self, Sym.of(o))
        raise Unsupported('equality test on symbolic scalars')

    def same(self, o):
        return isinstance(o, Sym) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, tuple(sorted((a.id, k) for a, k in self.t.items()))))

    def __repr__(self):
        return 'Sym(%s%s)' % (self.c, ''.join('%+s*%s' % (k, short(a)) for a, k in list(self.t.items())[:4]))

    # -- concrete evaluation (replay / model guidance)
    def eval(self, env, memo=None):
        memo = {} if memo is None else memo
        return _evl(self.c, self.t.items(), env, memo)


NEG = dict(lt='ge', ge='lt', gt='le', le='gt', eq='ne', ne='eq')


class SymBool:
    """An undecided comparison; asking for its truth value forks the execution (env.explore)"""
    oracle = None
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def __bool__(self):
        if SymBool.oracle is None:
            raise Unsupported('truth value of a comparison of symbolic scalars')
        return SymBool.oracle(self)

    def negated(self):
        return SymBool(NEG[self.op], self.a, self.b)

    def fact(self):
        return (self.op, self.a, self.b)


def compare(op, a, b):
    try:
        b = Sym.of(b)
    except Unsupported:
        return NotImplemented
    d = a - b
    if not d.t:
        return dict(lt=d.c < 0, le=d.c <= 0, gt=d.c > 0, ge=d.c >= 0)[op]
    return SymBool(op, a, b)


def nonfinite(s):
    """does a floating point infinity or nan enter this expression?"""
    st, seen = list(s.t) if isinstance(s, Sym) else [], set()
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        if a.op in ('inf', 'nan'):
            return a.op
        if a.op == '+':
            st += [x for x, _ in a.args[1]]
        else:
            st += [x for x in a.args if isinstance(x, Atom)]
    return None


def nan_to_num(x, nan=0):
    """numpy.nan_to_num on an array of Syms: infinities become some large number"""
    x = np.asarray(x, dtype=object)
    out = x.copy()
    for i in np.ndindex(x.shape):
        k = nonfinite(x[i])
        if k == 'nan':
            out[i] = Sym.of(nan)
        elif k == 'inf':
            out[i] = Sym.var('big!%d' % (hash(x[i]) % 1000))
    return out


def short(a):
    if a.op == 'v':
        return a.args[0]
    if a.op == '*':
        return '*'.join(short(x) for x in a.args)
    return a.op + '(..)'


def _evl(c, items, env, memo):
    s = c
    for a, k in items:
        s = _COEF[0](s) + _COEF[0](k) * evalatom(a, env, memo)
    return s


_FUN = {'exp': math.exp, 'log': math.log, 'cos': math.cos, 'sin': math.sin,
        'arctan': math.atan, 'arctan2': math.atan2, 'arccos': math.acos, 'arcsinh': math.asinh}

_SQRT, _NUM, _COEF = [math.sqrt], [float], [lambda q: q]


def exact(q):
    import mpmath
    return mpmath.mpf(q.numerator) / q.denominator if isinstance(q, Fraction) else mpmath.mpf(q)


@contextlib.contextmanager
def precise(digits=60):
    """evaluate at this precision: differences that remain are not rounding"""
    import mpmath
    old = dict(_FUN), _SQRT[0], _NUM[0], _COEF[0]
    real = lambda f: lambda *x: mpmath.mpf(f(*x)) if isinstance(f(*x), mpmath.mpf) else _domain()
    _FUN.update({k: real(getattr(mpmath, {'arctan': 'atan', 'arctan2': 'atan2', 'arccos': 'acos', 'arcsinh': 'asinh'}.get(k, k))) for k in _FUN})
    num = exact
    _SQRT[0] = lambda q: real(mpmath.sqrt)(num(q))
    _NUM[0] = _COEF[0] = num
    try:
        with mpmath.workdps(digits):
            yield
    finally:
        _FUN.update(old[0])
        _SQRT[0], _NUM[0], _COEF[0] = old[1:]


def _domain():
    raise ValueError('outside the domain')


def evalatom(a, env, memo):
    if a in memo:
        return memo[a]
    op = a.op
    if op == 'v':
        r = env[a.args[0]]
    elif op == 'c':
        r = _COEF[0](a.args[0])
    elif op == '+':
        r = _evl(a.args[0], a.args[1], env, memo)
    elif op == '*':
        r = 1
        for x in a.args:
            r = r * evalatom(x, env, memo)
    elif op == 'inv':
        q = evalatom(a.args[0], env, memo)
        r = 1 / (Fraction(q) if isinstance(q, int) else q)
    elif op == 'sqrt':
        q = evalatom(a.args[0], env, memo)
        r = _SQRT[0](q)
    elif op == 'abs':
        r = abs(evalatom(a.args[0], env, memo))
    elif op == 'f':
        r = _FUN[a.args[0]](*(_NUM[0](evalatom(x, env, memo)) for x in a.args[1:]))
    else:
        raise Unsupported(op)
    memo[a] = r
    return r


class Z3Ctx:
    """Translate Syms to z3 reals, collecting the definitional side conditions
    of reciprocals (b != 0, b*v = 1) and square roots (v >= 0, v*v = x)."""

    def __init__(self):
        import z3
        self.z3 = z3
        self.memo = {}
        self.vars = {}
        self.side = []          # definitional constraints
        self.domain = []        # human readable list of domain restrictions

    def num(self, x):
        f = Fraction(x)
        z3 = self.z3
        return z3.RealVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)

    def sym(self, s):
        if not isinstance(s, Sym):
            return self.num(rat(s))
        return self._lin(s.c, s.t.items())

    def _lin(self, c, items):
        z3 = self.z3
        out = []
        if c != 0:
            out.append(self.num(c))
        for a, k in items:
            e = self.atom(a)
            out.append(e if k == 1 else (-e if k == -1 else self.num(k) * e))
        if not out:
            return self.num(0)
        return out[0] if len(out) == 1 else z3.Sum(out)

    def atom(self, a):
        z3 = self.z3
        r = self.memo.get(a)
        if r is not None:
            return r
        op = a.op
        if op == 'v':
            r = z3.Real(a.args[0])
            self.vars[a.args[0]] = r
        elif op == 'c':
            r = self.num(a.args[0])
        elif op == '+':
            r = self._lin(a.args[0], a.args[1])
        elif op == '*':
            r = z3.Product([self.atom(x) for x in a.args])
        elif op == 'inv':
            b = self.atom(a.args[0])
            r = z3.Real('inv!%d' % a.id)
            self.side.append(b * r == 1)
            self.domain.append('divisor nonzero')
        elif op == 'sqrt':
            b = self.atom(a.args[0])
            r = z3.Real('sqrt!%d' % a.id)
            self.side.append(z3.And(r * r == b, r >= 0))
            self.domain.append('radicand nonnegative')
        elif op == 'abs':
            b = self.atom(a.args[0])
            r = z3.If(b >= 0, b, -b)
        elif op == 'f':
            f = z3.Function(a.args[0], *([z3.RealSort()] * len(a.args)))
            r = f(*[self.atom(x) for x in a.args[1:]])
        else:
            raise Unsupported(op)
        self.memo[a] = r
        return r
