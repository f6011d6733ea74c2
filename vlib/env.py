"""Harness environments.

A harness is one python function  fn(env, **cfg)  which drives the real numga code
and states equalities / facts through env.  It runs in two worlds:

  SymEnv   object-dtype NumpyContext, inputs are fresh symbolic reals; every
           env.eq becomes an SMT obligation over all values of the inputs
  ConcEnv  the stock float64 NumpyContext, inputs are the solver's model; used to
           replay a counterexample against the unpatched code
"""
import contextlib
import hashlib
import itertools
import random
import time
from fractions import Fraction

import numpy as np

from vlib.sym import Sym, SymBool, nonfinite, nan_to_num, Unsupported, Z3Ctx, rat
from vlib.linear import linear_unsat
from vlib.tower import Tower, TooBig, has_ext, size


class Violation(Exception):
    pass


class AssumptionFailed(Exception):
    pass


_algebras = {}


def algebra(sig):
    """Fresh per process, cached by description string (flyweights are per algebra)"""
    from numga.algebra.algebra import Algebra
    if sig not in _algebras:
        if set(sig) <= set('+-0'):
            _algebras[sig] = Algebra.from_str(''.join(c + s for c, s in zip('abcdefghijklmnopqrstuvwxyz', sig)))
        else:
            _algebras[sig] = Algebra.from_str(sig)
    return _algebras[sig]


def is_mv(x):
    return hasattr(x, 'subspace') and hasattr(x, 'values')


def aslists(x):
    """multivector -> {blade: array of coefficients over the broadcast shape}"""
    blades = [int(b) for b in x.subspace.blades]
    v = x.values if isinstance(x.values, np.ndarray) else np.array(x.values, dtype=object)
    if v.shape[-1:] != (len(blades),):
        raise Violation('coefficient axis %r does not match subspace of %d blades' % (v.shape, len(blades)))
    return {b: v[..., i] for i, b in enumerate(blades)}


class BaseEnv:
    symbolic = None

    def __init__(self, seed=0):
        self.facts = 0
        self.labels = []
        self.seed = seed

    # -- contexts
    def ctx(self, sig, **kw):
        raise NotImplementedError

    # -- coefficients
    def scalars(self, name, n):
        return [self.scalar(f'{name}{i}') for i in range(n)]

    def array(self, name, shape):
        a = np.empty(shape, dtype=object)
        for idx in itertools.product(*map(range, shape)):
            a[idx] = self.scalar(name + '_' + '_'.join(map(str, idx)))
        return a if self.symbolic else a.astype(float)

    def mv(self, ctx, name, subspace, shape=()):
        n = len(subspace)
        a = np.empty(tuple(shape) + (n,), dtype=object)
        for idx in itertools.product(*map(range, a.shape)):
            a[idx] = self.scalar('%s_%s%d' % (name, ''.join('%d_' % i for i in idx[:-1]), int(subspace.blades[idx[-1]])))
        if not self.symbolic:
            a = a.astype(np.float64)
        return ctx.multivector(values=a, subspace=subspace)

    def own(self, x):
        """only the components x is typed with"""
        if is_mv(x):
            return [((b,) + i, v[i], 0) for b, v in aslists(x).items() for i in np.ndindex(np.shape(v))]
        if isinstance(x, dict):
            return [((b,) + i, np.asarray(v, dtype=object)[i], 0) for b, v in x.items() for i in np.ndindex(np.shape(v))]
        return self.pairs(x, 0)

    def pairs(self, l, r):
        """Align two values componentwise; multivectors by blade, absent blades are zero"""
        if is_mv(l) or is_mv(r):
            l = aslists(l) if is_mv(l) else ({0: np.asarray(l)} if not isinstance(l, dict) else l)
            r = aslists(r) if is_mv(r) else ({0: np.asarray(r)} if not isinstance(r, dict) else r)
        if isinstance(l, dict) or isinstance(r, dict):
            l = {0: l} if not isinstance(l, dict) else l
            r = {0: r} if not isinstance(r, dict) else r
            out = []
            zero = np.zeros((), dtype=object)
            for b in sorted(set(l) | set(r)):
                x, y = np.broadcast_arrays(np.asarray(l.get(b, zero), dtype=object), np.asarray(r.get(b, zero), dtype=object))
                out += [((b,) + i, x[i], y[i]) for i in np.ndindex(x.shape)]
            return out
        x = np.asarray(l, dtype=object)
        y = np.asarray(r, dtype=object)
        if x.shape != y.shape:
            x, y = np.broadcast_arrays(x, y)
        return [(i, x[i], y[i]) for i in np.ndindex(x.shape)]


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, seed=0):
        super().__init__(seed)
        self.obls = []          # (label, pairs, assumptions-at-that-point)
        self.assumed = []       # list of ('eq', a, b) / ('pos', a) / ('ne', a)
        self.inputs = {}
        self.hints = {}

    def ctx(self, sig, **kw):
        from numga.backend.numpy.context import NumpyContext
        return NumpyContext(algebra(sig), dtype=object, **kw)

    def scalar(self, name):
        if name not in self.inputs:
            self.inputs[name] = Sym.var(name)
        return self.inputs[name]

    def eq(self, l, r, label='', lemmas=()):
        """lemmas: multipliers whose product with each equality premise is handed to the solver"""
        p = self.pairs(l, r)
        self.facts += 1
        self.obls.append((label, 'eq', p, tuple(self.assumed), tuple(np.asarray(m, dtype=object).item() for m in lemmas)))

    def cut(self, l, r, label='', lemmas=()):
        """prove l == r, then use it as a premise"""
        self.eq(l, r, label, lemmas)
        self.assume_eq(l, r)

    def nonneg(self, x, label=''):
        """every component of x is >= 0"""
        self.obls.append((label, 'nonneg', [(i, a, 0) for i, a, _ in self.pairs(x, 0)], tuple(self.assumed)))

    def nonzero(self, x, label=''):
        """every component of x can be made nonzero by some input values"""
        self.obls.append((label, 'exists', self.own(x), tuple(self.assumed)))

    def defined(self, x, label=''):
        """some input values make x defined (no divisor is identically zero, no radicand always negative)"""
        self.obls.append((label, 'defined', self.own(x), tuple(self.assumed)))

    def finite(self, x, label=''):
        """no infinity or nan survives in x"""
        self.facts += 1
        for i, a, _ in self.own(x):
            if nonfinite(a):
                raise Violation('%s: component %s is not finite' % (label, i))

    @contextlib.contextmanager
    def floats(self, ctx):
        """division by a constant zero and nan_to_num behave as in floating point"""
        real = np.nan_to_num
        cls = type(ctx)
        code = cls.nan_to_num

        def model(x, copy=True, nan=0.0, posinf=None, neginf=None):
            if getattr(x, 'dtype', None) != object:
                return real(x, copy=copy, nan=nan, posinf=posinf, neginf=neginf)
            out = nan_to_num(x, nan)
            if copy:
                return out
            x[...] = out
            return x

        def method(self, x, nan):
            try:
                return code(self, x, nan)
            except (TypeError, Unsupported):    # written with something that has no meaning on terms
                return nan_to_num(x, nan)
        with self.patched(Sym, 'TOTAL', True), self.patched(np, 'nan_to_num', model), self.patched(cls, 'nan_to_num', method):
            yield

    def true(self, cond, label=''):
        """A fact of the static (subspace / shape / identity) level: it does not depend on coefficients"""
        self.facts += 1
        if not bool(cond):
            raise Violation(label)

    def assume_eq(self, l, r):
        self.assumed += [('eq', a, b) for _, a, b in self.pairs(l, r)]

    def assume_pos(self, x):
        self.assumed += [('pos', a, 0) for _, a, _ in self.pairs(x, 0)]

    def assume_ne(self, l, r=0):
        self.assumed += [('ne', a, b) for _, a, b in self.pairs(l, r)]

    def explore(self, fn, limit=64):
        """run fn once per feasible outcome of the symbolic comparisons it branches on"""
        import z3
        if SymBool.oracle is not None:      # inside an exploration of the whole harness
            return fn()
        todo = [()]
        runs = 0
        while todo:
            prefix = todo.pop()
            runs += 1
            if runs > limit:
                raise Unsupported('more than %d paths' % limit)
            taken, base = [], len(self.assumed)

            def feasible():
                Z = Z3Ctx()
                s = z3.Solver()
                s.set('timeout', 1000)
                ps = [_pred(z3, Z, k, a, b) for k, a, b in self.assumed]
                s.add(Z.side + ps)
                return s.check() != z3.unsat

            def oracle(cond):
                k = len(taken)
                for v in ((prefix[k],) if k < len(prefix) else (True, False)):
                    self.assumed.append((cond if v else cond.negated()).fact())
                    if k < len(prefix) or feasible():
                        if k >= len(prefix) and v:      # is the other outcome possible as well?
                            self.assumed[-1] = cond.negated().fact()
                            if feasible():
                                todo.append(tuple(taken) + (False,))
                            self.assumed[-1] = cond.fact()
                        taken.append(v)
                        return v
                    self.assumed.pop()
                raise Unsupported('infeasible path')

            SymBool.oracle = oracle
            try:
                fn()
            finally:
                SymBool.oracle = None
                del self.assumed[base:]
        self.paths = getattr(self, 'paths', 0) + runs

    @contextlib.contextmanager
    def patched(self, obj, name, value):
        missing = not hasattr(obj, name)        # e.g. a builtin shadowed in a module
        old = None if missing else getattr(obj, name)
        setattr(obj, name, value)
        try:
            yield
        finally:
            if missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)


class ConcEnv(BaseEnv):
    symbolic = False

    def __init__(self, values, seed=0, tol=1e-6):
        super().__init__(seed)
        self.values = values
        self.tol = tol
        self.failures = []
        self.used = {}

    def ctx(self, sig, **kw):
        from numga.backend.numpy.context import NumpyContext
        return NumpyContext(algebra(sig), **kw)

    def scalar(self, name):
        if name not in self.values:
            h = int(hashlib.sha1(('%s%s' % (name, self.seed)).encode()).hexdigest(), 16)
            self.values[name] = Fraction(h % 17 - 8, 4) or Fraction(1, 4)
        self.used[name] = self.values[name]
        return float(self.values[name])

    def cut(self, l, r, label='', lemmas=()):
        self.eq(l, r, label)

    def eq(self, l, r, label='', lemmas=()):
        self.facts += 1
        for i, a, b in self.pairs(l, r):
            a, b = complex(a), complex(b)
            if a != a and b != b or a == b:
                continue
            if not abs(a - b) <= self.tol * max(1.0, abs(a), abs(b)):
                self.failures.append('%s: component %s: %r != %r' % (label, i, a.real, b.real))
                return

    def nonneg(self, x, label=''):
        for i, a, _ in self.pairs(x, 0):
            if not float(a) >= -self.tol:
                self.failures.append('%s: component %s: %r < 0' % (label, i, a))
                return

    def nonzero(self, x, label=''):
        for i, a, _ in self.own(x):
            if float(a) == 0:
                self.failures.append('%s: component %s is zero' % (label, i))
                return

    def explore(self, fn, limit=64):
        fn()

    @contextlib.contextmanager
    def floats(self, ctx):
        yield

    def finite(self, x, label=''):
        return self.defined(x, label)

    def defined(self, x, label=''):
        for i, a, _ in self.own(x):
            if not abs(float(a)) < 1e300:
                self.failures.append('%s: component %s is not finite' % (label, i))
                return

    def true(self, cond, label=''):
        self.facts += 1
        if not bool(cond):
            self.failures.append(label)

    def assume_eq(self, l, r):
        for i, a, b in self.pairs(l, r):
            if not abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(a)), abs(float(b))):
                raise AssumptionFailed(repr((i, a, b)))

    def assume_pos(self, x):
        for i, a, _ in self.pairs(x, 0):
            if not float(a) > 0:
                raise AssumptionFailed(repr((i, a)))

    def assume_ne(self, l, r=0):
        for i, a, b in self.pairs(l, r):
            if float(a) == float(b):
                raise AssumptionFailed(repr((i, a)))

    @contextlib.contextmanager
    def patched(self, obj, name, value):
        yield               # replay runs the unpatched code


# ---------------------------------------------------------------- solving

class Stats(dict):
    def add(self, k, v=1):
        self[k] = self.get(k, 0) + v


def _pred(z3, Z, kind, a, b):
    a, b = Z.sym(a), Z.sym(b)
    if kind == 'eq':
        return a == b
    if kind == 'pos':
        return a > b
    if kind == 'ne':
        return a != b
    if kind in ('nonneg', 'ge'):
        return a >= b
    if kind in ('lt', 'le', 'gt'):
        return {'lt': a < b, 'le': a <= b, 'gt': a > b}[kind]
    raise ValueError(kind)


def guess_values(names, rng, mode):
    if mode == 0:
        return {n: Fraction(rng.randint(-3, 3)) for n in names}
    if mode == 1:
        return {n: Fraction(rng.randint(1, 9), rng.choice([2, 4])) for n in names}
    return {n: Fraction(rng.randint(-8, 8), rng.choice([1, 2, 4])) for n in names}


def solve_obligation(env, label, kind, pairs, assumed, stats, timeout_ms=20000, lemmas=()):
    """-> ('unsat'|'sat'|'unknown', model-values or None)"""
    import z3
    t0 = time.time()
    Z = Z3Ctx()
    diffs, exists, hard = [], [], False
    for i, a, b in pairs:
        a, b = Sym.of(a), Sym.of(b)
        d = a - b
        e = Z.sym(d)
        if has_ext(d) and kind == 'eq' and size(d) > 3000:
            hard = True
        elif kind != 'defined':
            e = z3.simplify(e, som=True, som_blowup=1000000)
        if kind == 'exists':
            exists.append(e != 0)
        elif kind == 'defined':
            exists = [z3.BoolVal(True)]
        elif kind == 'eq':
            diffs.append(e != 0)
        else:
            diffs.append(e < 0)
    prem = [_pred(z3, Z, k, a, b) for k, a, b in assumed]
    if kind in ('exists', 'defined'):
        everything, pairs = pairs, pairs if kind == 'exists' else pairs[:1]
        stats.add('queries', len(pairs))
        rng = random.Random(99)
        vals = guess_values(sorted(Z.vars), rng, 1)
        fix = [(Z.vars[n], Z.num(v)) for n, v in vals.items()]
        bad = None
        if kind == 'defined' and not prem and witness(everything, sorted(Z.vars)):
            exists = []
            stats.add('witnesses')
        for (i, a, b), e in zip(pairs, exists):
            s = z3.Solver()
            s.set('timeout', timeout_ms)
            s.add(Z.side + prem)
            s.add(e)
            s.push()
            s.add([v == x for v, x in fix])
            r = s.check()
            if r != z3.sat:
                s.pop()
                r = s.check()
            if r == z3.unsat:
                bad = i
                break
            if r != z3.sat:
                stats.add('solver_s', time.time() - t0)
                return 'unknown', None, None
        stats.add('solver_s', time.time() - t0)
        return ('sat' if bad is not None else 'unsat'), {}, None
    goal = (z3.Or(diffs) if hard else z3.simplify(z3.Or(diffs))) if diffs else z3.BoolVal(False)
    stats.add('queries')
    stats.add('components', len(pairs))

    def done(r, m=None, rep=None):
        stats.add('solver_s', time.time() - t0)
        return r, m, rep

    if z3.is_false(goal):
        s = z3.Solver()
        s.add(goal)
        assert s.check() == z3.unsat
        return done('unsat')
    if kind == 'eq' and any(has_ext(a) or has_ext(b) for _, a, b in pairs):
        tw = Tower()
        left = [] if not looks_false(pairs, sorted(Z.vars)) else None
        for i, a, b in pairs if left is not None else ():
            d = Sym.of(a) - Sym.of(b)
            try:
                stats.add('cleared')
                for p in tw.goals(d):
                    e = z3.simplify(Z.sym(p), som=True, som_blowup=1000000)
                    left.append(e != 0)
            except (TooBig, ZeroDivisionError):
                left = None
                break
        if left is not None:
            s = z3.Solver()
            s.set('timeout', timeout_ms)
            s.add(z3.simplify(z3.Or(left)) if left else z3.BoolVal(False))
            stats.add('queries')
            if s.check() == z3.unsat:
                return done('unsat')
    # guided models: the solver evaluates the negated property on concrete inputs
    side = list(Z.side) + prem
    names = sorted(Z.vars)
    rng = random.Random(12345)
    if not prem:
        for mode in (1, 0, 2):
            vals = guess_values(names, rng, mode)
            try:
                s = z3.Solver()
                s.set('timeout', 2000)
                s.add(side)
                s.add(goal)
                s.add([Z.vars[n] == Z.num(v) for n, v in vals.items()])
                stats.add('queries')
                if s.check() == z3.sat:
                    return done('sat', vals)
            except z3.Z3Exception:
                pass
    if prem and kind == 'eq':
        stats.add('queries')
        if linear_unsat([(a, b) for _, a, b in pairs], [(a, b) for k, a, b in assumed if k == 'eq'], lemmas):
            return done('unsat')
    simp = z3.With('simplify', som=True, som_blowup=1000000)
    last = 'unknown'
    attempts = [
        lambda: z3.Then(simp, 'solve-eqs', simp, 'smt').solver(),
        lambda: z3.Solver(),
        lambda: z3.Then(simp, 'qfnra-nlsat').solver(),
    ]
    lem = []
    for m in lemmas:
        for p in side:
            if z3.is_eq(p) and p.arg(0).sort() == z3.RealSort():
                lem.append(z3.simplify((p.arg(0) - p.arg(1)) * Z.sym(m), som=True) == 0)
    for k, mk in enumerate(attempts if not hard else attempts[1:2]):
        try:
            s = mk()
            s.set('timeout', timeout_ms)
            s.add([z3.simplify(p, som=True) for p in side] + lem)
            s.add(goal)
            stats.add('queries')
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return done('unsat')
        if r == z3.sat:
            m = s.model()
            vals = {}
            for n, v in Z.vars.items():
                x = m.eval(v, model_completion=True)
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                vals[n] = Fraction(x.numerator_as_long(), x.denominator_as_long())
            return done('sat', vals)
    return done('unknown')


def counterexample(kind, pairs, assumed, seed, tries=60):
    """Where the solver does not decide an obligation, or its model interprets a transcendental function at will, look for inputs which meet
    the premises - points at several scales, and models of the premises by the solver - and at which the two sides differ by much more
    than rounding when evaluated with sixty digits. None of this decides anything unless the replay on the real code fails as well"""
    import z3
    from vlib.sym import precise, exact
    if kind not in ('eq', 'nonneg'):
        return None
    Z = Z3Ctx()
    prem = [_pred(z3, Z, k, a, b) for k, a, b in assumed]
    side = list(Z.side)
    for i, a, b in pairs:
        Z.sym(Sym.of(a)), Z.sym(Sym.of(b))
    names = sorted(Z.vars)
    rng = random.Random(seed)

    def differs(vals):
        memo = {}
        for k, a, b in assumed:
            x = exact(Sym.of(a).eval(vals, memo)) - exact(Sym.of(b).eval(vals, memo))
            if not {'eq': abs(x) < 1e-40, 'ne': x != 0, 'pos': x > 0, 'gt': x > 0, 'ge': x >= 0, 'nonneg': x >= 0, 'lt': x < 0, 'le': x <= 0}[k]:
                return 0
        for i, a, b in pairs:
            x, y = exact(Sym.of(a).eval(vals, memo)), exact(Sym.of(b).eval(vals, memo))
            d = abs(x - y) / max(1, abs(x), abs(y)) if kind == 'eq' else y - x
            if d > 5e-8:
                return float(d)
        return 0

    def models():
        for k in range(tries):
            scale = Fraction(1, rng.choice([1, 1, 3, 8, 30, 100, 300, 1000])) if k % 5 else Fraction(rng.choice([5, 20, 100]))
            vals = guess_values(names, rng, k % 3)
            yield {n: v * (scale if k % 2 else rng.choice([1, scale])) for n, v in vals.items()}
        if not prem:
            return
        for k in range(6):
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(side + prem)
            own = sorted(n for n in names if k and rng.random() < .5)
            g = guess_values(own, rng, 2)
            s.add([z3.And(Z.vars[n] >= Z.num(g[n] - abs(g[n]) / 2), Z.vars[n] <= Z.num(g[n] + abs(g[n]) / 2)) for n in own])
            if s.check() != z3.sat:
                continue
            m, vals, free = s.model(), {}, guess_values(names, rng, 1)
            for n in names:
                x = m.eval(Z.vars[n])
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                vals[n] = Fraction(x.numerator_as_long(), x.denominator_as_long()) if z3.is_rational_value(x) else free[n]
            yield vals

    try:
        with precise():
            for vals in models():
                try:
                    d = differs({n: exact(v) for n, v in vals.items()})
                    if d:
                        return vals, min(1e-6, d / 3)
                except (ZeroDivisionError, ValueError, OverflowError, Unsupported, KeyError, TypeError):
                    continue
    except (ImportError, z3.Z3Exception):
        pass
    return None


def looks_false(pairs, names):
    """does floating point evaluation at some sample points contradict the equality? (only steers the choice of tactic)"""
    for mode in (1, 0, 2):
        vals = {n: float(v) for n, v in guess_values(names, random.Random(12345), mode).items()}
        memo = {}
        try:
            for i, a, b in pairs:
                x, y = Sym.of(a).eval(vals, memo), Sym.of(b).eval(vals, memo)
                if abs(x - y) > 1e-6 * max(1, abs(x), abs(y)):
                    return True
        except (ZeroDivisionError, ValueError, OverflowError, Unsupported, KeyError):
            continue
    return False


def witness(pairs, names, tries=40):
    """a concrete input at which all divisors and radicands are well away from zero"""
    rng = random.Random(4242)
    for k in range(tries):
        vals = {n: float(v) for n, v in guess_values(names, rng, 2 if k else 1).items()}
        memo = {}
        try:
            for i, a, b in pairs:
                Sym.of(a).eval(vals, memo)
        except (ZeroDivisionError, ValueError, OverflowError, Unsupported, KeyError, TypeError):
            continue
        if all(1e-6 < abs(v) < 1e6 for a, v in memo.items() if a.op in ('inv', 'sqrt')):
            return True
    return False


def check_premises(env, stats):
    """Vacuity guard: the assumptions and domain conditions are satisfiable together"""
    import z3
    Z = Z3Ctx()
    assumed = env.obls[-1][3]
    prem = [_pred(z3, Z, k, a, b) for k, a, b in assumed]
    for label, kind, pairs, n, *_ in env.obls:
        for i, a, b in pairs:
            Z.sym(a), Z.sym(b)
    if not prem and not Z.side:
        return 'trivial'
    rng = random.Random(7)
    for mode in (1, 0, 2):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(Z.side + prem)
        vals = guess_values(sorted(Z.vars), rng, mode)
        if not assumed:
            s.add([Z.vars[n] == Z.num(v) for n, v in vals.items()])
        stats.add('vacuity_queries')
        if s.check() == z3.sat:
            return 'sat'
    s = z3.Tactic('qfnra-nlsat').solver()
    s.set('timeout', 5000)
    s.add(Z.side + prem)
    stats.add('vacuity_queries')
    return str(s.check())
