"""Square roots, norms, normalisation."""
import contextlib
import importlib
import sys
from fractions import Fraction

import numpy as np

from vlib import batch
from vlib.engine import harness
from vlib.env import algebra
from vlib.ga import *
from vlib.sym import Sym, Unsupported
from checks.c03 import sigs

META = dict(
    explanation='The real roots, norms and normalisations run on symbolic coefficients; reciprocals and square roots become unknowns with their '
                'defining equation (b v = 1; r r = b, r >= 0) and the solver proves the defining equation of the result. Unit motors are '
                'parametrised completely (nonzero scalar part) by the outer exponential of a free bivector, scaled by its norm.',
    bounds='coefficients: arbitrary reals in the domain (radicands >= 0, divisors nonzero); all signatures of dimension <= 3, canonical/sampled 4 and 5; '
           'every Study subspace of dimension <= 3, sampled in 4 and 5; 5-D dense motors on 3-parameter families',
    outside='float rounding; the size of the basin in which numerical_normalize converges (its single steps are decided); motors without scalar part for motor_square_root',
    assumptions=['real arithmetic in place of float64'])


def study_specs(sig, k, seed):
    A = algebra(sig)
    n = len(sig)
    if n <= 3:
        xs = [x for x in all_specs(n) if sub(A, x).is_study]
    else:
        rng = random.Random(seed)
        xs = [x for x in ['g:0', 'g:1', 'g:%d' % n, 'g:0,1', 'g:0,%d' % n, 'g:%d' % (n - 1), 'g:0,%d' % (n - 1), 'g:0,4', 'g:0,3', 'g:0,1,4', 'g:0,3,4'] if sub(A, x).is_study]
        while len(xs) < k + 6:
            bl = rng.sample(range(1 << n), rng.randint(1, 4)) + ([0] if rng.random() < .7 else [])
            s = 'b:' + ','.join(map(str, sorted(set(bl))))
            if sub(A, s).is_study and s not in xs:
                xs.append(s)
    return pick(xs, k, seed)


def cfg_study(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(1, 6):
        ss = all_sigs(n) if n <= 3 else pick(canon_sigs(n), 8 if q else 21, seed)
        for i, s in enumerate(ss):
            out += [dict(sig=s, X=x) for x in study_specs(s, (16 if n == 2 else 10) if q else 60, seed + i)]
    return out


def rooted(sig, S):
    """does the subspace contain elements with a real root of the kind that is looked for? (None: no element has one)"""
    m = metric(sig)
    nz = [int(b) for b in S.blades if b]
    return 0 in [int(b) for b in S.blades] or any(blade_product(tuple(m), b, b) < 0 for b in nz)


@harness('C11', configs=cfg_study)
def study(env, sig, X):
    """square_root and inverse_square_root of Study numbers"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    S = x.subspace
    x0 = {b: v for b, v in R.d(x).items()}
    conj = {b: (v if b == 0 else -v) for b, v in x0.items()}
    nn = R.select(R.gp(x, conj), lambda b: b == 0)
    env.eq(x.study_norm_squared(), nn, 'study_norm_squared')
    if not rooted(sig, S):
        return
    r = x.square_root()
    env.defined(r, 'square_root has a domain')
    env.eq(R.gp(r, r), x0, 'square_root squared')
    env.true(set(map(int, r.subspace.blades)) <= set(map(int, S.blades)) | {0}, 'square_root is a Study number of the same kind')
    i = x.inverse_square_root()
    env.eq(R.gp(R.gp(i, x), i), {0: 1}, 'i x i = 1')
    env.eq(R.gp(x, R.gp(i, i)), {0: 1}, 'x i i = 1')


@harness('C11', configs=cfg_study)
def study_zero(env, sig, X):
    """the zero element, alone or inside a batch, has root zero"""
    c = env.ctx(sig)
    R = Ref(sig)
    S = sub(c.algebra, X)
    if not rooted(sig, S):
        return env.true(True)
    x = env.mv(c, 'x', S, (3,))
    v = x.values.copy()
    v[1] = Sym.const(0) if env.symbolic else 0.0
    for i in range(3):      # comfortably inside the domain
        if i != 1 and 0 in list(S.blades):
            s = v[i][list(S.blades).index(0)]
            env.assume_pos(s)
    x = c.multivector(values=v, subspace=S)
    with env.floats(c):
        r = x.square_root()
    env.finite(c.multivector(values=r.values[1], subspace=r.subspace), 'root of zero')
    env.eq(c.multivector(values=r.values[1], subspace=r.subspace), {}, 'root of zero')
    for i in (0, 2):
        one = c.multivector(values=v[i], subspace=S).square_root()
        env.eq(c.multivector(values=r.values[i], subspace=r.subspace), one, 'batch element')


def cfg_norm(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(1, 6):
        ss = all_sigs(n) if n <= 3 else pick(canon_sigs(n), 7 if q else 21, seed + 3)
        for i, s in enumerate(ss):
            xs = all_specs(n) if n <= 2 else ['even', 'odd', 'full'] + ['g:%d' % k for k in range(n + 1)] + ['g:0,1', 'g:0,%d' % n, 'g:1,%d' % (n - 1), 'g:0,2'] + random_specs(n, 8 if n < 5 else 5, seed + i, hi=8 if n < 5 else 5)
            out += [dict(sig=s, X=x) for x in (pick(xs, 15 if n == 2 else 10, seed + i) if q else xs)]
    return out


def dispatches(f, *args):
    try:
        return f(*args)
    except ZeroDivisionError:
        return None
    except Exception as e:
        if 'No matching' in str(e) or 'Unable to normalize' in str(e):
            return None
        raise


def proportional(env, R, n, x, label):
    """components of n are a common multiple of those of x"""
    n, x = R.d(n), R.d(x)
    ks = sorted(set(n) | set(x))
    env.true(set(n) <= set(x) or all(k in x for k in n), label + ': same components')
    for a, b in zip(ks, ks[1:]):
        env.eq(n.get(a, 0) * x.get(b, 0), n.get(b, 0) * x.get(a, 0), label + ': proportional')


@harness('C11', configs=cfg_norm)
def norms(env, sig, X):
    """norm_squared, norm and normalized of arbitrary multivectors"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    S = x.subspace
    q = R.gp(x, R.reverse(x))
    env.eq(x.norm_squared(), q, 'norm_squared')
    scalar = set(k for k, v in R.d(x.symmetric_reverse_product()).items()) == {0}
    if S.equals.scalar():
        n = x.norm()
        env.eq(R.gp(n, n), q, 'norm of a scalar')
        env.nonneg(n, 'norm of a scalar')
    m = metric(sig)
    empty = x.symmetric_reverse_product().subspace.equals.empty()
    # negative definite: no real norm
    if empty or not any(blade_product(R.m, int(b), int(b)) * (-1) ** (grade(int(b)) * (grade(int(b)) - 1) // 2) > 0 for b in S.blades):
        return
    if scalar:
        n = x.norm()
        env.defined(n, 'norm')
        env.eq(R.gp(n, n), q, 'norm squared')
        y = x.normalized()
        env.defined(y, 'normalized')
        env.eq(R.gp(y, R.reverse(y)), {0: 1}, 'normalized: y ~y = 1')
        if not S.equals.scalar():
            proportional(env, R, y, x, 'normalized')
            env.eq(R.gp(y, n), R.d(x), 'normalized: y |x| = x')
        return
    if not x.symmetric_reverse_product().subspace.is_study or len(S) > 8:
        return
    y = x.normalized()
    env.eq(R.gp(y, R.reverse(y)), {0: 1}, 'study normalized: y ~y = 1')
    n = x.norm()
    env.eq(R.gp(n, n), q, 'study norm squared')
    env.eq(R.gp(n, y), R.d(x), 'study normalized: |x| y = x')


def unit_motor(env, R, c, name, params=None):
    """every unit motor of nonzero scalar part: outer exponential of a bivector, normalised. params: number of free coordinates"""
    bl = [b for b in range(1 << R.n) if grade(b) == 2]
    rng = random.Random(len(bl) + R.n)
    free = set(bl if params is None else rng.sample(bl, min(params, len(bl))))
    b = {k: env.scalar('%s_%d' % (name, k)) if k in free else rng.choice([0, 0, 1, -1, 2]) * (Fraction(1, 8) if env.symbolic else .125) for k in bl}
    e = {0: 1}
    t = {0: 1}
    for i in range(1, R.n // 2 + 1):
        t = R.scale(R.wedge(t, b), Fraction(1, i) if env.symbolic else 1.0 / i)
        e = R.add(e, t)
    sq = R.gp(e, R.reverse(e))
    n = sq[0]
    env.eq({k: v for k, v in sq.items() if k}, {}, 'the outer exponential has a scalar norm')
    if env.symbolic:
        s = Sym.of(n).sqrt().inv()
        e = {k: v * s for k, v in e.items()}
    else:
        env.assume_pos(n)
        e = {k: v / np.sqrt(n) for k, v in e.items()}
    S = sub(c.algebra, 'even')
    v = np.array([e.get(int(k), 0) for k in S.blades], dtype=object if env.symbolic else float)
    return c.multivector(values=v, subspace=S)


def cfg_motor(tier, seed):
    q = tier == 'quick'
    out = []
    for n in (2, 3):
        out += [dict(sig=s, params=None) for s in all_sigs(n)]
    out += [dict(sig=s, params=2) for s in pick([s for s in canon_sigs(4) if '0' in s], 8 if q else 15, seed) + ['+++0']]
    out += [dict(sig=s, params=1) for s in pick([s for s in canon_sigs(5) if '00' in ''.join(sorted(s))], 4 if q else 21, seed) + ['+++00']]
    return out


@harness('C11', configs=cfg_motor, timeout=200)
def motors(env, sig, params):
    """motor_square_root squared is the unit motor; it is a unit motor itself; geometric mean"""
    c = env.ctx(sig)
    R = Ref(sig)
    m = unit_motor(env, R, c, 'b', params)
    env.eq(R.gp(m, R.reverse(m)), {0: 1}, 'premise: unit motor')
    r = m.motor_square_root()
    env.defined(r, 'motor_square_root')
    env.eq(R.gp(r, r), R.d(m), 'motor_square_root squared')
    env.eq(R.gp(r, R.reverse(r)), {0: 1}, 'motor_square_root is a unit motor')


def cfg_motor4(tier, seed):
    return [dict(sig=s) for s in (['++++', '+++-', '----', '++--', '+---', '+++0'] if tier == 'quick' else all_sigs(4))]


@harness('C11', configs=cfg_motor4, timeout=150)
def motors4(env, sig):
    """motor_square_root in four dimensions on all eight coefficients; the Study root and inverse inside it are unknowns obeying their contract"""
    from numga.multivector.multivector import AbstractMultiVector as MV
    c = env.ctx(sig)
    R = Ref(sig)
    if env.symbolic:
        m = env.mv(c, 'm', sub(c.algebra, 'even'))
        env.assume_eq(R.gp(m, R.reverse(m)), {0: 1})
    else:
        env.values.update({k: v for k, v in env.values.items()})
        m = env.mv(c, 'm', sub(c.algebra, 'even'))
        env.assume_eq(R.gp(m, R.reverse(m)), {0: 1})
    st = sub(c.algebra, 'g:0,4')
    S, T = env.mv(c, 'S', st), env.mv(c, 'T', st)
    got = []

    def square_root(self):
        if self.subspace != st:
            return real_root(self)
        got.append(self)
        return S

    def inverse(self):
        return T if self is S else real_inverse(self)

    real_root, real_inverse = MV.square_root, MV.inverse
    with env.patched(MV, 'square_root', square_root), env.patched(MV, 'inverse', inverse):
        r = m.motor_square_root()
    ms = list(R.d(m).values())
    if env.symbolic:
        if len(got) != 1:
            raise Unsupported('the root is not taken once, as the contract argument presumes')
        Q = env.mv(c, 'Q', st)
        env.assume_eq(Q, got[0])
        env.cut(R.gp(R.add(m, {0: 1}), R.add(m, {0: 1})), R.gp(m, Q), '(m + 1)^2 = m q', ms)
        base = len(env.assumed)
        env.assume_eq(R.gp(S, S), Q)
        env.assume_eq(R.gp(T, S), {0: 1})
        tv, sv = list(R.d(T).values()), list(R.d(S).values())
        ts = [a * b for a in tv for b in tv]
        env.cut(R.gp(R.gp(T, T), Q), {0: 1}, 't^2 q = 1', ts + [a * b for a in tv for b in sv])
        env.eq(R.gp(r, r), R.d(m), 'motor_square_root squared', ts + ms)
    else:
        env.eq(R.gp(r, r), R.d(m), 'motor_square_root squared')


@harness('C11', configs=lambda t, s: [d for d in cfg_motor(t, s) if len(d['sig']) <= 4])
def mean(env, sig, params):
    """motor_geometric_mean is the normalised sum"""
    c = env.ctx(sig)
    R = Ref(sig)
    S = sub(c.algebra, 'even')
    if len(sig) == 4:
        S = sub(c.algebra, 'b:0,3,12,15' if params is None else 'b:0,5,10,15')
    l, r = env.mv(c, 'l', S), env.mv(c, 'r', S)
    g = l.motor_geometric_mean(r)
    q = R.add(l, r)
    s = c.multivector(values=np.array([q[int(b)] for b in S.blades], dtype=l.values.dtype), subspace=S)
    env.eq(g, s.normalized(), 'normalised sum')
    env.eq(R.gp(g, R.reverse(g)), {0: 1}, 'unit')


def cfg_mixed(tier, seed):
    out = []
    for n in (2, 3, 4):
        for i, s in enumerate(pick(all_sigs(n), 8 if tier == 'quick' else 27, seed)):
            ev = ['g:0', 'g:2', 'g:0,2', 'even'] + (['g:4', 'g:0,4', 'b:0,3', 'b:3,12', 'b:0,3,12,15', 'b:0,5'] if n == 4 else ['b:0,3', 'b:3'])
            prs = [(a, b) for a in ev for b in ev if a != b]
            out += [dict(sig=s, X=a, Y=b) for a, b in pick(prs, 6 if tier == 'quick' else 20, seed + i)]
    return out


@harness('C11', configs=cfg_mixed)
def mean_mixed(env, sig, X, Y):
    """the geometric mean of even elements of different types: proportional to the sum, symmetric, unit"""
    c = env.ctx(sig)
    R = Ref(sig)
    l, r = env.mv(c, 'l', sub(c.algebra, X)), env.mv(c, 'r', sub(c.algebra, Y))
    q = R.add(l, r)
    S = l.subspace.union(r.subspace)
    s = c.multivector(values=np.array([R.d(q).get(int(b), 0) for b in S.blades], dtype=object if env.symbolic else float), subspace=S)
    if not any(blade_product(R.m, int(b), int(b)) * (-1) ** (grade(int(b)) * (grade(int(b)) - 1) // 2) > 0 for b in S.blades):
        return env.true(True)       # no element has a positive norm
    want = dispatches(lambda: s.normalized())
    if want is None:
        return env.true(True)
    g, h = l.motor_geometric_mean(r), r.motor_geometric_mean(l)
    env.eq(g, want, 'normalised sum')
    env.eq(h, want, 'normalised sum, swapped')


@contextlib.contextmanager
def optimized():
    """the optional optimised registrations, active only inside"""
    from numga.multivector.multivector import AbstractMultiVector as MV
    ds = {n: d for n, d in vars(MV).items() if hasattr(d, 'options')}
    old = {n: (list(d.options), dict(d.cache)) for n, d in ds.items()}
    name = 'numga.multivector.extension.optimized'
    sys.modules.pop(name, None)
    try:
        yield importlib.import_module(name)
    finally:
        sys.modules.pop(name, None)
        for n, d in ds.items():
            d.options[:], d.cache = old[n]


def pga(env):
    from numga.algebra.algebra import Algebra
    from numga.backend.numpy.context import NumpyContext
    return NumpyContext(Algebra.from_str('x+y+z+w0'), **(dict(dtype=object) if env.symbolic else {}))


@harness('C11', configs=lambda t, s: [dict(batch=b) for b in (0, 1, 3)])
def optimized_normalize(env, batch):
    """the hand-written 3D PGA normalisation equals the generic one and leaves its argument alone"""
    c = pga(env)
    R = Ref('+++0')
    S = sub(c.algebra, 'even')
    x = env.mv(c, 'x', S, (batch,) if batch else ())
    before = x.values.copy()
    ref = x.normalized()
    with optimized() as o:
        y = x.normalized()
        env.true(type(x).normalized.cache[(S,)].__name__ == o.normalize_3dpga_motor_numpy.__name__ if hasattr(o, 'normalize_3dpga_motor_numpy') else True,
                 'the optimised rule is in use')
    env.true(y.subspace == S and y.shape == x.shape, 'type and shape')
    env.eq(c.multivector(values=before, subspace=S), x, 'argument unchanged')
    for i in np.ndindex(x.shape):
        yi = c.multivector(values=y.values[i], subspace=S)
        env.defined(yi, 'optimised normalisation is defined')
        env.eq(R.gp(yi, R.reverse(yi)), {0: 1}, 'optimised: y ~y = 1')
        if not i or i[0] == 0:
            env.eq(yi, c.multivector(values=ref.values[i], subspace=S), 'optimised = generic')


@harness('C11', configs=lambda t, s: [{}])
def optimized_scope(env):
    """optimised rules bind only to the algebra and subspaces they were written for"""
    from numga.algebra.algebra import Algebra
    t = env.scalar('t')
    env.eq(t, t)
    with optimized() as o:
        from numga.multivector.multivector import AbstractMultiVector as MV
        new = [(n, cond, f) for n in ('normalized', 'exp') for cond, f in getattr(MV, n).options if f.__module__ == o.__name__]
        for d in ('x+y+z+w0', 'x+y+z+w+', 'x+y+z+w-', 'w0x+y+z+', 'x+y+w0', 'x+y+z+', 'a+b+c+d0', 'x+y+z-w0'):
            A = Algebra.from_str(d)
            for spec in grade_specs(A.n_dimensions) + ['even', 'full', 'odd', 'b:3,5,6', 'b:9,10,12', 'b:0,9,10,12', 'b:0,3,5,6']:
                if spec[0] == 'b' and A.n_dimensions < 4:
                    continue
                S = sub(A, spec)
                for n, cond, f in new:
                    if d != 'x+y+z+w0':
                        env.true(not cond(S), '%s binds to %s in %s' % (f.__name__, spec, d))


cfg_elementwise = batch.cfg(lambda t, s: all_sigs(1) + all_sigs(2) + pick(all_sigs(3), 9, s) + pick(canon_sigs(4), 4, s) + ['+++0'], lambda s, k: ['even', 'g:1', 'g:0', 'g:%d' % len(s), 'g:0,%d' % len(s), 'g:0,1', 'g:2', 'empty'][:8 if len(s) > 1 else 6], 4, 2)


@harness('C11', configs=lambda t, s: [c for c in cfg_elementwise(t, s) if not (c['sig'] in ('+-', '-+') and 'g:2' in c['S'])])     # their bivectors have no real norm
def elementwise(env, sig, S, shapes):
    """batches: every element is treated as it is alone"""
    c = env.ctx(sig)
    batch.methods(env, batch.operands(env, c, S, shapes), ['square_root', 'inverse_square_root', 'norm', 'norm_squared', 'normalized', 'study_norm', 'study_norm_squared', 'motor_square_root'], ['motor_geometric_mean'])


def cfg_newton(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(1, 5):
        for s in all_sigs(n) if n < 3 else pick(all_sigs(n), (9 if n == 3 else 10) if q else 81, seed) + (['+++0', '++++', '++--'] if n == 4 else []):
            bl = [b for b in range(1, 1 << n) if grade(b) % 4 in (0, 1)]
            xs = ['b:0'] + ['b:0,%d' % b for b in pick(bl, 3 if q else 12, seed)] + (['g:0,4'] if n == 4 else [])
            out += [dict(sig=s, X=x, kind='root') for x in sorted(set(xs))]
            if n > 1:
                out += [dict(sig=s, X=k, kind='motor') for k in ('even',) + (('g:0,2', 'g:2') if n == 3 else ())]
    return out


@harness('C11', configs=cfg_newton, timeout=100)
def newton(env, sig, X, kind):
    """numerical normalisation: every step squares the distance to the solution, so that solutions stay as they are"""
    from numga.multivector import numerical_normalize as nn
    from checks.c18 import LinAlg
    c = env.ctx(sig)
    R = Ref(sig)

    def residual(s, x, y):
        """q = x s ~x goes to q' = y s ~y with 4 q (q' - 1) = (q - 1)^2"""
        a, b = R.gp(R.gp(x, s), R.reverse(x)), R.gp(R.gp(y, s), R.reverse(y))
        a1 = R.add(a, {0: -1})
        env.eq(R.gp(R.scale(a, 4), R.add(b, {0: -1})), R.gp(a1, a1), 'the residual of a step is the square of the residual before it')
    with LinAlg(env).patched():
        if kind == 'root':
            s = env.mv(c, 's', sub(c.algebra, X))
            x1 = nn.inverse_sandwich(s, n_iter=1)
            env.defined(x1, 'one step')
            env.true(x1.subspace == s.subspace, 'the solution is of the kind of its argument')
            residual(s, {0: 1}, x1)
            env.eq(R.scale(R.gp(s, x1), 2), R.add(R.d(s), {0: 1}), 'the first step is half of one and the reciprocal')
            x0 = nn.inverse_sandwich(s, n_iter=0)
            env.eq(x0, {0: 1}, 'it starts at one')
            if len(s.subspace) == 1:
                residual(s, x1, nn.inverse_sandwich(s, n_iter=2))
            return
        S = sub(c.algebra, X)
        if not len(S.symmetric_reverse()):
            return                              # nothing of this kind has a norm
        m = env.mv(c, 'm', S)
        if len(sig) > 3:
            rng = random.Random(str(sig))
            k = rng.randrange(1, len(S))
            m = c.multivector(values=np.array([m.values[i] if i in (0, k) else rng.choice([0, 0, 1, -1, 2]) for i in range(len(S))], dtype=object if env.symbolic else float), subspace=S)
        s = R.gp(m, R.reverse(m))
        y = nn.normalize_motor(m, inner=1, outer=1, scalar_norm=False)
        env.defined(y, 'one step')
        a, b = s, R.gp(y, R.reverse(y))
        a1 = R.add(a, {0: -1})
        env.eq(R.gp(R.scale(a, 4), R.add(b, {0: -1})), R.gp(a1, a1), 'the residual of a step is the square of the residual before it')
        env.eq(y, R.gp(R.d(nn.inverse_sandwich(m.symmetric_reverse_product(), n_iter=1)), m), 'the root of the norm times the motor')
        if len(sig) < 4 and X != 'g:2':
            y = nn.normalize_motor(m, inner=1, outer=1)
            env.eq(R.gp(y, R.reverse(y)), {0: 1}, 'below four dimensions the scalar norm is all there is to take out')
