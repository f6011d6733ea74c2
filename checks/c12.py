"""Exponentials and logarithms."""
import contextlib

import numpy as np

from vlib import batch
from vlib.engine import harness
from vlib.env import algebra
from vlib.ga import *
from vlib.sym import Sym, Unsupported
from checks.c11 import optimized, pga, dispatches, proportional
from checks.c10 import has_rule

META = dict(
    explanation='The real exp/log routines run on symbolic bivectors; reciprocals and roots become unknowns with their defining equations, '
                'cos, sin, exp and log are uninterpreted (with sin^2 + cos^2 = 1). Branches on symbolic comparisons fork the execution.',
    bounds='all bivectors (arbitrary reals in the domain) for all signatures of dimension <= 3; four dimensions: canonical signatures with all or two free '
           'coordinates; five dimensions: one to three free coordinates. Bisection depth 0..2 for general bivectors, the default depth of 15 for null bivectors',
    outside='float rounding; arguments that are refused; the basin of the real roots; agreement of cos/sin with their power series',
    assumptions=['real arithmetic in place of float64', 'sin^2 + cos^2 = 1 is the only fact used about sin and cos'])


def bivecs(n):
    return [b for b in range(1 << n) if grade(b) == 2]


def fam(env, c, name, spec, params=None):
    """a bivector with all coordinates free, or params of them, the others being small constants"""
    S = sub(c.algebra, spec)
    if params is None or params >= len(S):
        return env.mv(c, name, S)
    rng = random.Random(len(S) * 7 + params + env.seed)
    free = set(rng.sample(range(len(S)), params))
    v = [env.scalar('%s_%d' % (name, int(b))) if i in free else (rng.choice([0, 0, 1, -1, 3]) * (Fraction(1, 4) if env.symbolic else .25))
         for i, b in enumerate(S.blades)]
    return c.multivector(values=np.array(v, dtype=object if env.symbolic else float), subspace=S)


def specs2(n, k, seed):
    bl = bivecs(n)
    out = ['g:2']
    rng = random.Random(seed)
    subs = [c for r in range(1, len(bl)) for c in itertools.combinations(bl, r)]
    return out + ['b:' + ','.join(map(str, c)) for c in pick(subs, k, rng.random())]


def cfg_lin(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(2, 6):
        for i, s in enumerate(all_sigs(n) if n <= 3 else pick(all_sigs(n), 12 if q else 60, seed)):
            out += [dict(sig=s, B=b) for b in specs2(n, 3 if q else 8, seed + i)]
    return out


@harness('C12', configs=cfg_lin)
def linear(env, sig, B):
    """exp_linear(b) = 1 + b, motor_log_linear takes the bivector part"""
    c = env.ctx(sig)
    R = Ref(sig)
    b = env.mv(c, 'b', sub(c.algebra, B))
    m = b.exp_linear()
    env.eq(m, R.add(b, {0: 1}), 'exp_linear')
    env.eq(m.motor_log_linear(), b, 'log(exp)')
    e = env.mv(c, 'e', sub(c.algebra, 'even'))
    env.eq(e.motor_log_linear(), R.select(R.d(e), lambda k: grade(k) == 2), 'motor_log_linear')
    eb = env.mv(c, 'f', b.subspace, (2,))
    env.eq(eb.exp_linear().motor_log_linear(), eb, 'batch')


def cfg_norm(tier, seed):
    q = tier == 'quick'
    out = []
    for n in (2, 3):
        for i, s in enumerate(all_sigs(n)):
            out += [dict(sig=s, B=b, params=None) for b in specs2(n, 2 if q else 6, seed + i)]
    for i, s in enumerate(pick([s for s in canon_sigs(4) if '0' in s], 6 if q else 20, seed) + ['+++0']):
        out += [dict(sig=s, B='g:2', params=2)] + [dict(sig=s, B=b, params=None) for b in specs2(4, 4, seed + i)[1:] if b.count(',') < 3]
    for i, s in enumerate(pick(canon_sigs(5), 4 if q else 21, seed)):
        out += [dict(sig=s, B=b, params=None) for b in specs2(5, 4, seed + i)[1:] if b.count(',') < 2]
    return out


def positive(sig, m):
    """1 + b with a small b has a norm near one: the domain is never empty"""
    return True


@harness('C12', configs=cfg_norm)
def linear_normalized(env, sig, B, params):
    """exp_linear_normalized gives unit motors proportional to 1 + b; its logarithm is exact"""
    c = env.ctx(sig)
    R = Ref(sig)
    b = fam(env, c, 'b', B, params)
    if dispatches(lambda: b.exp_linear_normalized()) is None:
        return env.true(True)
    m = b.exp_linear_normalized()
    env.defined(m, 'exp_linear_normalized')
    env.eq(R.gp(m, R.reverse(m)), {0: 1}, 'unit')
    if not m.subspace.inside.quadreflection():
        return
    l = m.motor_log_linear_normalized()
    env.defined(l, 'log')
    env.eq(l, b, 'log(exp)')


def sigs4(t, s):
    return [dict(sig=x) for x in (['++++', '+++-', '----', '++--', '+++0', '0-+0'] if t == 'quick' else all_sigs(4))]


class Contracts:
    """inside, roots and inverses of 4-D Study numbers are unknowns obeying their contract"""

    def __init__(self, env, c, sig):
        self.env, self.c = env, c
        self.R = Ref(sig)
        self.fresh = []
        self.kinds = ''

    @contextlib.contextmanager
    def active(self):
        from numga.multivector.multivector import AbstractMultiVector as MV
        env, R = self.env, self.R
        st = sub(self.c.algebra, 'g:0,4')
        real = dict(square_root=MV.square_root, inverse=MV.inverse)

        def fake(name, kind):
            def f(x):
                if x.subspace != st:
                    return real[name](x)
                V = env.mv(self.c, '%s%d' % (kind, len(self.fresh)), st)
                self.fresh.append(V)
                self.kinds += kind
                if kind == 'S':
                    env.assume_eq(R.gp(V, V), R.d(x))
                else:
                    env.assume_eq(R.gp(V, x), {0: 1})
                return V
            return f
        with env.patched(MV, 'square_root', fake('square_root', 'S')), env.patched(MV, 'inverse', fake('inverse', 'T')):
            yield

    def vals(self, k):
        return [v.item() for v in self.R.d(self.fresh[k]).values()]


@harness('C12', configs=sigs4)
def linear_normalized4(env, sig):
    """the same on all bivectors of four dimensions; the Study root and inverses are unknowns obeying their contract"""
    c = env.ctx(sig)
    R = Ref(sig)
    b = env.mv(c, 'b', sub(c.algebra, 'g:2'))
    K = Contracts(env, c, sig)
    with K.active():
        m = b.exp_linear_normalized()
        l = m.motor_log_linear_normalized()
    bv = list(R.d(b).values())
    if not env.symbolic:
        env.eq(l, b, 'log(exp)')
        return env.eq(R.gp(m, R.reverse(m)), {0: 1}, 'unit')
    if K.kinds != 'STT':
        raise Unsupported('roots and inverses are taken in an unexpected order: ' + K.kinds)
    S, T = K.vals(0), K.vals(1)
    env.eq(l, b, 'log(exp)', bv + [x * y for k in range(3) for x in K.vals(k) for y in bv])
    env.cut(R.gp(R.gp(K.fresh[1], K.fresh[1]), R.gp(K.fresh[0], K.fresh[0])), {0: 1}, 't^2 s^2 = 1', [x * y for x in T for y in S])
    env.eq(R.gp(m, R.reverse(m)), {0: 1}, 'unit', [x * y for x in T for y in T])


@harness('C12', configs=sigs4)
def log_quadratic4(env, sig):
    """motor_log_quadratic(exp_quadratic(b)) = b for all bivectors of four dimensions, by the same contracts"""
    c = env.ctx(sig)
    R = Ref(sig)
    b = env.mv(c, 'b', sub(c.algebra, 'g:2'))
    K = Contracts(env, c, sig)
    with K.active():
        m = b.exp_quadratic()
        l = m.motor_log_quadratic()
    if not env.symbolic:
        return env.eq(l, b, 'log(exp)')
    if K.kinds != 'TSTT':
        raise Unsupported('roots and inverses are taken in an unexpected order: ' + K.kinds)
    T0, T, U = K.fresh[0], K.fresh[2], K.fresh[3]
    r = R.add(R.scale(R.d(b), Fraction(1, 2)), {0: 1})
    env.cut(R.add(m, {0: 1}), R.scale(R.gp(T0, r), 2), 'm + 1 = 2 t r')
    UT = [x * y for x in K.vals(3) for y in K.vals(2)]
    env.cut(R.scale(R.gp(R.gp(U, T), T0), 2), {0: 1}, '2 u t t0 = 1', UT)
    env.eq(l, b, 'log(exp)', UT + list(R.d(b).values()))


def cfg_cayley(tier, seed):
    q = tier == 'quick'
    out = []
    for n in (2, 3):
        for i, s in enumerate(all_sigs(n)):
            out += [dict(sig=s, B=b, params=None) for b in specs2(n, 2 if q else 6, seed + i)]
    for i, s in enumerate(pick(canon_sigs(4), 7 if q else 15, seed) + ['+++0', '+++-']):
        out += [dict(sig=s, B='g:2', params=None if not q or i == 0 else 4)] + [dict(sig=s, B=b, params=None) for b in specs2(4, 2, seed + i)[1:]]
    for i, s in enumerate(pick(canon_sigs(5), 4 if q else 21, seed) + ['++++-']):
        out += [dict(sig=s, B='g:2', params=2)] + [dict(sig=s, B=b, params=None) for b in specs2(5, 3, seed + i)[1:] if b.count(',') < 4]
    return out


@harness('C12', configs=cfg_cayley)
def cayley(env, sig, B, params):
    """exp_quadratic is the Cayley transform: m (1 - b/2) = 1 + b/2, a unit motor"""
    c = env.ctx(sig)
    R = Ref(sig)
    b = fam(env, c, 'b', B, params)
    m = b.exp_quadratic()
    env.defined(m, 'exp_quadratic')
    h = R.scale(R.d(b), Fraction(1, 2) if env.symbolic else .5)
    env.eq(R.gp(m, R.add({0: 1}, h, -1)), R.add({0: 1}, h), 'm (1 - b/2) = 1 + b/2')
    env.eq(R.gp(R.add({0: 1}, h, -1), m), R.add({0: 1}, h), '(1 - b/2) m = 1 + b/2')
    env.eq(R.gp(m, R.reverse(m)), {0: 1}, 'unit')


def cfg_logq(tier, seed):
    q = tier == 'quick'
    out = []
    for n in (2, 3):
        for i, s in enumerate(all_sigs(n)):
            out += [dict(sig=s, B=b, params=None) for b in specs2(n, 2 if q else 6, seed + i)]
    for i, s in enumerate(pick([s for s in canon_sigs(4) if '0' in s], 5 if q else 15, seed) + ['+++0']):
        out += [dict(sig=s, B=b, params=None) for b in specs2(4, 5, seed + i)[1:] if b.count(',') < 1]
    for i, s in enumerate(pick(canon_sigs(5), 4 if q else 21, seed)):
        out += [dict(sig=s, B=b, params=None) for b in specs2(5, 6, seed + i)[1:] if b.count(',') < 1]
    return out


@harness('C12', configs=cfg_logq)
def log_quadratic(env, sig, B, params):
    """motor_log_quadratic(exp_quadratic(b)) = b"""
    c = env.ctx(sig)
    R = Ref(sig)
    b = fam(env, c, 'b', B, params)
    m = b.exp_quadratic()
    # without a vector of nonzero square, the steps of this logarithm are not all registered for its motors
    if set(sig) == {'0'} or not m.subspace.inside.even_grade() or dispatches(lambda: m.motor_square_root()) is None:
        return env.true(True)
    l = m.motor_log_quadratic()
    env.defined(l, 'log')
    env.eq(l, b, 'log(exp)')


def impl(d):
    """the registered implementations of a dispatcher"""
    return [f for _, f in d.options]


def with_depth(f, x, n):
    try:
        return f(x, n=n)
    except TypeError as e:
        if 'argument' in str(e):
            raise Unsupported('no depth parameter')
        raise


def cfg_bis(tier, seed):
    q = tier == 'quick'
    out = []
    for n in (2, 3):
        for i, s in enumerate(all_sigs(n)):
            for b in specs2(n, 1, seed + i):
                small = n == 2 or b != 'g:2'
                out += [dict(sig=s, B=b, params=None if small else 2, depth=d) for d in ((0, 1, 2) if small else (0, 1))]
    return out


@harness('C12', configs=cfg_bis)
def bisect(env, sig, B, params, depth):
    """exp_bisect of depth n is the Cayley exponential of b / 2^n squared n times; motor_log_bisect undoes it"""
    from numga.multivector.multivector import AbstractMultiVector as MV
    c = env.ctx(sig)
    R = Ref(sig)
    b = fam(env, c, 'b', B, params)
    f, = impl(MV.exp_bisect)
    m = with_depth(f, b, depth)
    e = b.copy(b.values / 2 ** depth).exp_quadratic()
    e = R.d(e)
    for _ in range(depth):
        e = R.gp(e, e)
    env.eq(m, e, 'exp_bisect(n=%d)' % depth)
    env.eq(R.gp(m, R.reverse(m)), {0: 1}, 'unit')
    g, = impl(MV.motor_log_bisect)
    # logarithm: roots first, then the quadratic logarithm, scaled
    x = b.exp_quadratic()
    if not x.subspace.inside.even_grade() or depth > 1 or set(sig) == {'0'}:
        return
    l = with_depth(g, x, depth)
    r = x
    for _ in range(depth):
        r = r.motor_square_root()
    r = r.motor_log_quadratic()
    env.eq(l, R.scale(R.d(r), 2 ** depth), 'motor_log_bisect(n=%d)' % depth)


def null_specs(sig):
    """subspaces of bivectors that share one null direction: they square to zero"""
    n = len(sig)
    out = []
    for i in range(n):
        if sig[i] == '0':
            out.append('b:' + ','.join(str(b) for b in bivecs(n) if b >> i & 1))
    for i, j in itertools.combinations(range(n), 2):
        if '0' in (sig[i], sig[j]):
            out.append('b:%d' % (1 << i | 1 << j))
    return sorted(set(out))


def cfg_null(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(2, 6):
        for s in [s for s in (all_sigs(n) if n <= 3 else pick(canon_sigs(n), 8 if q else 21, seed)) if '0' in s]:
            out += [dict(sig=s, B=b) for b in pick(null_specs(s), 4 if q else 20, seed)]
    return out


@harness('C12', configs=cfg_null)
def null(env, sig, B):
    """generators that square to zero: exp = 1 + b by every exponential, at the default depth, and every logarithm undoes it"""
    c = env.ctx(sig)
    R = Ref(sig)
    for shape in ((), (2,)):
        b = env.mv(c, 'b%d' % len(shape), sub(c.algebra, B), shape)
        want = R.add(b, {0: 1})
        S = set(want)
        for name in ('exp', 'exp_linear', 'exp_quadratic', 'exp_bisect', 'exp_linear_normalized'):
            m = getattr(b, name)()
            env.eq(m, want, name)
            if shape == ():
                env.eq(R.gp(m, R.reverse(m)), {0: 1}, name + ': unit')
        m = b.exp()
        for name in ('motor_log', 'motor_log_linear', 'motor_log_bisect', 'motor_log_quadratic', 'motor_log_linear_normalized'):
            l = dispatches(lambda: getattr(m, name)())
            if l is None and name == 'motor_log_linear_normalized' and not m.subspace.inside.quadreflection():
                continue        # fully degenerate algebras: products of four vectors vanish
            env.eq(l, b, name)
        env.eq(m.motor_log().exp(), m, 'exp(log)')
        e = b.exp_bisect()
        for name in ('motor_log_bisect', 'motor_log_quadratic'):
            env.eq(getattr(e, name)(), b, name + ' of exp_bisect')


def cfg_disp(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(1, 6):
        for i, s in enumerate(all_sigs(n) if n <= 3 else pick(canon_sigs(n), 6 if q else 21, seed)):
            out += [dict(sig=s, B=b) for b in (specs2(n, 6, seed + i) if n > 1 else []) + ['g:0', 'empty']]
    return out


@harness('C12', configs=cfg_disp)
def dispatch(env, sig, B):
    """exp picks the rule that fits the type: 1, exp, 1 + b, or bisection"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, B))
    if B == 'empty':
        return env.eq(x.exp(), {0: 1}, 'exp(0) = 1')
    if B == 'g:0':
        s = R.d(x)[0].item()
        env.eq(x.exp(), {0: s.exp() if env.symbolic else np.exp(s)}, 'exp of a scalar')
        if env.symbolic or s > 0:
            env.eq(x.log(), {0: s.log() if env.symbolic else np.log(s)}, 'log of a scalar')
        return
    # the bisection is replaced by an unknown function; every other rule has to be 1 + b
    from numga.multivector.multivector import AbstractMultiVector as MV
    hit = []

    def fake(self):
        hit.append(self)
        return env.mv(c, 'm', sub(c.algebra, 'even'))

    B = [int(k) for k in x.subspace.blades]
    # the square of a degenerate x vanishes, unless several null vectors are around
    deg = all(blade_product(R.m, a, b) + blade_product(R.m, b, a) == 0 for a in B for b in B)
    if not env.symbolic:
        if deg:
            env.eq(x.exp(), R.add(x, {0: 1}), 'degenerate exp')
        else:
            env.eq(x.exp(), x.exp_bisect(), 'default exp')
        return
    with env.patched(MV, 'exp_bisect', fake):
        y = x.exp()
    if deg and not hit:
        env.eq(y, R.add(x, {0: 1}), 'degenerate exp')
    elif hit:
        env.eq(hit[0], x, 'argument of the bisection')
        env.eq(y, env.mv(c, 'm', sub(c.algebra, 'even')), 'default exp')
    else:
        env.eq(R.gp(y, R.reverse(y)), {0: 1}, 'exp is a unit motor')


@harness('C12', configs=lambda t, s: [dict(sig=g, X=x) for n in (1, 2, 3, 4) for i, g in enumerate(all_sigs(n) if n < 3 else pick(canon_sigs(n), 6, s))
                                      for x in (['g:0,%d' % k for k in range(1, n + 1)] + ['g:%d' % k for k in range(1, n + 1) if k != 2] + ['even', 'odd', 'full'] + random_specs(n, 3, s + i) if n < 4 else ['g:1', 'g:3', 'g:4', 'g:0,2', 'g:2,4', 'g:1,2'])])
def scope(env, sig, X):
    """exp does not accept arguments for which its rules give something else than the exponential"""
    from numga.multivector.multivector import AbstractMultiVector as MV
    c = env.ctx(sig)
    R = Ref(sig)
    S = sub(c.algebra, X)
    if not len(S) or S in (sub(c.algebra, 'g:0'),) or all(grade(int(b)) == 2 for b in S.blades):
        return env.true(True, 'covered by dispatch')
    x = env.mv(c, 'x', S)
    if env.symbolic:
        try:
            MV.exp.match((S,))
        except Exception:
            return env.true(True, 'not accepted')
        step = impl(MV.exp_bisect)[0]
        with env.patched(MV, 'exp_bisect', lambda self: with_depth(step, self, 0)):
            y = x.exp()
        # one squaring-free step is (1 + x/2) / (1 - x/2); rules that stop after the linear term need x^2 = 0, for which it is the same
        env.eq(R.gp(y, R.add({0: 1}, R.scale(x, Fraction(-1, 2)))), R.add({0: 1}, R.scale(x, Fraction(1, 2))), 'the exponential of everything that is accepted')
        return
    x = x * (.25 / max(1., float(np.abs(x.values).max())))
    try:
        y = x.exp()
    except Exception as e:
        return
    e = t = {0: 1.}
    for i in range(1, 16):
        t = R.scale(R.gp(t, x), 1. / i)
        e = R.add(e, t)
    env.eq(y, e, 'the exponential of everything that is accepted')


class Shim:
    """numpy with symbolic arrays where the code asks for float ones"""

    def __getattr__(self, k):
        return getattr(np, k)

    def empty(self, shape, *a, **k):
        return np.empty(shape, dtype=object)
    zeros = ones = None

    def zeros(self, shape, *a, **k):
        r = np.empty(shape, dtype=object)
        r[...] = 0
        return r

    def ones(self, shape, *a, **k):
        r = np.empty(shape, dtype=object)
        r[...] = 1
        return r


ROT, TRA = [3, 5, 6], [9, 10, 12]


def closed_form(env, R, d):
    """exp of a 3D PGA bivector: L s = b with s a Study number, exp = cos s + L sin s, expanded by hand"""
    xy, xz, yz = [d.get(k, 0) for k in ROT]
    xw, yw, zw = [d.get(k, 0) for k in TRA]
    l = xy * xy + xz * xz + yz * yz
    # 1/2 b^b, as b^2 = -l + p xyzw
    p = R.wedge(d, d).get(15, 0) * (Fraction(1, 2) if env.symbolic else .5)
    a = l ** 0.5 if not env.symbolic else Sym.of(l).sqrt()
    c, s = (a.cos(), a.sin()) if env.symbolic else (np.cos(a), np.sin(a))
    si = s / a
    t = p * (c - si) / l
    out = {0: c, 15: p * si}
    # d/de exp(B + e D) with B^2 = -l: rotational part si B; null part si D + t (B dual)
    for k in ROT:
        out[k] = si * d.get(k, 0)
    B = {k: d.get(k, 0) for k in ROT}
    dual = R.gp({15: 1}, B)
    for k in TRA:
        out[k] = si * d.get(k, 0)
        if k in dual:
            out[k] = out[k] - t * dual[k] * 1
    return out


@harness('C12', configs=lambda t, s: [dict(kind=k, batch=b) for k in ('full', 'rot', 'trans') for b in (0, 1, 2)], timeout=200)
def optimized_exp(env, kind, batch):
    """the hand-written 3D PGA exponentials are unit motors, commute with b, agree with each other and with 1 + b on translations"""
    c = pga(env)
    R = Ref('+++0')
    S = sub(c.algebra, {'full': 'g:2', 'rot': 'b:3,5,6', 'trans': 'b:9,10,12'}[kind])
    x = env.mv(c, 'x', S, (batch,) if batch else ())

    def body():
        with optimized() as o, env.patched(o, 'np', Shim()):
            y = x.exp()
        env.true(y.shape == x.shape, 'shape')
        for i in np.ndindex(x.shape):
            yi, xi = ({k: v[i] for k, v in R.d(m).items()} for m in (y, x))
            env.eq(R.gp(yi, R.reverse(yi)), {0: 1}, 'unit')
            env.eq(R.gp(yi, xi), R.gp(xi, yi), 'commutes with its generator')
            if kind == 'trans':
                env.eq(yi, R.add(xi, {0: 1}), '1 + b')
            else:
                env.eq(yi, closed_form(env, R, xi), 'closed form')

    if kind == 'trans':
        return body()
    if env.symbolic:
        for i in np.ndindex(x.shape):
            B = [x.values[i][list(S.blades).index(k)] for k in ROT]
            env.assume_pos(sum(v * v for v in B) - Fraction(1, 10 ** 6))     # away from the series branch
    env.explore(body)


@harness('C12', configs=lambda t, s: [dict(kind=k, batch=b) for k in ('full', 'rot') for b in (0, 2)])
def optimized_exp_zero(env, kind, batch):
    """a bivector without rotational part, alone or inside a batch, exponentiates to 1 + b"""
    c = pga(env)
    R = Ref('+++0')
    S = sub(c.algebra, {'full': 'g:2', 'rot': 'b:3,5,6'}[kind])
    x = env.mv(c, 'x', S, (batch,) if batch else ())
    v = x.values.copy()
    for i, k in enumerate(S.blades):
        if int(k) in ROT:
            v[(0,) * (batch > 0) + (i,)] = Sym.const(0) if env.symbolic else 0.0
    x = c.multivector(values=v, subspace=S)
    if batch and env.symbolic:
        B = [v[1][list(S.blades).index(k)] for k in ROT]
        env.assume_pos(sum(w * w for w in B) - Fraction(1, 10 ** 6))

    def body():
        with env.floats(c), optimized() as o, env.patched(o, 'np', Shim()):
            y = x.exp()
        z = c.multivector(values=y.values[0] if batch else y.values, subspace=y.subspace)
        env.finite(z, 'exp of a translation')
        d = R.d(x)
        d = {k: (w[0] if batch else w) for k, w in d.items()}
        env.eq(z, R.add(d, {0: 1}), 'exp of a translation is 1 + b')
    env.explore(body)


@harness('C12', configs=batch.cfg(lambda t, s: all_sigs(2) + pick(all_sigs(3), 9, s) + ['+++0', '++++', '++-0', '++00'], lambda s, k: ['g:2', 'g:0', 'even'] + specs2(len(s), 3, k)[1:], 4))
def elementwise(env, sig, S, shapes):
    """batches: every element is treated as it is alone"""
    c = env.ctx(sig)
    batch.methods(env, batch.operands(env, c, S, shapes), ['exp', 'log', 'exp_linear', 'motor_log_linear', 'exp_linear_normalized', 'motor_log_linear_normalized', 'exp_quadratic', 'motor_log_quadratic', 'exp_bisect', 'motor_log_bisect', 'motor_log'], [])
