"""Conformal embedding and Runge-Kutta steps of the examples."""
import itertools
from fractions import Fraction

import numpy as np

from vlib.engine import harness
from vlib.env import algebra
from vlib.ga import *
from vlib.sym import Sym

META = dict(
    bounds='points, radii, weights: arbitrary reals; base signatures of dimension 1-3 (4 thorough) in every metric; Runge-Kutta: every step size on '
           'linear systems of 2 unknowns, on scalar polynomial dynamics of degree 2 and 3 and, for RK1 and RK4, on generic quadratic systems of 2 unknowns',
    outside='float rounding; order conditions of RK8 beyond those dynamics; rendering', assumptions=['real arithmetic in place of float64'])


def cfg_conformal(tier, seed):
    S = all_sigs(1) + all_sigs(2) + (pick(all_sigs(3), 10, seed) + ['+++'] if tier == 'quick' else all_sigs(3) + canon_sigs(4))
    return [dict(sig=s, how=h) for s in S for h in ('Conformal', 'Conformalize')]


def conformal(env, sig, how):
    from numga.examples.conformal import Conformal, Conformalize
    from numga.algebra.algebra import Algebra
    from numga.backend.numpy.context import NumpyContext
    names = 'xyzwuv'
    base = ''.join(n + s for n, s in zip(names, sig))
    kw = dict(dtype=object) if env.symbolic else {}
    if how == 'Conformalize':
        c = Conformalize(NumpyContext(Algebra(base), **kw))
        return c, c
    c = NumpyContext(Conformal.algebra(base), **kw)
    return Conformal(c), c


@harness('C19', configs=cfg_conformal)
def embedding(env, sig, how):
    """points are null, inner products are squared distances, un-embedding returns the point, spheres square to their radius"""
    k, c = conformal(env, sig, how)
    n = len(sig)
    R = Ref(sig + '+-')
    m = metric(sig)
    a, b, r = env.array('a', (n,)), env.array('b', (n,)), env.scalar('r')
    ni, no = {1 << n: 1, 2 << n: 1}, {1 << n: Fraction(-1, 2) if env.symbolic else -.5, 2 << n: Fraction(1, 2) if env.symbolic else .5}
    env.eq(k.ni, ni, 'ni')
    env.eq(k.no, no, 'no')
    A, B, S = k.embed_point(a), k.embed_point(b), k.embed_point(a, r=r)
    sq = lambda u: sum(m[i] * u[i] * u[i] for i in range(n))
    env.eq(A, {**{1 << i: a[i] for i in range(n)}, **R.add(no, {q: v * sq(a) / 2 for q, v in ni.items()})}, 'definition of the embedding')
    env.eq(A * A, {}, 'null')
    env.eq(A | A, {}, 'null')
    env.eq(A | B, sq(a - b) / -2, 'inner products are squared distances')
    env.eq(A | k.ni, -1, 'normalised')
    env.eq(S * S, r * r, 'radius')
    env.eq(S | B, (r * r - sq(a - b)) / 2, 'power of a point')
    p = k.point_position(A)
    env.eq(p, {1 << i: a[i] for i in range(n)}, 'un-embedding')
    env.eq(k.point_position(S), {1 << i: a[i] for i in range(n)}, 'un-embedding of a sphere')
    w = env.scalar('w')
    env.assume_ne(w)
    env.eq(k.normalize(A * w), A, 'normalisation')
    env.eq(k.point_position(k.normalize(A * w)), {1 << i: a[i] for i in range(n)}, 'un-embedding of a weighted point')
    if how == 'Conformalize':
        env.eq(k.unembed(A), {1 << i: a[i] for i in range(n)}, 'unembed operator')


@harness('C19', configs=cfg_conformal)
def batches(env, sig, how):
    """arrays of points"""
    k, c = conformal(env, sig, how)
    n = len(sig)
    P = env.array('p', (2, n))
    E = k.embed_point(P)
    env.true(E.shape == (2,), 'shape')
    for i in range(2):
        env.eq(E[i], k.embed_point(P[i]), 'point of a batch')
        env.eq(k.point_position(E)[i], {1 << j: P[i, j] for j in range(n)}, 'position of a batch')


# ---------------------------------------------------------------- Runge-Kutta

ORDER = dict(RK1=1, RK4=4, RK8=8)


def conv(a, b):
    return [sum(a[i] * b[k - i] for i in range(k + 1)) for k in range(len(a))]


def cfg_rk(tier, seed):
    out = [dict(rule=r, dyn=d) for r in ORDER for d in ('linear', 'square', 'cube', 'constant')]
    return out + [dict(rule=r, dyn='quadratic2') for r in ('RK1', 'RK4')]


@harness('C19', configs=cfg_rk, timeout=600)
def order(env, rule, dyn):
    """the step agrees with the exact flow up to its order in the step size"""
    from numga.examples import integrators
    step, p = getattr(integrators, rule), ORDER[rule]
    if rule == 'RK8' and dyn in ('square', 'cube'):
        p = 7       # Shanks' ten-stage formula meets the conditions of order 8 only approximately on nonlinear dynamics
    if not env.symbolic:
        # replay: the defect of halved steps shrinks like h^(p+1)
        return replay_order(env, step, p, dyn)
    d = 2 if dyn in ('linear', 'quadratic2') else 1
    y = [env.scalar('y%d' % i) for i in range(d)]
    if dyn == 'constant':
        k = [env.scalar('k0')]
        f = lambda v: np.array(k, dtype=object) + v * 0
        taylor = [y, k] + [[0]] * (p - 1)
    elif dyn == 'linear':
        A = [[env.scalar('A%d%d' % (i, j)) for j in range(2)] for i in range(2)]
        if p > 4:
            A[0][0], A[0][1], A[1][0], A[1][1] = 0, 1, env.scalar('A10'), env.scalar('A11')
        f = lambda v: np.array([A[0][0] * v[0] + A[0][1] * v[1], A[1][0] * v[0] + A[1][1] * v[1]], dtype=object)
        taylor = [y]
        for q in range(p):
            taylor.append([t * Fraction(1, q + 1) for t in f(taylor[-1])])
    elif dyn in ('square', 'cube'):
        e = 2 if dyn == 'square' else 3
        c0 = env.scalar('c0')

        def f(v):
            return np.array([c0 + v[0] * v[0] if e == 2 else v[0] * v[0] * v[0]], dtype=object)
        ys = [y[0]]
        for q in range(p):
            s = conv(ys, ys)
            if e == 3:
                s = conv(s, ys)
            ys.append(((c0 if q == 0 and e == 2 else 0) + s[q]) * Fraction(1, q + 1))
        taylor = [[v] for v in ys]
    else:
        B = [[env.scalar('B%d%d' % (i, j)) for j in range(3)] for i in range(2)]
        f = lambda v: np.array([B[i][0] * v[0] * v[0] + B[i][1] * v[0] * v[1] + B[i][2] * v[1] * v[1] for i in range(2)], dtype=object)
        ys = [[y[0]], [y[1]]]
        for q in range(p):
            m = [conv(ys[0], ys[0])[q], conv(ys[0], ys[1])[q], conv(ys[1], ys[1])[q]]
            new = [sum(B[i][j] * m[j] for j in range(3)) * Fraction(1, q + 1) for i in range(2)]
            ys[0].append(new[0])
            ys[1].append(new[1])
        taylor = [[ys[0][q], ys[1][q]] for q in range(p + 1)]
    # the step is executed on truncated power series in h, so that its coefficients are exact
    h = Series([0, 1], p)
    got = step(lambda v: lift(f, v, p), vec([Series([t], p) for t in y]), h)
    for i in range(d):
        for q in range(p + 1):
            env.eq(got[i].c[q], taylor[q][i], 'coefficient of h^%d%s' % (q, defect(got[i].c[q], taylor[q][i])))


POINT = dict(c0=Fraction(3), y0=Fraction(2), y1=Fraction(5), A10=Fraction(7), A11=Fraction(11))


def defect(a, b):
    """names a deviation by its exact value at a fixed point, so that a listed finding matches no other deviation"""
    at = lambda v: v.eval(POINT) if isinstance(v, Sym) else Fraction(v)
    try:
        d = at(a) - at(b)
    except KeyError:
        return ''
    return ', off by %s at c0=3 y0=2 y1=5 A10=7 A11=11' % d if d else ''


class Series:
    """truncated power series in the step size over symbolic coefficients"""

    def __init__(self, c, p):
        self.p = p
        self.c = (list(c) + [0] * (p + 1))[:p + 1]

    def of(self, o):
        return o if isinstance(o, Series) else Series([Sym.of(o)], self.p)

    def __add__(self, o):
        return Series([a + b for a, b in zip(self.c, self.of(o).c)], self.p)
    __radd__ = __add__

    def __neg__(self):
        return Series([-a for a in self.c], self.p)

    def __sub__(self, o):
        return self + -self.of(o)

    def __rsub__(self, o):
        return self.of(o) - self

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = self.of(o)
        return Series([sum((self.c[i] * o.c[k - i] for i in range(k + 1) if not zero(self.c[i]) and not zero(o.c[k - i])), 0) for k in range(self.p + 1)], self.p)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (Fraction(1, o) if isinstance(o, int) else 1 / Sym.of(o))


def zero(x):
    return isinstance(x, (int, Fraction)) and x == 0


def vec(v):
    a = np.empty(len(v), dtype=object)
    a[:] = v
    return a


def lift(f, v, p):
    return vec([x if isinstance(x, Series) else Series([x], p) for x in f(v)])


def replay_order(env, step, p, dyn):
    A = np.array([[env.scalar('A00') if p <= 4 else 0, env.scalar('A01') if p <= 4 else 1], [env.scalar('A10'), env.scalar('A11')]]) if dyn == 'linear' else None
    if dyn == 'constant':
        k = env.scalar('k0')
        f = lambda v: np.array([k]) + v * 0
    elif dyn == 'linear':
        f = lambda v: A.dot(v)
    elif dyn == 'square':
        c0 = env.scalar('c0')
        f = lambda v: c0 + v * v
    elif dyn == 'cube':
        f = lambda v: v * v * v
    else:
        B = np.array([[env.scalar('B%d%d' % (i, j)) for j in range(3)] for i in range(2)])
        f = lambda v: B.dot([v[0] * v[0], v[0] * v[1], v[1] * v[1]])
    d = 2 if dyn in ('linear', 'quadratic2') else 1
    y = np.array([env.scalar('y%d' % i) for i in range(d)], dtype=float)

    def flow(h):
        from fractions import Fraction as F
        from scipy.integrate import solve_ivp
        return solve_ivp(lambda t, v: f(v), (0, h), y, rtol=1e-13, atol=1e-14, method='DOP853').y[:, -1]
    scale = max(1, np.max(np.abs(y)), *[abs(v) for v in env.used.values() if isinstance(v, (int, float))] or [1])
    h = 0.02 / scale ** 2 * (4 if p > 4 else 1)
    err = np.max(np.abs(step(f, y, h) - flow(h)))
    err2 = np.max(np.abs(step(f, y, h / 2) - flow(h / 2)))
    env.true(err < 1e-11 or err2 < err / 2 ** (p + .3), 'defect %g at h, %g at h/2: not of order %d' % (err, err2, p))


# ---------------------------------------------------------------- rigid bodies

def cfg_body(tier, seed):
    return [dict(sig=s, backend='numpy') for s in (['++0', '+++', '+-+', '+++0'] if tier == 'quick' else ['++0', '+++', '+-+', '+-0', '--+', '+++0', '++++', '++-0'])]


@harness('C19', configs=cfg_body, timeout=600)
def rigid_body(env, sig, backend):
    """inertia maps are symmetric, and free rotation does no work on the body"""
    c = env.ctx(sig)
    n = len(sig)
    P = env.mv(c, 'p', c.algebra.subspace.antivector(), (2,))
    B = c.algebra.subspace.bivector()
    r, s = env.mv(c, 'r', B), env.mv(c, 's', B)
    I = P.inertia_map().sum(0)
    env.eq(I(r) & s, I(s) & r, 'symmetric with respect to the pairing of rates and momenta')
    env.eq(I(r).commutator(r) & r, {}, 'gyroscopic forque does no work')
