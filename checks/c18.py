"""Derived linear maps: partial application, batch sums, transposes, inverses, solving."""
import contextlib
import random
from fractions import Fraction

import numpy as np

from vlib import batch
from vlib.engine import harness
from vlib.env import algebra
from vlib.ga import *
from numga.operator.operator import Operator
from vlib.sym import Sym, Unsupported

META = dict(
    explanation='The maps are built by the real code on symbolic coefficients and applied to symbolic arguments. numpy.linalg.inv and solve are library '
                'functions: up to 3x3 they are replaced by the adjugate formula, beyond by fresh unknowns constrained by A X = X A = I (A x = b).',
    bounds='coefficients: arbitrary reals (regular systems for inverses); signatures of dimension 1-3 (all or sampled), 4 canonical, some 5; sampled '
           'subspaces; batch shapes up to (3,), (2,2) and (2,1)x(1,2); matrices up to 3x3 exactly, up to 8x8 by contract',
    outside='float rounding and conditioning; larger batches', assumptions=['real arithmetic in place of float64', 'numpy.linalg contracts'])


# ---------------------------------------------------------------- models of numpy.linalg

def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n))


def adjugate(M):
    n = len(M)
    if n == 1:
        return [[1]]
    minor = lambda i, j: [r[:j] + r[j + 1:] for k, r in enumerate(M) if k != i]
    return [[(-1) ** (i + j) * det(minor(j, i)) for j in range(n)] for i in range(n)]


def const(x):
    return not isinstance(x, Sym) or x.is_const


def exact(M):
    """inverse of a matrix of constants"""
    n = len(M)
    A = [[Fraction(Sym.of(x).c) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        k = next((i for i in range(c, n) if A[i][c]), None)
        if k is None:
            raise np.linalg.LinAlgError('Singular matrix')
        A[c], A[k] = A[k], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for i in range(n):
            if i != c and A[i][c]:
                A[i] = [x - A[i][c] * y for x, y in zip(A[i], A[c])]
    return [r[n:] for r in A]


class LinAlg:
    """numpy.linalg on symbolic entries"""

    def __init__(self, env, limit=3):
        self.env, self.limit, self.calls, self.fresh = env, limit, [], 0

    def name(self):
        self.fresh += 1
        return 'la%d_' % self.fresh

    def inv(self, A):
        A = np.asarray(A, dtype=object)
        if A.ndim < 2 or A.shape[-1] != A.shape[-2]:
            raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
        n = A.shape[-1]
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(A.shape[:-2]):
            M = [list(r) for r in A[i]]
            if all(const(x) for r in M for x in r):
                out[i] = np.array(exact(M), dtype=object)
            elif n <= self.limit:
                d = Sym.of(1) / det(M)
                out[i] = np.array([[x * d for x in r] for r in adjugate(M)], dtype=object)
            else:
                B = self.env.array(self.name(), (n, n))
                I = np.eye(n, dtype=int)
                self.env.assume_eq(A[i].dot(B), I)
                self.env.assume_eq(B.dot(A[i]), I)
                out[i] = B
        return out

    def solve(self, A, b):
        A, b = np.asarray(A, dtype=object), np.asarray(b, dtype=object)
        self.calls.append((A, b))
        n = A.shape[-1]
        if b.ndim == A.ndim - 1:            # numpy 1.26: a stack of vectors
            return self.solve_(A, b[..., None], n)[..., 0]
        return self.solve_(A, b, n)

    def solve_(self, A, b, n):
        batch = np.broadcast_shapes(A.shape[:-2], b.shape[:-2])
        A, b = np.broadcast_to(A, batch + A.shape[-2:]), np.broadcast_to(b, batch + b.shape[-2:])
        if n <= self.limit:
            return np.matmul(self.inv(A), b)
        x = self.env.array(self.name(), b.shape)
        for i in np.ndindex(batch):
            self.env.assume_eq(A[i].dot(x[i]), b[i])
        return x

    @contextlib.contextmanager
    def patched(self):
        if not self.env.symbolic:
            old = np.linalg.solve

            def spy(A, b):
                self.calls.append((A, b))
                return old(A, b)
            with self.env.patched(np.linalg, 'solve', spy):
                yield self
            return
        with self.env.patched(np.linalg, 'inv', self.inv), self.env.patched(np.linalg, 'solve', self.solve):
            yield self


def generic(kernel_fn, sig, specs, shapes, seed=3):
    """is the square map regular at a generic point? (random rationals; only steers which configurations ask for an inverse)"""
    from numga.backend.numpy.context import NumpyContext
    c = NumpyContext(algebra(sig))
    rng = np.random.RandomState(seed)
    mvs = [c.multivector(values=rng.uniform(-1, 1, sh + (len(sub(c.algebra, s)),)), subspace=sub(c.algebra, s)) for s, sh in zip(specs, shapes)]
    k = np.asarray(kernel_fn(*mvs))
    return k.ndim >= 2 and k.shape[-1] == k.shape[-2] and bool(np.all(np.abs(np.linalg.det(k)) > 1e-6))


# ---------------------------------------------------------------- configurations

def sample(tier, seed):
    q = tier == 'quick'
    if q:
        return all_sigs(1) + pick(all_sigs(2), 6, seed) + pick(all_sigs(3), 12, seed) + ['++0', '+++'] + pick(canon_sigs(4), 6, seed) + ['+++0', '+++++']
    return all_sigs(1) + all_sigs(2) + all_sigs(3) + canon_sigs(4) + pick(canon_sigs(5), 6, seed)


def cfg_maps(tier, seed):
    out = []
    for s in sample(tier, seed):
        n = len(s)
        r = random_specs(n, 12, seed + 5, hi=5)
        V = ['g:1', 'g:%d' % min(2, n), 'g:0,1', 'full'] if n <= 3 else ['g:1', 'g:2']
        X = ['even', 'g:1', 'odd', 'g:%d' % (n - 1)] if n <= 3 else ['g:1', 'g:0,2'] if n == 4 else ['g:1']
        out += [dict(sig=s, X=x, V=v) for x in dict.fromkeys(X) for v in dict.fromkeys(V)]
        out += [dict(sig=s, X=r[2 * i % len(r)], V=r[(2 * i + 1) % len(r)]) for i in range(3 if tier == 'quick' else 6)]
    return out


def values(m):
    return [m.values[..., i] for i in range(len(m.subspace))]


def pair(a, b):
    """sum over components of equal position"""
    return sum(x * y for x, y in zip(values(a), values(b)))


def spaces(env, op, x, y, label):
    env.true(op.arity == 1 and op.inputs == (x,), label + ': input')
    env.true(y is None or op.output is y, label + ': output')


def ref_sandwich(R, x, v, V):
    g = {grade(int(b)) for b in V.blades}
    return R.select(R.gp(R.gp(x, v), R.reverse(x)), lambda b: grade(b) in g)


def rp(R, x, y):
    return R.unmap(R.wedge(R.rhodge(x), R.rhodge(y)), R.rhodge)


def halve(R, a):
    return {b: v * Fraction(1, 2) if not isinstance(v, np.ndarray) or v.dtype == object else v / 2 for b, v in a.items()}


def commutator(R, x, y):
    return halve(R, R.add(R.gp(x, y), R.gp(y, x), -1))


@harness('C18', configs=cfg_maps)
def maps(env, sig, X, V):
    """sandwich, inertia and product maps act as the full operations, with batches on either side"""
    c = env.ctx(sig)
    R = Ref(sig)
    sx, sv = sub(c.algebra, X), sub(c.algebra, V)
    x, v = env.mv(c, 'x', sx), env.mv(c, 'v', sv)
    want = ref_sandwich(R, x, v, sv)
    m = x.sandwich_map(sv)
    spaces(env, m, sv, None, 'sandwich_map')
    env.eq(m(v), want, 'sandwich_map')
    env.eq(x.sandwich(v), want, 'sandwich')
    if V == 'g:1':
        env.eq(x.sandwich_map()(v), want, 'sandwich_map over vectors by default')
    p = c.operator.product(sx, sv).partial({0: x})
    env.eq(p(v), R.gp(x, v), 'left product map')
    q = c.operator.product(sv, sx).partial({1: x})
    env.eq(q(v), R.gp(v, x), 'right product map')
    i = None
    if c.algebra.operator.commutator(sx, sv).output.blades.size and c.algebra.operator.inertia(sx, sv).output.blades.size:
        i = x.inertia_map(sv)
        wi = rp(R, x, commutator(R, x, v))
        spaces(env, i, sv, None, 'inertia_map')
        env.eq(i(v), wi, 'inertia_map')
        env.eq(x.regressive(x.commutator(v)), wi, 'direct form of the inertia')
        if V == 'g:2':
            env.eq(x.inertia_map()(v), wi, 'inertia_map over bivectors by default')
    if len(sx) * len(sv) > 20:
        return
    xb, vb = env.mv(c, 'xb', sx, (2, 1)), env.mv(c, 'vb', sv, (2,))
    for name, f, ref in [('sandwich', lambda a: a.sandwich_map(sv), lambda a, b: ref_sandwich(R, a, b, sv)),
                         ('product', lambda a: c.operator.product(sx, sv).partial({0: a}), R.gp),
                         ('inertia', lambda a: a.inertia_map(sv), lambda a, b: rp(R, a, commutator(R, a, b)))]:
        if name == 'inertia' and i is None:
            continue
        M = f(xb)
        env.true(M.shape == (2, 1), name + ' map: batch shape')
        r = M(vb)
        env.true(r.shape == (2, 2), name + ' map: broadcast shape')
        for a in range(2):
            for b in range(2):
                env.eq(r[a, b], ref(xb[a, 0], vb[b]), name + ' map of a batch')
        env.eq(M[1](vb[:1])[0], ref(xb[1, 0], vb[0]), name + ' map: indexed')


@harness('C18', configs=cfg_maps)
def sums(env, sig, X, V):
    """the sum of a batch of maps is the sum of their results; transposes are adjoint for the component pairing"""
    c = env.ctx(sig)
    R = Ref(sig)
    sx, sv = sub(c.algebra, X), sub(c.algebra, V)
    if len(sx) * len(sv) > 24:
        return
    x2 = env.mv(c, 'x', sx, (2, 2))
    v = env.mv(c, 'v', sv)
    for name, f, ref in [('sandwich', lambda a: a.sandwich_map(sv), lambda a: ref_sandwich(R, a, v, sv)),
                         ('product', lambda a: c.operator.product(sx, sv).partial({0: a}), lambda a: R.gp(a, v)),
                         ('right product', lambda a: c.operator.product(sv, sx).partial({1: a}), lambda a: R.gp(v, a)),
                         ('inertia', lambda a: a.inertia_map(sv), lambda a: rp(R, a, commutator(R, a, v)))]:
        if name == 'inertia' and not (len(c.algebra.operator.commutator(sx, sv).output) and len(c.algebra.operator.inertia(sx, sv).output)):
            continue
        M = f(x2)
        if not len(M.output):
            continue
        s0, s1 = M.sum(0), M.sum(1)
        env.true(s0.inputs == s1.inputs == M.inputs and s0.output is M.output and s1.output is M.output, name + ' map: type of the sum')
        env.true(s0.shape == (2,) and s1.shape == (2,) and s0.sum(0).shape == (), name + ' map: shape of the sum')
        for j in range(2):
            env.eq(s0(v)[j], R.add(ref(x2[0, j]), ref(x2[1, j])), name + ' map: sum over the first axis')
            env.eq(s1(v)[j], R.add(ref(x2[j, 0]), ref(x2[j, 1])), name + ' map: sum over the second axis')
        total = R.add(R.add(ref(x2[0, 0]), ref(x2[0, 1])), R.add(ref(x2[1, 0]), ref(x2[1, 1])))
        env.eq(s0.sum(0)(v), total, name + ' map: sum over both axes')
        w = env.mv(c, 'w', M.output)
        m = M[0, 1]
        t = m.transpose()
        env.true(t.inputs == (m.output,) and t.output is m.inputs[0], name + ' map: type of the transpose')
        env.eq(pair(w, m(v)), pair(t(w), v), name + ' map: transpose')
        env.eq(t.transpose()(v), m(v), name + ' map: transpose twice')
        T = M.transpose()
        env.true(T.shape == (2, 2), name + ' map: batch of the transpose')
        for a in range(2):
            for b in range(2):
                env.eq(pair(w, M[a, b](v)), pair(T(w)[a, b], v), name + ' map: transpose of a batch')


@harness('C18', configs=batch.cfg(lambda t, s: all_sigs(1) + pick(all_sigs(2), 4, s) + pick(all_sigs(3), 6, s) + ['+++0'],
                                  lambda s, k: ['even', 'g:1', 'g:%d' % len(s), 'odd', 'g:0,1'] + random_specs(len(s), 3, k, hi=3), 0, 4))
def elementwise(env, sig, S, shapes):
    """a batch of maps on a batch of arguments: every map acts on its own argument"""
    c = env.ctx(sig)
    x, v = batch.operands(env, c, S, shapes)
    sv = v.subspace
    of = c.algebra.operator

    def inertia(x, v):
        return x.inertia_map(sv)(v)
    def sandwich(x, v):
        return x.sandwich_map(sv)(v)
    def left(x, v):
        return c.operator.product(x.subspace, sv).partial({0: x})(v)
    def right(x, v):
        return c.operator.product(sv, x.subspace).partial({1: x})(v)
    def transposed(x, v):
        m = c.operator.product(sv, x.subspace).partial({1: x})
        w = c.multivector(values=np.broadcast_to(v.values[..., :1], v.values.shape[:-1] + (len(m.output),)).copy(), subspace=m.output)
        return m.transpose()(w)
    def composed(x, v):
        m = c.operator.product(x.subspace, sv).partial({0: x})
        return c.operator.product(x.subspace, m.output).partial({0: x})(m(v))
    fs = [sandwich, left, right, transposed, composed]
    if len(of.commutator(x.subspace, sv).output) and len(of.inertia(x.subspace, sv).output):
        fs.append(inertia)
    for f in fs:
        batch.elementwise(env, f, [x, v], f.__name__)


def cfg_inverse(tier, seed):
    out = []
    for s in sample(tier, seed):
        n = len(s)
        if n > 4:
            continue
        X = ['even', 'g:1', 'odd'] if n <= 3 else ['g:1', 'g:0,2']
        V = ['g:1'] + (['g:%d' % (n - 1)] if n > 2 else []) + (['even', 'odd'] if n <= 3 else [])
        for x in dict.fromkeys(X):
            for v in dict.fromkeys(V):
                for kind in ('sandwich', 'left', 'right', 'inertia', 'inertia_sum'):
                    out.append(dict(sig=s, X=x, V=v, kind=kind))
        if n in (3, 4):
            out += [dict(sig=s, X='g:%d' % (n - 1), V='g:2', kind=k) for k in ('inertia', 'inertia_sum')]
    return out


def build(kind, c, x, sx, sv):
    of = c.algebra.operator
    if kind == 'sandwich':
        return x.sandwich_map(sv)
    if kind == 'left':
        return c.operator.product(sx, sv).partial({0: x})
    if kind == 'right':
        return c.operator.product(sv, sx).partial({1: x})
    if not len(of.commutator(sx, sv).output) or not len(of.inertia(sx, sv).output):
        return None
    m = x.inertia_map(sv)
    return m.sum(0) if kind == 'inertia_sum' else m


@harness('C18', configs=cfg_inverse, timeout=300)
def inverses(env, sig, X, V, kind):
    """the inverse of a regular map is its inverse on either side"""
    c = env.ctx(sig)
    sx, sv = sub(c.algebra, X), sub(c.algebra, V)
    shape = (3,) if kind == 'inertia_sum' else ()

    def square(x):
        m = build(kind, x.context, x, sub(x.context.algebra, X), sub(x.context.algebra, V))
        return np.zeros(()) if m is None else m.kernel
    if not generic(square, sig, [X], [shape]):
        return
    x = env.mv(c, 'x', sx, shape)
    with LinAlg(env).patched():
        m = build(kind, c, x, sx, sv)
        i = m.inverse()
    env.true(i.inputs == (m.output,) and i.output is m.inputs[0], 'type of the inverse')
    for k, b in enumerate(m.inputs[0].blades):
        e = c.multivector(values=[int(j == k) for j in range(len(sv))], subspace=m.inputs[0])
        env.eq(i(m(e)), e, 'inverse after the map')
    for k, b in enumerate(m.output.blades):
        e = c.multivector(values=[int(j == k) for j in range(len(m.output))], subspace=m.output)
        env.eq(m(i(e)), e, 'map after the inverse')
    v = env.mv(c, 'v', sv)
    w = env.mv(c, 'w', m.output)
    env.eq(pair(i(w), v), pair(w, i.transpose()(v)), 'transpose of the inverse')


def cfg_batchinv(tier, seed):
    return [dict(sig=s, X=x, V=v, kind=k) for s in pick(all_sigs(2), 6, seed) + ['+++'] for x, v, k in
            [('even', 'g:1', 'sandwich'), ('g:1', 'g:1', 'sandwich'), ('even', 'even', 'left'), ('odd', 'odd', 'right')] if len(s) == 2 or k == 'sandwich']


@harness('C18', configs=cfg_batchinv, timeout=300)
def batched_inverses(env, sig, X, V, kind):
    """inverse of a batch of maps"""
    c = env.ctx(sig)
    sx, sv = sub(c.algebra, X), sub(c.algebra, V)
    if not generic(lambda x: build(kind, x.context, x, sub(x.context.algebra, X), sub(x.context.algebra, V)).kernel, sig, [X], [()]):
        return
    x = env.mv(c, 'x', sx, (2,))
    v = env.mv(c, 'v', sv, (2,))
    with LinAlg(env).patched():
        m = build(kind, c, x, sx, sv)
        i = m.inverse()
    env.true(i.shape == (2,), 'batch of the inverse')
    for j in range(2):
        e = i[j](build(kind, c, x[j], sx, sv)(v[j]))
        env.eq(e, v[j], 'inverse of a batch')


def cfg_unary(tier, seed):
    return [dict(sig=s, V=v, strat=o) for s in sample(tier, seed) if len(s) <= 4 for v in (['full', 'g:1', 'even'] if len(s) <= 3 else ['g:1', 'g:2'])
            for o in ('einsum', 'sparse')]


@harness('C18', configs=cfg_unary)
def unary(env, sig, V, strat):
    """transposes and inverses of the unary operators, with either numpy strategy"""
    from numga.backend.numpy import operator as o
    from numga.backend.numpy.context import NumpyContext
    c = NumpyContext(algebra(sig), dtype=object if env.symbolic else np.float64, otype=dict(einsum=o.NumpyEinsumOperator, sparse=o.NumpySparseOperator)[strat])
    sv = sub(c.algebra, V)
    v = env.mv(c, 'v', sv)
    for name in ('reverse', 'involute', 'conjugate', 'right_hodge', 'right_hodge_inverse', 'left_hodge', 'right_complement', 'left_complement', 'scalar_negation'):
        op = getattr(c.operator, name)(sv)
        w = env.mv(c, 'w', op.output)
        t = op.transpose()
        env.true(t.inputs == (op.output,) and t.output is sv, name + ': type of the transpose')
        env.eq(pair(w, op(v)), pair(t(w), v), name + ': transpose')
        with LinAlg(env).patched():
            i = op.inverse()
        env.eq(i(op(v)), v, name + ': inverse')
        env.eq(op(i(w)), w, name + ': inverse on the other side')


@harness('C18', configs=lambda tier, seed: [dict(sig=s, V=v) for s in sample(tier, seed) if len(s) <= 4
                                            for v in (['full', 'g:1', 'even', 'g:0,1'] if len(s) <= 3 else ['g:1', 'g:2'])])
def inverse_operators(env, sig, V):
    """unary_inverse undoes any invertible unary operator, also if its coefficients are no integers"""
    c = env.ctx(sig)
    O = c.algebra.operator
    sv = sub(c.algebra, V)
    v = env.mv(c, 'v', sv)
    ops = [(k, getattr(O, k)(sv)) for k in ('identity', 'reverse', 'involute', 'conjugate', 'right_hodge', 'left_hodge', 'right_complement', 'left_complement')]
    ops += [(n, getattr(O, n)(sv)) for n in ('right_hodge_inverse', 'left_hodge_inverse', 'scalar_negation')]
    ops += [('2 identity', O.identity(sv).mul(2)), ('-4 reverse', O.reverse(sv).mul(-4)), ('3 identity + reverse', O.identity(sv).mul(3) + O.reverse(sv)),
            ('identity / 4', O.identity(sv).div(4)), ('involute / 2 + 1', O.involute(sv).div(2) + O.identity(sv).mul(1.5))]
    n = len(sv)
    if n > 1:
        # a unimodular kernel that is no permutation, of an unsigned type
        shear = np.identity(n, dtype=np.uint8)
        shear[0, 1] = 1
        ops.append(('shear', Operator.build(shear, (sv, sv))))
        skew = np.identity(n)
        skew[1, 0] = 0.25
        ops.append(('skew', Operator.build(skew, (sv, sv))))
    for name, op in ops:
        i = O.unary_inverse(op)
        env.true(i.inputs == (op.output,) and i.output is sv, name + ': type of the inverse')
        w = env.mv(c, 'w', op.output)
        f = lambda o, a: c.operator(o)(a)
        env.eq(f(i, f(op, v)), v, name + ': inverse')
        env.eq(f(op, f(i, w)), w, name + ': inverse on the other side')


# ---------------------------------------------------------------- solving

def cfg_la(tier, seed):
    out = []
    q = tier == 'quick'
    for s in all_sigs(1) + all_sigs(2) + (pick(all_sigs(3), 12, seed) if q else all_sigs(3)) + pick(canon_sigs(4), 4 if q else 14, seed):
        n = len(s)
        X = ['g:%d' % k for k in range(n + 1)] + (['even', 'odd', 'full'] if n <= 2 else ['even'] if n == 3 else []) + ['g:0,1', 'g:0,%d' % n]
        if n > 1:
            X += random_specs(n, 3 if q else 6, seed + 9, hi=3)
        out += [dict(sig=s, X=x) for x in dict.fromkeys(X)]
    return out


@harness('C18', configs=cfg_la, timeout=300)
def inverse_by_solving(env, sig, X):
    """inverse_la: the system that is solved has the true inverse as its solution, and what is returned is that solution"""
    from checks.c10 import regular
    c = env.ctx(sig)
    R = Ref(sig)
    sx = sub(c.algebra, X)
    if not regular(sig, sx.blades):
        return
    x = env.mv(c, 'x', sx)

    def f(a):
        la = LinAlg(env, limit=2)
        with la.patched():
            return a.inverse_la(), la.calls
    probe = c.algebra.operator
    space = probe.inverse_factor(sx).output
    if not np.any(c.algebra.operator.product(sx, space).output.blades == 0):
        return
    y, calls = f(x)
    env.true(y.subspace is space, 'type of the inverse')
    try:
        z = x.inverse()
    except Exception:
        z = None
    if z is None or not set(map(int, z.subspace.blades)) <= set(map(int, space.blades)):
        return
    z = z.select_subspace(space)
    env.cut(R.gp(x, z), {0: 1}, 'closed form inverse')
    n = len(space)
    if env.symbolic and n > 2 and len(calls) == 1:
        (G, b), = calls
        env.true(np.shape(G) == (n, n) and np.shape(b)[-1] == n or np.shape(b) == (n, 1), 'shape of the system')
        env.eq(np.asarray(G).dot(np.asarray(z.values)), np.asarray(b).reshape(n), 'the true inverse solves the system')
        for i in range(n):
            env.eq(sum(G[i, j] * y.values[j] for j in range(n)), np.asarray(b).reshape(n)[i], 'coefficients are the solution, in order')
    else:
        env.eq(R.gp(x, y), {0: 1}, 'x * inverse_la(x) = 1')
    if n <= 2:
        xb = env.mv(c, 'xb', sx, (2,))
        yb, _ = f(xb)
        env.true(yb.shape == (2,), 'batch of the inverse')
        for i in range(2):
            env.eq(R.gp(xb[i], yb[i]), {0: 1}, 'inverse_la of a batch')


class Shim:
    """jax.numpy, as far as it is numpy: the code of the jax backend on symbolic entries"""

    def __init__(self, la):
        self.linalg = la

    def __getattr__(self, name):
        return getattr(np, name)

    def asarray(self, values, dtype=None):
        return np.asarray(values, dtype=object)
    array = asarray


def cfg_la_jax(tier, seed):
    out = []
    for s in all_sigs(1) + all_sigs(2) + pick(all_sigs(3), 4 if tier == 'quick' else 20, seed):
        n = len(s)
        out += [dict(sig=s, X=x) for x in ['g:0', 'g:1', 'g:%d' % n, 'g:0,%d' % n] + (['even', 'full'] if n < 3 else ['g:2'])]
    return out


@harness('C18', configs=cfg_la_jax, timeout=300)
def inverse_by_solving_jax(env, sig, X):
    """inverse_la of the jax backend"""
    from checks.c10 import regular
    from numga.backend.jax import context as jc, multivector as jm, operator as jo
    R = Ref(sig)
    c0 = env.ctx(sig)
    sx = sub(c0.algebra, X)
    space = c0.algebra.operator.inverse_factor(sx).output
    if not regular(sig, sx.blades) or not np.any(c0.algebra.operator.product(sx, space).output.blades == 0) or len(space) > 2:
        return
    x, xb = env.mv(c0, 'x', sx), env.mv(c0, 'xb', sx, (2,))
    for a in (x, xb[0], xb[1]):     # the values of float32 that solve() returns for a singular system are arbitrary
        env.assume_ne(R.gp(a, a.inverse_factor())[0])
    if env.symbolic:
        la = LinAlg(env, limit=2)
        shim = Shim(la)
        with env.patched(jc, 'jnp', shim), env.patched(jm, 'jnp', shim), env.patched(jo, 'jnp', shim):
            c = jc.JaxContext(c0.algebra)
            y, yb = [c.multivector(values=a.values, subspace=sx).inverse_la() for a in (x, xb)]
    else:
        import jax
        import jax.numpy as jnp
        with jax.experimental.enable_x64():
            c = jc.JaxContext(c0.algebra, dtype=jnp.float64)
            y, yb = [c.multivector(values=jnp.asarray(a.values), subspace=sx).inverse_la() for a in (x, xb)]
    val = lambda m, i=(): {int(b): np.asarray(m.values)[i + (k,)] for k, b in enumerate(m.subspace.blades)}
    env.true(y.subspace is space, 'type of the inverse')
    env.eq(R.gp(x, val(y)), {0: 1}, 'x * inverse_la(x) = 1')
    env.true(tuple(yb.shape) == (2,), 'batch of the inverse')
    for i in range(2):
        env.eq(R.gp(xb[i], val(yb, (i,))), {0: 1}, 'inverse_la of a batch')


def cfg_solve(tier, seed):
    out = []
    for s in sample(tier, seed):
        n = len(s)
        if n > 4:
            continue
        r = random_specs(n, 12, seed + 77, hi=4)
        out += [dict(sig=s, X=r[2 * i % len(r)], B=r[(2 * i + 1) % len(r)]) for i in range(4 if tier == 'quick' else 6)]
        out += [dict(sig=s, X='even', B='even'), dict(sig=s, X='g:1', B='g:0'), dict(sig=s, X='g:1', B='g:1')] if n <= 3 else []
    return out


@harness('C18', configs=cfg_solve)
def solve_operator(env, sig, X, B):
    """operator.solve(x, rhs): the product over a space of unknowns that loses nothing that contributes to rhs"""
    c = env.ctx(sig)
    R = Ref(sig)
    sx, sb = sub(c.algebra, X), sub(c.algebra, B)
    op = c.operator.solve(sx, sb)
    if not len(op.inputs[1]):
        reach = {(int(a) ^ int(b)) for a in sx.blades for b in sb.blades if blade_product(tuple(metric(sig)), int(a), int(a) ^ int(b))}
        return env.true(not reach, 'empty only if nothing contributes')
    env.true(op.inputs[0] is sx, 'first input')
    x, z = env.mv(c, 'x', sx), env.mv(c, 'z', c.algebra.subspace.multivector())
    y = z.select_subspace(op.inputs[1])
    env.eq(op(x, y), R.gp(x, y), 'acts as the product')
    inb = {int(b) for b in sb.blades}
    env.eq(R.select(R.gp(x, y), lambda b: b in inb), R.select(R.gp(x, z), lambda b: b in inb), 'nothing that contributes is lost')


# ---------------------------------------------------------------- other backends

def cfg_back(tier, seed):
    q = tier == 'quick'
    return [dict(sig=s, X=x, V=v, backend=b) for b in ('jax_einsum', 'jax_sparse', 'torch_einsum', 'torch_dense', 'np_sparse')
            for s, x, v in ([('++', 'even', 'g:1'), ('+-0', 'even', 'g:1'), ('++0', 'g:2', 'g:2'), ('-+', 'full', 'full')]
                            + ([] if q else [('+++', 'even', 'g:1'), ('+0+', 'odd', 'g:2'), ('--', 'g:1', 'g:0,2')]))]


@harness('C18', configs=cfg_back, timeout=300)
def backends(env, sig, X, V, backend):
    """maps, their batch sums and inverses on the other backends"""
    from checks.c08 import execute
    c = env.ctx(sig)
    R = Ref(sig)
    sx, sv = sub(c.algebra, X), sub(c.algebra, V)
    x, xb, v = env.mv(c, 'x', sx), env.mv(c, 'xb', sx, (2,)), env.mv(c, 'v', sv)
    has_inertia = bool(len(c.algebra.operator.commutator(sx, sv).output) and len(c.algebra.operator.inertia(sx, sv).output))
    square = generic(lambda m: m.sandwich_map(sub(m.context.algebra, V)).kernel, sig, [X], [()]) and len(sv) <= 3
    kind = backend.split('_')[0]
    if env.symbolic and len(sv) <= 3 and kind != 'np':
        if kind == 'jax':
            import jax.numpy as lib
        else:
            import torch as lib

        def inv(A):
            n = A.shape[-1]
            if A.ndim != 2:
                raise Unsupported('batched inverse')
            M = [[A[i, j] for j in range(n)] for i in range(n)]
            d = 1 / det(M)
            one = d * 0 + 1
            return lib.stack([lib.stack([e * d * one for e in r]) for r in adjugate(M)])
        ctx = env.patched(lib.linalg, 'inv', inv)
    else:
        ctx = LinAlg(env).patched()

    def body(c, x, xb, v):
        out = [('sandwich_map', x.sandwich_map(sv)(v)), ('batch', xb.sandwich_map(sv)(v)), ('sum', xb.sandwich_map(sv).sum(0)(v)),
               ('left', c.operator.product(sx, sv).partial({0: x})(v)), ('right sum', c.operator.product(sv, sx).partial({1: xb}).sum(0)(v))]
        if has_inertia:
            out.append(('inertia', xb.inertia_map(sv).sum(0)(v)))
        if square:
            m = x.sandwich_map(sv)
            out.append(('inverse', m.inverse()(m(v))))
        if len(sv) <= 3:
            # an operator without bound arguments, between different subspaces
            h = c.operator.right_hodge(sv)
            out.append(('unbound inverse', h.inverse()(h(v))))
        return out
    with ctx:
        got = dict(execute(env, backend, sig, body, [x, xb, v]))
    S = lambda a: ref_sandwich(R, a, v, sv)
    env.eq(got['sandwich_map'], S(x), backend + ': sandwich_map')
    bat = {int(b): got['batch'].values[..., k] for k, b in enumerate(got['batch'].subspace.blades)}
    for i in range(2):
        env.eq({b: a[i] for b, a in bat.items()}, S(xb[i]), backend + ': batch of sandwich maps')
    env.eq(got['sum'], R.add(S(xb[0]), S(xb[1])), backend + ': sum of sandwich maps')
    env.eq(got['left'], R.gp(x, v), backend + ': product map')
    env.eq(got['right sum'], R.add(R.gp(v, xb[0]), R.gp(v, xb[1])), backend + ': sum of right product maps')
    if has_inertia:
        I = lambda a: rp(R, a, commutator(R, a, v))
        env.eq(got['inertia'], R.add(I(xb[0]), I(xb[1])), backend + ': sum of inertia maps')
    if square:
        env.eq(got['inverse'], v, backend + ': inverse')
    if len(sv) <= 3:
        env.eq(got['unbound inverse'], v, backend + ': inverse of an operator without bound arguments')
