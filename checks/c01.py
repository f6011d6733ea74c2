"""Geometric product: coefficient-level identities over symbolic reals and blade-level
identities over symbolic bit patterns and symbolic metrics."""
from vlib.engine import harness, custom
from vlib.ga import *

META = dict(
    bounds='coefficients: arbitrary reals; every signature string of length <= 3 (quick) / 4 (thorough), selected ones to 6; '
           'blades: arbitrary bit patterns and arbitrary disjoint +/-/0 metric masks, n in the listed dimensions up to 17',
    outside='float rounding; dimensions above 17; non-diagonal metrics',
    assumptions=['real arithmetic in place of float64', 'numpy ufunc semantics on fixed-width integers as modelled in vlib/bv.py'],
)


def sigs(tier, seed):
    s = all_sigs(1) + all_sigs(2) + all_sigs(3)
    if tier == 'quick':
        return s + pick(canon_sigs(4), 8, seed)
    return s + all_sigs(4)


def cfg_full(tier, seed):
    out = [dict(sig=s) for s in sigs(tier, seed)]
    out += [dict(sig=s) for s in (pick(canon_sigs(5), 3, seed) if tier == 'quick' else canon_sigs(5))]
    return out


@harness('C01', configs=cfg_full)
def clifford(env, sig):
    """x * y equals the textbook Clifford product of full multivectors"""
    c = env.ctx(sig)
    R = Ref(sig)
    f = sub(c.algebra, 'full')
    x, y = env.mv(c, 'x', f), env.mv(c, 'y', f)
    env.eq(x * y, R.gp(x, y), 'x*y')
    env.eq(x.product(y), R.gp(x, y), 'x.product(y)')


def cfg_high(tier, seed):
    out = []
    for i, s in enumerate(high_sigs(tier, seed, k=2)):
        r = mirrored_specs(len(s), 6, seed + i)
        out += [dict(sig=s, X=r[0], Y=r[1], Z=r[2]), dict(sig=s, X=r[3], Y=r[4], Z=r[5]), dict(sig=s, X='g:1' if len(s) < 9 else r[1], Y=r[0], Z=r[3])]
    return out


@harness('C01', configs=cfg_high)
def high(env, sig, X, Y, Z):
    """product and associativity in six to twelve dimensions"""
    c = env.ctx(sig)
    R = Ref(sig)
    x, y, z = (env.mv(c, n, sub(c.algebra, s)) for n, s in zip('xyz', (X, Y, Z)))
    env.eq(x * y, R.gp(x, y), 'x*y')
    env.eq(y * x, R.gp(y, x), 'y*x')
    env.eq((x * y) * z, R.gp(R.gp(x, y), z), '(xy)z')
    env.eq(x * (y * z), R.gp(R.gp(x, y), z), 'x(yz)')
    one = c.multivector.scalar([1])
    env.eq(one * x, x, '1*x')


def cfg_assoc(tier, seed):
    out = [dict(sig=s, X='full', Y='full', Z='full') for s in sigs(tier, seed)]
    k = 2 if tier == 'quick' else 8
    for s in pick(canon_sigs(5), 3 if tier == 'quick' else 21, seed + 1) + ['+++0-+', '++++00']:
        n = len(s)
        r = random_specs(n, 3 * k, seed, hi=8)
        for i in range(k):
            out.append(dict(sig=s, X=r[3 * i], Y=r[3 * i + 1], Z=r[3 * i + 2]))
        out.append(dict(sig=s, X='g:1', Y='g:2', Z='g:1,%d' % n))
    return out


@harness('C01', configs=cfg_assoc)
def associative(env, sig, X, Y, Z):
    """(x*y)*z == x*(y*z)"""
    c = env.ctx(sig)
    x, y, z = (env.mv(c, n, sub(c.algebra, s)) for n, s in zip('xyz', (X, Y, Z)))
    env.eq((x * y) * z, x * (y * z), 'associativity')


@harness('C01', configs=lambda t, s: [dict(sig=q) for q in sigs(t, s) + COMMON5[:3]])
def unital_bilinear(env, sig):
    """1*x == x*1 == x; product is linear in each argument"""
    c = env.ctx(sig)
    f = sub(c.algebra, 'full')
    v = sub(c.algebra, 'g:1,2')
    x = env.mv(c, 'x', f)
    one = c.multivector.scalar([1])
    env.eq(one * x, x, '1*x')
    env.eq(x * one, x, 'x*1')
    env.eq(1 * x, x, 'number 1 * x')
    env.eq(x * c.multivector.scalar(), x, 'default scalar is one')
    a, b, s = env.mv(c, 'a', v), env.mv(c, 'b', v), env.scalar('s')
    env.eq((a * s + b) * x, (a * x) * s + b * x, 'left linear')
    env.eq(x * (a * s + b), (x * a) * s + x * b, 'right linear')


def cfg_gen(tier, seed):
    return [dict(sig=s) for s in sigs(tier, seed) + canon_sigs(5)[::4] + ['+-0+-0', '0++++++', '--++00+'] + ['+-0+-0+0'] * (tier != 'quick')]


@harness('C01', configs=cfg_gen)
def generators(env, sig):
    """e_i e_j + e_j e_i = 2 metric_ij, and (vector)^2 is its quadratic form"""
    c = env.ctx(sig)
    m = metric(sig)
    e = c.multivector.basis()
    env.true(len(e) == len(m), 'one generator per sign')
    for i in range(len(m)):
        for j in range(len(m)):
            env.eq(e[i] * e[j] + e[j] * e[i], 2 * m[i] * (i == j), 'e%d e%d' % (i, j))
    x = env.mv(c, 'x', c.algebra.subspace.vector())
    q = sum(x.values[i] * x.values[i] * m[i] for i in range(len(m)))
    env.eq(x * x, q, 'vector square')


# ---------------------------------------------------------------- blade layer: every blade, every metric

from vlib.bv import blade_harness, forms
import numpy as np


def metric_algebra(E, n):
    """algebra with an unknown diagonal metric: two disjoint symbolic masks in place of the packed description"""
    from numga.algebra.algebra import Algebra
    alg = Algebra.from_pqr(n, 0, 0)
    m = E.blades('m', 2, alg)
    neg, zero = m[0] & ~m[1], m[1]
    if E.symbolic:
        alg.__dict__.update(negatives=neg, zeros=zero, positives=~(neg | zero) & np.array(alg.n_blades - 1, dtype=alg.blade_dtype))
    else:       # the replay runs an ordinary algebra of that signature
        sgn = ['0' if int(zero) >> i & 1 else '-' if int(neg) >> i & 1 else '+' for i in range(n)]
        alg = Algebra.from_str(''.join(chr(97 + i) + s for i, s in enumerate(sgn)))
    return alg, neg, zero


def refsign(a, b, neg, zero, n):
    """sign of the product of two blades"""
    # every generator of a above a generator of b is one swap; every shared negative generator one sign
    swaps = [[(a, j), (b, i)] for i in range(n) for j in range(i + 1, n)]
    r = forms(*(swaps + [[(a, i), (b, i), (neg, i)] for i in range(n)]))
    return np.where((a & b & zero) != 0, np.int8(0), 1 - 2 * r).astype(np.int8)


def cfg_bits(tier, seed):
    return [dict(n=n) for n in ([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 24] if tier == 'quick' else list(range(1, 27)))]


@blade_harness('C01', configs=cfg_bits)
def blade_product(E, n):
    """Algebra.product on every pair of blades and every diagonal metric: xor of the blades, swap parity and metric sign"""
    alg, neg, zero = metric_algebra(E, n)
    a, b = E.blades('a', 2, alg), E.blades('b', 2, alg)
    c, s = alg.product(a, b)
    E.true(c.shape == (2, 2) and s.shape == (2, 2), 'shape of the table')
    for i in range(2):
        for j in range(2):
            E.true(c[i, j] == (a[i] ^ b[j]), 'product blade')
            E.same(s[i, j], refsign(a[i], b[j], neg, zero, n), 'sign')


@blade_harness('C01', configs=lambda t, s: [dict(n=n) for n in range(1, 7 if t == 'quick' else 8)], timeout=600, solver_ms=200000)
def blade_associative(E, n):
    """associativity of Algebra.product itself on every triple of blades, every metric"""
    alg, neg, zero = metric_algebra(E, n)
    a, b, c = (E.blades(k, 1, alg) for k in 'abc')
    ab, s1 = alg.product(a, b)
    l, s2 = alg.product(ab[0], c)
    bc, t1 = alg.product(b, c)
    r, t2 = alg.product(a, bc[0])
    E.true(l == r, 'blade of (ab)c and a(bc)')
    E.true(s1 * s2 == t1 * t2, 'sign of (ab)c and a(bc)')


@blade_harness('C01', configs=lambda t, s: [d for d in cfg_bits(t, s) if d['n'] <= 17])
def blade_metric(E, n):
    """square of the pseudoscalar and the packing of the description's signs, for all metrics"""
    alg, neg, zero = metric_algebra(E, n)
    a = E.blades('a', 1, alg)
    _, s = alg.product(a, a)
    g = sum(((a[0] >> i) & 1).astype(np.int64) for i in range(n))
    E.true(alg.grade(a)[0] == g, 'grade is the number of generators')
    r = forms(*([[(g // 2, 0)]] + [[(a[0], i), (neg, i)] for i in range(n)]))
    E.same(s[0, 0], np.where((a[0] & zero) != 0, np.int8(0), 1 - 2 * r).astype(np.int8), 'square of a blade')
