"""Involutions: grade signs, involutivity, (anti)automorphism laws and fused second-argument products."""
from vlib.engine import harness
from vlib.ga import *

META = dict(
    bounds='coefficients: arbitrary reals; all signatures of dimension <= 3, sampled (quick) or all (thorough) of dimension 4, '
           'canonical (p,q,r) of dimension 5, selected 6/7; subspaces: full, single grades, sampled arbitrary blade sets; '
           'blade layer: arbitrary blades and metrics up to 17 dimensions',
    outside='float rounding',
    assumptions=['real arithmetic in place of float64', 'ufunc model of vlib/bv.py for the blade layer'],
)
NAMES = ['reverse', 'involute', 'conjugate', 'scalar_negation', 'pseudoscalar_negation']


def sigs(tier, seed, k4=10, k5=4):
    s = all_sigs(1) + all_sigs(2) + all_sigs(3)
    if tier == 'quick':
        return s + pick(canon_sigs(4), k4, seed) + pick(canon_sigs(5), k5, seed)
    return s + all_sigs(4) + canon_sigs(5)


def cfg1(tier, seed):
    out = [dict(sig=s, X='full') for s in sigs(tier, seed) + ['+-0+-+', '0+++-++']]
    for s in sigs(tier, seed)[3:]:
        out += [dict(sig=s, X=x) for x in random_specs(len(s), 2, seed)]
    for i, s in enumerate(high_sigs(tier, seed)):
        out += [dict(sig=s, X=x) for x in mirrored_specs(len(s), 3, seed + i, hi=6)]
    return out


@harness('C02', configs=cfg1)
def grade_signs(env, sig, X):
    """each involution multiplies each grade by its defining sign and is its own inverse"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    for n in NAMES:
        y = getattr(x, n)()
        env.eq(y, getattr(R, n)(x), n)
        env.true(y.subspace == x.subspace, n + ' keeps the subspace')
        env.eq(getattr(y, n)(), x, n + ' twice')
        op = getattr(c.algebra.operator, n)(x.subspace)
        env.eq(c.operator(op)(x), y, n + ' abstract operator')
    env.eq(~x, R.reverse(x), '~x')
    env.eq(x.study_conjugate(), R.scalar_negation(x), 'study_conjugate')
    env.eq(x.conjugate(), x.involute().reverse(), 'conjugate = reverse o involute')


def cfg2(tier, seed):
    out = [dict(sig=s, X='full', Y='full') for s in sigs(tier, seed) if len(s) <= 5]
    for s in sigs(tier, seed)[3:] + ['+-0+-+']:
        r = random_specs(len(s), 4, seed + 3, hi=12)
        out += [dict(sig=s, X=r[0], Y=r[1 % len(r)]), dict(sig=s, X=r[-1], Y=r[-2 % len(r)])]
    for i, s in enumerate(high_sigs(tier, seed)):
        r = mirrored_specs(len(s), 4, seed + i, hi=4)
        out += [dict(sig=s, X=r[k + 0], Y=r[k + 1]) for k in (0, 2)]
    return out


@harness('C02', configs=cfg2)
def morphism(env, sig, X, Y):
    """reverse and conjugate are anti-automorphisms, involute is an automorphism"""
    c = env.ctx(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y))
    p = x * y
    env.eq(p.reverse(), y.reverse() * x.reverse(), 'reverse(xy)')
    env.eq(p.conjugate(), y.conjugate() * x.conjugate(), 'conjugate(xy)')
    env.eq(p.involute(), x.involute() * y.involute(), 'involute(xy)')
    env.eq((x ^ y).reverse(), y.reverse() ^ x.reverse(), 'reverse(x^y)')
    env.eq((x ^ y).involute(), x.involute() ^ y.involute(), 'involute(x^y)')


@harness('C02', configs=cfg2)
def combined(env, sig, X, Y):
    """x.<involution>_product(y) == x * involution(y)"""
    c = env.ctx(sig)
    R = Ref(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y))
    for n in NAMES:
        env.eq(getattr(x, n + '_product')(y), R.gp(x, getattr(R, n)(y)), n + '_product')
        env.true(getattr(x.subspace, n + '_product')(y.subspace) ==
                 getattr(c.algebra.operator, n + '_product')(x.subspace, y.subspace).subspace, n + ' subspace product')
    op = c.operator.study_conjugate_product(x.subspace, y.subspace)
    env.eq(op(x, y), R.gp(x, R.scalar_negation(y)), 'study_conjugate_product')
    env.eq(x.anti_reverse_product(y), R.lcomp(R.gp(R.rcomp(x), R.reverse(R.rcomp(y)))), 'anti_reverse_product')


# ---------------------------------------------------------------- blade layer

import numpy as np
from vlib.bv import blade_harness
from checks.c01 import metric_algebra


@blade_harness('C02', configs=lambda t, s: [dict(n=n) for n in ([1, 2, 4, 7, 8, 9, 12, 16, 17, 20, 24] if t == 'quick' else range(1, 27))])
def blade_signs(E, n):
    """Algebra.reverse and involute give (-1)^(g(g-1)/2) and (-1)^g on every blade"""
    alg, neg, zero = metric_algebra(E, n)
    a = E.blades('a', 2, alg)
    for i in range(2):
        g = sum(((a[i] >> k) & 1).astype(np.int64) for k in range(n))
        E.true(alg.grade(a)[i] == g, 'grade')
        # g mod 4 decides both
        q = g & 3
        E.true((alg.involute(a)[i] == -1) == ((q == 1) | (q == 3)), 'involute')
        E.true((alg.involute(a)[i] == 1) == ((q == 0) | (q == 2)), 'involute is a sign')
        E.true((alg.reverse(a)[i] == -1) == ((q == 2) | (q == 3)), 'reverse')
        E.true((alg.reverse(a)[i] == 1) == ((q == 0) | (q == 1)), 'reverse is a sign')


@blade_harness('C02', configs=lambda t, s: [dict(n=n) for n in range(1, 6 if t == 'quick' else 8)], timeout=600)
def blade_morphism(E, n):
    """reverse reverses products and involute preserves them, on every pair of blades and every metric, using the code's own product"""
    alg, neg, zero = metric_algebra(E, n)
    a, b = E.blades('a', 1, alg), E.blades('b', 1, alg)
    ab, s = alg.product(a, b)
    ba, t = alg.product(b, a)
    E.true(s[0, 0] * alg.reverse(ab[0])[0] == t[0, 0] * alg.reverse(a)[0] * alg.reverse(b)[0], 'reverse(ab) = reverse(b) reverse(a)')
    E.true(alg.involute(ab[0])[0] == alg.involute(a)[0] * alg.involute(b)[0], 'involute(ab) = involute(a) involute(b)')
