"""Grade-selected products against the graded parts of the Clifford product."""
from vlib.engine import harness
from vlib.ga import *

META = dict(
    bounds='coefficients: arbitrary reals; all signatures of dimension <= 3, sampled/all 4, canonical 5, selected 6; '
           'pairs of full, single-grade and sampled arbitrary subspaces',
    outside='float rounding; full subspaces above 6 dimensions (few-bladed ones up to 12 are inside); dimensions above 12', assumptions=['real arithmetic in place of float64'])


def sigs(tier, seed, k4=10, k5=4):
    s = all_sigs(1) + all_sigs(2) + all_sigs(3)
    if tier == 'quick':
        return s + pick(canon_sigs(4), k4, seed) + pick(canon_sigs(5), k5, seed)
    return s + all_sigs(4) + canon_sigs(5)


def pairs(tier, seed, big=('+-0+-+', '++++-0')):
    out = []
    for s in sigs(tier, seed) + list(big):
        n = len(s)
        if n <= 5:
            out.append(dict(sig=s, X='full', Y='full'))
        r = random_specs(n, 6, seed + 11, hi=14)
        for i in range(0, len(r) - 1, 2):
            out.append(dict(sig=s, X=r[i], Y=r[i + 1]))
        if n >= 3:
            out.append(dict(sig=s, X='g:1', Y='g:%d' % (n - 1)))
            out.append(dict(sig=s, X='g:2', Y='g:2,3'))
    for i, s in enumerate(high_sigs(tier, seed)):
        r = mirrored_specs(len(s), 4, seed + i, hi=4)
        out += [dict(sig=s, X=r[k + 0], Y=r[k + 1]) for k in (0, 2)]
    return out


def half(R, a, b, s):
    d = R.add(a, b, s)
    from fractions import Fraction
    return R.scale(d, Fraction(1, 2)) if any(hasattr(v.flat[0], 't') for v in map(_arr, d.values())) else R.scale(d, 0.5)


def _arr(v):
    import numpy as np
    return np.asarray(v, dtype=object)


@harness('C03', configs=pairs)
def graded_parts(env, sig, X, Y):
    """every named product equals its grade part of the Clifford product"""
    c = env.ctx(sig)
    R = Ref(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y))
    gp = R.gp(x, y)
    env.eq(x ^ y, R.wedge(x, y), 'wedge')
    env.eq(x.outer(y), R.wedge(x, y), 'outer')
    env.eq(x | y, R.inner(x, y), 'inner')
    env.eq(x.left_contract(y), R.lc(x, y), 'left contraction')
    env.eq(x.right_contract(y), R.rc(x, y), 'right contraction')
    env.eq(x.scalar_product(y), R.sp(x, y), 'scalar product')
    env.eq(x.cross(y), R.rhodge(R.wedge(x, y)), 'cross product')
    if R.n >= 2:
        env.eq(x.bivector_product(y), R.select(gp, lambda b: grade(b) == 2), 'bivector product')
    if R.n >= 3:
        env.eq(x.trivector_product(y), R.select(gp, lambda b: grade(b) == 3), 'trivector product')
    o = sub(c.algebra, Y)
    env.eq(c.operator.n_product(x.subspace, y.subspace, o)(x, y),
           R.select(gp, lambda b: b in [int(q) for q in o.blades]), 'n_product')
    ops = c.operator
    for name, f in dict(wedge_product=R.wedge, inner_product=R.inner, scalar_product=R.sp, left_contraction_product=R.lc,
                        right_contraction_product=R.rc, geometric_product=R.gp).items():
        env.eq(getattr(ops, name)(x.subspace, y.subspace)(x, y), f(x, y), name)
    env.eq(x.subspace.wedge(y.subspace) is c.algebra.operator.wedge(x.subspace, y.subspace).subspace, True, 'wedge subspace')


@harness('C03', configs=pairs)
def commutators(env, sig, X, Y):
    """commutator / anti-commutator are half sums, of the product and of the anti-product"""
    c = env.ctx(sig)
    R = Ref(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y))
    xy, yx = R.gp(x, y), R.gp(y, x)
    for n in ('commutator', 'commutator_product'):
        env.eq(getattr(x, n)(y), half(R, xy, yx, -1), n)
    for n in ('anti_commutator', 'anti_commutator_product'):
        env.eq(getattr(x, n)(y), half(R, xy, yx, +1), n)
    env.eq(x.commutator(y) + x.anti_commutator(y), xy, 'sum is the product')
    agp = lambda a, b: R.lcomp(R.gp(R.rcomp(a), R.rcomp(b)))
    axy, ayx = agp(x, y), agp(y, x)
    for n in ('commutator_anti', 'commutator_anti_product'):
        env.eq(getattr(x, n)(y), half(R, axy, ayx, -1), n)
    for n in ('anti_commutator_anti', 'anti_commutator_anti_product'):
        env.eq(getattr(x, n)(y), half(R, axy, ayx, +1), n)


def cfg3(tier, seed):
    out = [dict(sig=s, X='full', Y='full', Z='full') for s in sigs(tier, seed) if len(s) <= (4 if tier == 'quick' else 5)]
    for s in canon_sigs(5)[::5] + ['+-0+-+']:
        r = random_specs(len(s), 3, seed + 5, hi=8)
        out.append(dict(sig=s, X=r[0], Y=r[1], Z=r[2]))
    for i, s in enumerate(high_sigs(tier, seed)):
        r = mirrored_specs(len(s), 6, seed + i, hi=3)
        out += [dict(sig=s, X=r[k + 0], Y=r[k + 1], Z=r[k + 2]) for k in (0, 3)]
    return out


@harness('C03', configs=cfg3)
def wedge_laws(env, sig, X, Y, Z):
    """wedge is associative, metric free, and alternating on vectors"""
    c = env.ctx(sig)
    d = env.ctx('+' * len(sig))
    R = Ref(sig)
    x, y, z = (env.mv(c, n, sub(c.algebra, s)) for n, s in zip('xyz', (X, Y, Z)))
    env.eq((x ^ y) ^ z, x ^ (y ^ z), 'associativity')
    x2, y2 = env.mv(d, 'x', sub(d.algebra, X)), env.mv(d, 'y', sub(d.algebra, Y))
    env.eq(x ^ y, x2 ^ y2, 'metric independent')
    v = env.mv(c, 'v', sub(c.algebra, 'g:1'))
    env.eq(v ^ v, 0, 'v^v = 0')
    env.eq(v * x, v.left_contract(x) + (v ^ x), 'vector product splits')
