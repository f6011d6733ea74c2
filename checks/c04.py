"""Complements, duals, their inverses, regressive / anti / interior products."""
from vlib.engine import harness
from vlib.ga import *
from checks.c03 import sigs, pairs

META = dict(
    bounds='coefficients: arbitrary reals; all signatures of dimension <= 3, sampled/all 4, canonical 5, selected 6; '
           'full, single-grade and sampled arbitrary subspaces',
    outside='float rounding; full subspaces above 6 dimensions (few-bladed ones up to 12 are inside); dimensions above 12', assumptions=['real arithmetic in place of float64'])


def cfg1(tier, seed):
    out = []
    for s in sigs(tier, seed) + ['+-0+-+', '++++-0']:
        out.append(dict(sig=s, X='full'))
        out += [dict(sig=s, X=x) for x in random_specs(len(s), 3, seed)]
        out += [dict(sig=s, X='g:%d' % k) for k in range(len(s) + 1)] if len(s) >= 3 else []
    for i, s in enumerate(high_sigs(tier, seed)):
        out += [dict(sig=s, X=x) for x in mirrored_specs(len(s), 3, seed + i, hi=6)]
    return out


@harness('C04', configs=cfg1)
def duals(env, sig, X):
    """each dual sends blades to signed complements with the defining sign; inverses undo them both ways"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    s = x.subspace
    op = c.operator
    env.eq(op.right_complement_dual(s)(x), R.rcd(x), 'right_complement_dual')
    env.eq(op.left_complement_dual(s)(x), R.lcd(x), 'left_complement_dual')
    env.eq(op.right_hodge(s)(x), R.rhodge(x), 'right_hodge')
    env.eq(op.left_hodge(s)(x), R.lhodge(x), 'left_hodge')
    env.eq(op.right_complement(s)(x), R.rcomp(x), 'right_complement')
    env.eq(op.left_complement(s)(x), R.lcomp(x), 'left_complement')
    env.eq(op.right_hodge_inverse(s)(x), R.unmap(x, R.rhodge), 'right_hodge_inverse')
    env.eq(op.left_hodge_inverse(s)(x), R.unmap(x, R.lhodge), 'left_hodge_inverse')
    env.eq(x.dual(), R.rhodge(x), 'dual')
    env.eq(x.dual_inverse(), R.unmap(x, R.rhodge), 'dual_inverse')
    env.eq(x.dual().dual_inverse(), x, 'dual_inverse(dual(x))')
    env.eq(x.dual_inverse().dual(), x, 'dual(dual_inverse(x))')
    lh = op.left_hodge(s)(x)
    env.eq(op.left_hodge_inverse(lh.subspace)(lh), x, 'left_hodge_inverse(left_hodge(x))')
    li = op.left_hodge_inverse(s)(x)
    env.eq(op.left_hodge(li.subspace)(li), x, 'left_hodge(left_hodge_inverse(x))')
    comp = {R.I ^ int(b) for b in s.blades}
    for n in ('right_complement_dual', 'left_complement_dual', 'right_hodge', 'left_hodge', 'right_complement',
              'left_complement', 'right_hodge_inverse', 'left_hodge_inverse'):
        env.true({int(b) for b in getattr(op, n)(s).output.blades} == comp, n + ' output type')


@harness('C04', configs=cfg1)
def pseudoscalar_laws(env, sig, X):
    """blade ^ dual = I; complement = geometric product with I when the metric is not degenerate"""
    c = env.ctx(sig)
    R = Ref(sig)
    s = sub(c.algebra, X)
    x = env.mv(c, 'x', s)
    I = c.multivector.pseudoscalar([1])
    env.eq(I, {R.I: 1}, 'pseudoscalar')
    for k, b in enumerate([int(b) for b in s.blades][:6]):
        e = c.multivector.blade(b)
        env.eq(e ^ c.operator.right_complement_dual(e.subspace)(e), I, 'e ^ rcd(e)')
        env.eq(c.operator.left_complement_dual(e.subspace)(e) ^ e, I, 'lcd(e) ^ e')
    if '0' not in sig:
        env.eq(c.operator.right_complement(s)(x), x * I, 'right complement = x I')
        env.eq(c.operator.left_complement(s)(x), I * x, 'left complement = I x')
    m = 1
    for v in R.m:
        m *= v
    env.true(c.algebra.pseudo_scalar_squared == m * (-1) ** (R.n * (R.n - 1) // 2), 'pseudoscalar square')


@harness('C04', configs=pairs)
def anti_products(env, sig, X, Y):
    """regressive, anti- and interior products are operate-in-the-dual"""
    c = env.ctx(sig)
    R = Ref(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y))
    ud = lambda v: R.unmap(v, R.rhodge)
    rp = ud(R.wedge(R.rhodge(x), R.rhodge(y)))
    env.eq(x & y, rp, 'regressive')
    env.eq(x.regressive(y), rp, 'regressive')
    anti = lambda f: lambda a, b: R.lcomp(f(R.rcomp(a), R.rcomp(b)))
    aw = anti(R.wedge)
    env.eq(x.anti_wedge(y), aw(x, y), 'anti_wedge')
    env.eq(x.anti_product(y), anti(R.gp)(x, y), 'anti_product')
    env.eq(x.anti_inner(y), anti(R.inner)(x, y), 'anti_inner')
    op, s, t = c.operator, x.subspace, y.subspace
    env.eq(op.anti_scalar_product(s, t)(x, y), anti(R.sp)(x, y), 'anti_scalar')
    lip = lambda a, b: aw(R.lcomp(a), b)
    rip = lambda a, b: aw(a, R.rcomp(b))
    env.eq(op.left_interior_product(s, t)(x, y), lip(x, y), 'left_interior')
    env.eq(op.right_interior_product(s, t)(x, y), rip(x, y), 'right_interior')
    env.eq(op.anti_left_interior_product(s, t)(x, y), anti(lip)(x, y), 'anti_left_interior')
    env.eq(op.anti_right_interior_product(s, t)(x, y), anti(rip)(x, y), 'anti_right_interior')
    env.eq(x.cross(y), R.rhodge(R.wedge(x, y)), 'cross')


@harness('C04', configs=lambda t, s: [dict(sig=q) for q in sigs(t, s) if len(q) <= 4])
def regressive_laws(env, sig):
    """regressive product: I is its unit, it is associative"""
    c = env.ctx(sig)
    f = sub(c.algebra, 'full')
    x = env.mv(c, 'x', f)
    I = c.multivector.pseudoscalar([1])
    J = I.dual_inverse().dual().dual_inverse()
    one = c.multivector.scalar([1])
    u = one.dual_inverse()
    env.eq(u & x, x, 'unit & x')
    env.eq(x & u, x, 'x & unit')
    if len(sig) <= 3:
        y, z = env.mv(c, 'y', f), env.mv(c, 'z', f)
        env.eq((x & y) & z, x & (y & z), 'associative')
