"""Symmetrised / fused operators against the plain expressions they replace."""
from vlib.engine import harness
from vlib.ga import *
from checks.c03 import sigs, half

META = dict(
    bounds='coefficients: arbitrary reals; all signatures of dimension <= 3, sampled/all 4, canonical 5, two of 6; full, even, odd, '
           'single/multi-grade and sampled arbitrary subspaces (cubic and quartic fused operators: at most 12 blades in dimension >= 4)',
    outside='float rounding; full subspaces above 6 dimensions', assumptions=['real arithmetic in place of float64'])


def specs(n, k, seed, hi=None):
    out = ['full', 'even', 'odd'] + ['g:%d' % i for i in range(n + 1)]
    if n >= 3:
        out += ['g:0,1', 'g:0,%d' % n, 'g:1,2', 'g:2,3', 'g:1,%d' % n]
    return out + random_specs(n, k, seed + 21, hi=hi)


def cfg1(tier, seed):
    q = tier == 'quick'
    out = []
    for s in sigs(tier, seed, 8, 4) + ['+-0+-+']:
        xs = specs(len(s), 4 if q else 10, seed)
        if len(s) >= 5:
            xs = [x for x in xs if x != 'full' or len(s) == 5]
        out += [dict(sig=s, X=x) for x in (xs if not q or len(s) <= 2 else pick(xs, 7, seed + len(out)))]
    for i, s in enumerate(high_sigs(tier, seed, dims=(7, 8, 9, 10))):
        out += [dict(sig=s, X=x) for x in mirrored_specs(len(s), 2, seed + i, hi=5)]
    return out


@harness('C06', configs=cfg1)
def quadratic(env, sig, X):
    """x*x and x * involution(x) operators"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    op = c.operator
    s = x.subspace
    env.eq(x.squared(), R.gp(x, x), 'squared')
    env.eq(op.squared(s)(x, x), R.gp(x, x), 'op.squared')
    env.eq(x.symmetric_reverse_product(), R.gp(x, R.reverse(x)), 'symmetric_reverse_product')
    env.eq(x.symmetric_involute_product(), R.gp(x, R.involute(x)), 'symmetric_involute_product')
    env.eq(x.symmetric_conjugate_product(), R.gp(x, R.conjugate(x)), 'symmetric_conjugate_product')
    env.eq(x.symmetric_scalar_negation_product(), R.gp(x, R.scalar_negation(x)), 'symmetric_scalar_negation_product')
    env.eq(op.symmetric_study_conjugate_product(s)(x, x), R.gp(x, R.scalar_negation(x)), 'symmetric_study_conjugate_product')
    pn = R.pseudoscalar_negation(x)
    env.eq(x.symmetric_pseudoscalar_negation_product(), R.gp(x, pn), 'symmetric_pseudoscalar_negation_product')
    of = c.algebra.operator
    for n, ref in (('wedge_product', R.wedge(x, x)), ('inner_product', R.inner(x, x)), ('left_contraction_product', R.lc(x, x)),
                   ('scalar_product', R.sp(x, x)), ('commutator_product', {})):
        env.eq(op(getattr(of, n)(s, s).symmetry((0, 1)))(x, x), ref, n + '.symmetry')
    r = of.reverse_product(s, s)
    env.eq(op(r.symmetry((1, 0)))(x, x), R.gp(x, R.reverse(x)), 'reverse_product.symmetry((1,0))')


@harness('C06', configs=cfg1)
def sandwiches(env, sig, X):
    """R v ~R and its grade-preserving part for arbitrary R"""
    c = env.ctx(sig)
    R = Ref(sig)
    r = env.mv(c, 'r', sub(c.algebra, X))
    if len(r.subspace) > 16:
        return env.true(True)
    n = R.n
    small = n >= 5 and len(r.subspace) > 6
    vs = mirrored_specs(n, 3, env.seed, hi=3) if n >= 7 else ['g:1'] if small else ['g:1', 'g:%d' % max(n - 1, 0), 'g:0,2'] + random_specs(n, 1, env.seed + 5, hi=5)
    for V in vs:
        v = env.mv(c, 'v' + V, sub(c.algebra, V))
        full = R.gp(R.gp(r, v), R.reverse(r))
        gs = {grade(int(b)) for b in v.subspace.blades}
        env.eq(r.full_sandwich(v), full, 'full_sandwich')
        env.eq(r.sandwich(v), R.select(full, lambda b: grade(b) in gs), 'sandwich')
        env.eq(r >> v, R.select(full, lambda b: grade(b) in gs), '>>')
        if not small:
            back = R.gp(R.gp(R.reverse(r), v), r)
            env.eq(r.reverse_sandwich(v), R.select(back, lambda b: grade(b) in gs), 'reverse_sandwich')
            env.eq(r << v, R.select(back, lambda b: grade(b) in gs), '<<')


def cfg2(tier, seed):
    q = tier == 'quick'
    out = []
    for s in sigs(tier, seed, 8, 4):
        n = len(s)
        hi = 8 if n <= 3 else 7
        xs = specs(n, 3 if q else 6, seed + 3, hi=hi)
        if n >= 4:
            xs = [x for x in xs if x not in ('full',) and not (n == 5 and x in ('even', 'odd', 'g:1,2', 'g:2,3', 'g:2', 'g:3'))]
        if n == 4:
            xs = [x for x in xs if x not in ('g:2,3', 'g:1,2')]
        out += [dict(sig=s, X=x) for x in (xs if not q else pick(xs, 5, seed + len(out)))]
    for i, s in enumerate(high_sigs(tier, seed, dims=(7, 8, 9, 10))):
        out += [dict(sig=s, X=x) for x in mirrored_specs(len(s), 2, seed + i, hi=4)]
    return out + [dict(sig='+' * 4 + '-', X='even'), dict(sig='+++0', X='full')]


@harness('C06', configs=cfg2)
def cubic(env, sig, X):
    """x^3, inverse factors, their completions, custom fused operators"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    s = x.subspace
    op, of = c.operator, c.algebra.operator
    k = len(s)
    p = R.gp(x, R.reverse(x))
    env.eq(op.cubed(s)(x, x, x), R.gp(R.gp(x, x), x), 'cubed')
    fac = R.gp(R.reverse(x), R.conjugate(p))
    env.eq(x.inverse_factor(), fac, 'inverse_factor')
    alt = R.gp(R.reverse(x), R.scalar_negation(p))
    env.eq(op.inverse_factor_alt(s)(x, x, x), alt, 'inverse_factor_alt')
    if k <= 8:
        env.eq(op.inverse_factor_completed(s)(x, x, x, x), R.gp(p, R.conjugate(p)), 'inverse_factor_completed')
        env.eq(op.inverse_factor_completed_alt(s)(x, x, x, x), R.gp(p, R.scalar_negation(p)), 'inverse_factor_completed_alt')
    names = ['reverse', 'involute', 'conjugate', 'scalar_negation', 'pseudoscalar_negation']
    a, b = names[len(X) % 5], names[(len(X) * 3 + len(sig)) % 5]
    ref1, ref2 = getattr(R, a), getattr(R, b)
    if k <= 8:
        o = of.compose_symmetry_ops(s, getattr(of, a), getattr(of, b))
        comp = R.gp(ref1(x), ref2(R.gp(x, ref1(x))))
        env.eq(op(o)(x, x, x), comp, 'compose_symmetry_ops')
        if k <= 6:
            env.eq(op(of.complete_op(s, o))(x, x, x, x), R.gp(x, comp), 'complete_op')


def cfg3(tier, seed):
    out = []
    for s in sigs(tier, seed, 8, 4):
        n = len(s)
        if n < 2:
            continue
        for X in ['g:1', 'g:%d' % (n - 1)] + random_specs(n, 1, seed, hi=6):
            for Y in ['g:2'] + random_specs(n, 1, seed + 1, hi=6):
                if not (n == 5 and tier == 'quick' and X != 'g:4'):
                    out.append(dict(sig=s, X=X, Y=Y))
    return out


@harness('C06', configs=cfg3)
def inertia(env, sig, X, Y):
    """inertia(x, y)(x, x, y) = x v (x cross y); euclidean factorisation"""
    c = env.ctx(sig)
    R = Ref(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y))
    com = half(R, R.gp(x, y), R.gp(y, x), -1)
    un = lambda v: R.unmap(v, R.rhodge)
    env.eq(c.operator.inertia(x.subspace, y.subspace)(x, x, y), un(R.wedge(R.rhodge(x), R.rhodge(com))), 'inertia')
    m = R.gp(x, R.rhodge(x))
    f = c.algebra.operator.euclidian_factorization(x.subspace)
    env.eq(c.operator(f)(x, x), R.select(R.unmap(m, R.rhodge), lambda b: grade(b) == 2), 'euclidian_factorization')
    # repeated argument inside a longer multilinear operator
    of = c.algebra.operator
    if len(x.subspace) * len(y.subspace) <= 24:
        q = of.product(of.product(x.subspace, y.subspace), of.product(x.subspace, y.subspace))
        ref = R.gp(R.gp(x, y), R.gp(x, y))
        env.eq(c.operator(q.symmetry((0, 2)))(x, y, x, y), ref, '(xy)(xy) symmetric in x')
        env.eq(c.operator(q.symmetry((3, 1)))(x, y, x, y), ref, '(xy)(xy) symmetric in y')
        env.eq(c.operator(q.symmetry((0, 2)).symmetry((1, 3)))(x, y, x, y), ref, '(xy)(xy) symmetric in both')
