"""Static typing: operations on any subspaces equal the operation on the embedded full multivectors;
selection / restriction keep exactly what they say."""
import random

import numpy as np

from vlib.engine import harness
from vlib.ga import *

META = dict(
    bounds='coefficients: arbitrary reals; every pair of nonempty subspaces for dimension 1 and (thorough) 2, sampled '
           'arbitrary blade sets for dimension 2-6; all named unary/binary products, sandwiches',
    outside='float rounding; subspaces not sampled in dimensions above 2', assumptions=['real arithmetic in place of float64'])

UNARY = ['reverse', 'involute', 'conjugate', 'scalar_negation', 'pseudoscalar_negation', 'right_complement', 'left_complement',
         'right_complement_dual', 'left_complement_dual', 'left_hodge', 'right_hodge', 'left_hodge_inverse', 'right_hodge_inverse',
         'nondegenerate', 'degenerate', 'identity']
BINARY = ['geometric_product', 'wedge_product', 'inner_product', 'scalar_product', 'left_contraction_product',
          'right_contraction_product', 'left_interior_product', 'right_interior_product', 'anti_geometric_product',
          'anti_wedge_product', 'anti_inner_product', 'anti_scalar_product', 'regressive_product', 'commutator_product',
          'anti_commutator_product', 'commutator_anti_product', 'anti_commutator_anti_product', 'cross_product',
          'reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product',
          'pseudoscalar_negation_product', 'study_conjugate_product', 'anti_reverse_product']
SQUEEZED = {'geometric_product', 'wedge_product', 'inner_product', 'scalar_product', 'left_contraction_product',
            'right_contraction_product', 'regressive_product', 'commutator_product', 'anti_commutator_product', 'cross_product'}


def sigs(tier, seed):
    s = all_sigs(1) + all_sigs(2) + (all_sigs(3) if tier != 'quick' else pick(all_sigs(3), 12, seed))
    s += pick(canon_sigs(4), 6 if tier == 'quick' else 15, seed)
    return s


def embed(env, c, x):
    """the same multivector on the full algebra, built without using the library's own select"""
    import numpy as np
    f = sub(c.algebra, 'full')
    d = aslists(x)
    shape = x.values.shape[:-1]
    vals = np.zeros(shape + (len(f),), dtype=x.values.dtype)
    for i, b in enumerate(int(b) for b in f.blades):
        if b in d:
            vals[..., i] = d[b]
    return c.multivector(values=vals, subspace=f)


def cfg_un(tier, seed):
    out = []
    for s in sigs(tier, seed) + pick(canon_sigs(5), 3, seed):
        xs = all_specs(len(s)) if len(s) <= 2 else random_specs(len(s), 5 if tier == 'quick' else 20, seed)
        out += [dict(sig=s, X=x) for x in xs]
    return out


@harness('C05', configs=cfg_un)
def unary(env, sig, X):
    """unary operators commute with embedding"""
    c = env.ctx(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    f = embed(env, c, x)
    for n in UNARY:
        env.eq(getattr(c.operator, n)(x.subspace)(x), getattr(c.operator, n)(f.subspace)(f), n)


def cfg_bin(tier, seed):
    out = []
    for s in sigs(tier, seed) + pick(canon_sigs(5), 2 if tier == 'quick' else 6, seed) + ['+-0+-+'] * (tier != 'quick'):
        n = len(s)
        if n == 1 or n == 2 and tier != 'quick':
            out += [dict(sig=s, X=x, Y=y) for x in all_specs(n) for y in all_specs(n)]
        else:
            k = (12 if n <= 3 else 5) if tier == 'quick' else 30
            r = random_specs(n, 2 * k, seed + 1, hi=14)
            q = random_specs(n, 2 * k, seed + 2, hi=5)
            out += [dict(sig=s, X=a, Y=b) for a, b in zip(r, q + r)][:k]
            out += [dict(sig=s, X='g:0', Y='g:%d' % n), dict(sig=s, X='g:%d' % n, Y='g:1'), dict(sig=s, X='full', Y='g:1')]
    return out


@harness('C05', configs=cfg_bin)
def binary(env, sig, X, Y):
    """binary products commute with embedding; squeezed outputs carry no dead component"""
    c = env.ctx(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y))
    fx, fy = embed(env, c, x), embed(env, c, y)
    for n in BINARY:
        op = getattr(c.operator, n)
        r = op(x.subspace, y.subspace)(x, y)
        env.eq(r, op(fx.subspace, fy.subspace)(fx, fy), n)
        env.eq(getattr(c.algebra.operator, n)(x.subspace, y.subspace).subspace is r.subspace, True, n + ' output type')
        if n in SQUEEZED and (n not in ('commutator_product', 'anti_commutator_product') or True):
            env.nonzero(r, n + ' output components')


def cfg_super(tier, seed):
    out = []
    for i, s in enumerate(pick(canon_sigs(5), 4, seed) + high_sigs(tier, seed)):
        r = mirrored_specs(len(s), 6, seed + i, hi=4)
        out += [dict(sig=s, X=r[0], Y=r[1], U=r[2]), dict(sig=s, X=r[3], Y=r[4], U=r[5]), dict(sig=s, X=r[0], Y='g:0', U=r[4]), dict(sig=s, X='g:%d' % len(s), Y=r[5], U=r[1])]
    return out


@harness('C05', configs=cfg_super)
def superset(env, sig, X, Y, U):
    """in many dimensions: operators commute with embedding into a larger type, selection keeps the components"""
    c = env.ctx(sig)
    R = Ref(sig)
    A = c.algebra
    x, y, u = env.mv(c, 'x', sub(A, X)), env.mv(c, 'y', sub(A, Y)), sub(A, U)
    fx, fy = (c.multivector(values=[R.d(v).get(int(b), 0) for b in t.blades], subspace=t) for v in (x, y)
              for t in [sub(A, 'b:' + ','.join(map(str, sorted({int(b) for b in v.subspace.blades} | {int(b) for b in u.blades}))))])
    for n in BINARY:
        op = getattr(c.operator, n)
        r = op(x.subspace, y.subspace)(x, y)
        env.eq(r, op(fx.subspace, fy.subspace)(fx, fy), n)
        if n in SQUEEZED:
            env.nonzero(r, n + ' output components')
    for n in UNARY:
        env.eq(getattr(c.operator, n)(x.subspace)(x), getattr(c.operator, n)(fx.subspace)(fx), n)
    env.eq(x.squared(), fx.squared(), 'squared')
    env.eq(x.full_sandwich(y), fx.full_sandwich(fy), 'full_sandwich')
    env.eq(x.select_subspace(u), R.select(x, lambda b: b in set(map(int, u.blades))), 'select')
    env.eq(x.restrict_subspace(fy.subspace), R.select(x, lambda b: b in set(map(int, fy.subspace.blades))), 'restrict')
    for k in {grade(int(b)) for b in x.subspace.blades} | {R.n}:
        env.eq(x.restrict[k], R.select(x, lambda b: grade(b) == k), 'restrict[%d]' % k)


@harness('C05', configs=lambda t, s: [q for q in cfg_bin(t, s) if len(q['sig']) <= 4][::2])
def ternary(env, sig, X, Y):
    """fused ternary operators commute with embedding"""
    c = env.ctx(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y))
    fx, fy = embed(env, c, x), embed(env, c, y)
    s = c.operator.full_sandwich
    env.eq(s(x.subspace, y.subspace)(x, y, x), s(fx.subspace, fy.subspace)(fx, fy, fx), 'full_sandwich')
    env.eq(x.squared(), fx.squared(), 'squared')
    env.eq(x.symmetric_reverse_product(), fx.symmetric_reverse_product(), 'symmetric_reverse_product')
    env.eq(x.inverse_factor(), (lambda p: fx.reverse() * p.conjugate())(fx * fx.reverse()), 'inverse_factor')


def cfg_sel(tier, seed):
    out = []
    for s in sigs(tier, seed) + pick(canon_sigs(5), 3, seed) + ['+-0+-+']:
        n = len(s)
        if n <= 2 and (n == 1 or tier != 'quick'):
            out += [dict(sig=s, X=x, T=y) for x in all_specs(n) + ['empty'] for y in all_specs(n) + ['empty']]
        else:
            k = 10 if tier == 'quick' else 40
            out += [dict(sig=s, X=a, T=b) for a, b in zip(random_specs(n, k, seed + 4), random_specs(n, k, seed + 5))]
            out += [dict(sig=s, X='full', T='g:2'), dict(sig=s, X='g:1', T='full'), dict(sig=s, X='g:1', T='empty')]
    return out


@harness('C05', configs=cfg_sel)
def selection(env, sig, X, T):
    """select / restrict keep exactly the requested components"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X), shape=(2,) if len(sig) == 2 else ())
    t = sub(c.algebra, T)
    want = {int(b) for b in t.blades}
    have = {int(b) for b in x.subspace.blades}
    ref = R.select(x, lambda b: b in want)
    sel, res = x.select_subspace(t), x.restrict_subspace(t)
    env.true(sel.subspace is t, 'select type')
    env.true({int(b) for b in res.subspace.blades} == want & have, 'restrict type')
    env.eq(sel, ref, 'select')
    env.eq(res, ref, 'restrict')
    env.true(sel.values.shape == x.values.shape[:-1] + (len(t),), 'select shape')
    for k in range(R.n + 1):
        g = R.select(x, lambda b: grade(b) == k)
        env.eq(x.select[k], g, 'select[%d]' % k)
        env.eq(x.restrict[k], g, 'restrict[%d]' % k)
        env.eq(x.select_grade(k), g, 'select_grade(%d)' % k)
        env.eq(x.restrict_grade(k), g, 'restrict_grade(%d)' % k)
        env.true([grade(int(b)) for b in x.select[k].subspace.blades].count(k) == len(x.select[k].subspace) and
                 len(x.select[k].subspace) == len(sub(c.algebra, 'g:%d' % k)), 'select[%d] type' % k)
        env.true({int(b) for b in x.restrict[k].subspace.blades} == {b for b in have if grade(b) == k}, 'restrict[%d] type' % k)
    env.eq(x.select[0, R.n], R.select(x, lambda b: grade(b) in (0, R.n)), 'select[0,n]')
    env.eq(x.select.even_grade(), R.select(x, lambda b: grade(b) % 2 == 0), 'select.even_grade')
    env.eq(x.restrict.odd_grade(), R.select(x, lambda b: grade(b) % 2 == 1), 'restrict.odd_grade')
    deg = lambda b: any(b >> i & 1 and R.m[i] == 0 for i in range(R.n))
    env.eq(x.degenerate(), R.select(x, deg), 'degenerate')
    env.eq(x.nondegenerate(), R.select(x, lambda b: not deg(b)), 'nondegenerate')


def cfg_slice(tier, seed):
    out = []
    for s in pick(all_sigs(2), 4, seed) + pick(all_sigs(3), 6, seed) + pick(canon_sigs(4), 4, seed):
        r = random_specs(len(s), 6, seed + 8, hi=8)
        out += [dict(sig=s, X=r[i % len(r)], Y=r[j % len(r)], T=t if t else r[k % len(r)]) for i, j, k, t in ((0, 1, 2, 0), (3, 4, 5, 0), (1, 1, 0, 'full'))]
    return out


@harness('C05', configs=cfg_slice)
def operator_slicing(env, sig, X, Y, T):
    """slicing, de-slicing and output selection of abstract operators"""
    c = env.ctx(sig)
    R = Ref(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y))
    t = sub(c.algebra, T)
    of = c.algebra.operator
    f = sub(c.algebra, 'full')
    full = of.geometric_product(f, f)
    sl = full[x.subspace, y.subspace]
    gp = R.gp(x, y)
    env.eq(c.operator(sl)(x, y), gp, 'op[L, R]')
    env.eq(c.operator(sl.squeeze())(x, y), gp, 'op[L, R].squeeze()')
    small = of.geometric_product(x.subspace, y.subspace)
    fx, fy = embed(env, c, x), embed(env, c, y)
    env.eq(c.operator(small.deslice((f, f, f)))(fx, fy), gp, 'deslice')
    want = {int(b) for b in t.blades}
    s = small.select_subspace(t)
    env.true(s.output is t, 'select_subspace type')
    env.eq(c.operator(s)(x, y), R.select(gp, lambda b: b in want), 'select_subspace')
    for k in range(R.n + 1):
        env.eq(c.operator(small.select_grade(k))(x, y), R.select(gp, lambda b: grade(b) == k), 'select_grade')
    env.eq(c.operator(of.restrict(small, t) if False else of.restrict(small.subspace, t).bind(small))(x, y) if len(small.subspace.intersection(t)) else 0,
           R.select(gp, lambda b: b in want), 'restrict bound to product')


def cfg_spaces(tier, seed):
    out = []
    for i, s in enumerate(sigs(tier, seed) + pick(canon_sigs(5), 2, seed) + pick(high_sigs(tier, seed), 2, seed)):
        n = len(s)
        if n > 5:
            r = mirrored_specs(n, 4, seed + i, hi=4)
            out += [dict(sig=s, X=r[0], Y=r[1]), dict(sig=s, X=r[2], Y=r[3])]
            continue
        r = random_specs(n, 4, seed + 6 + i, hi=5 if n < 5 else 3)
        out += [dict(sig=s, X=r[0], Y=r[1 % len(r)]), dict(sig=s, X='g:1', Y=r[-1]), dict(sig=s, X=r[2 % len(r)], Y='g:%d' % n)]
    return out


@harness('C05', configs=cfg_spaces, timeout=150)
def spaces(env, sig, X, Y):
    """the methods of a subspace name the space in which the product of its elements lies: no component outside, and none in it that is always zero"""
    c = env.ctx(sig)
    R = Ref(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y))
    S, T = x.subspace, y.subspace

    def check(space, want, name, tight=True):
        have = {int(b) for b in space.blades}
        env.eq(R.select(want, lambda b: b not in have), {}, name + ': nothing outside')
        if tight and have:
            env.nonzero({b: want.get(b, 0) for b in have}, name + ': no idle component')
    for name, want in dict(product=R.gp(x, y), wedge=R.wedge(x, y), inner=R.inner(x, y), reverse_product=R.gp(x, R.reverse(y)), involute_product=R.gp(x, R.involute(y)),
                           conjugate_product=R.gp(x, R.conjugate(y)), scalar_negation_product=R.gp(x, R.scalar_negation(y)),
                           pseudoscalar_negation_product=R.gp(x, R.pseudoscalar_negation(y))).items():
        check(getattr(S, name)(T), want, name)
    check(S.anti_reverse_product(T), R.d(x.anti_reverse_product(y)), 'anti_reverse_product')
    check(S.reject(T), R.inner(R.wedge(x, y), y), 'reject', False)
    # the other products, in the notation of operators: the space comes with the operator
    for name, want in dict(scalar_product=R.sp(x, y), left_contract=R.lc(x, y), right_contract=R.rc(x, y), outer=R.wedge(x, y)).items():
        check(getattr(S, name)(T).subspace, want, name)
    sq = R.gp(x, x)
    for name, want in dict(squared=sq, symmetric_reverse=R.gp(x, R.reverse(x)), symmetric_involute=R.gp(x, R.involute(x)), symmetric_conjugate=R.gp(x, R.conjugate(x)),
                           symmetric_scalar_negation=R.gp(x, R.scalar_negation(x)), symmetric_pseudoscalar_negation=R.gp(x, R.pseudoscalar_negation(x))).items():
        check(getattr(S, name)(), want, name)
    if len(sig) <= 5:
        check(S.cubed(), R.gp(sq, x), 'cubed')
        p = R.gp(x, R.reverse(x))
        if len(S) <= 4:
            check(S.symmetric_alt_product(), R.gp(p, R.scalar_negation(p)), 'symmetric_alt_product', False)
    have, other = {int(b) for b in S.blades}, {int(b) for b in T.blades}
    A = c.algebra.subspace
    n = len(sig)
    for name, got, want in [
            ('select(space)', S.select(T), other), ('restrict(space)', S.restrict(T), have & other), ('select_subspace', S.select_subspace(T), other), ('restrict_subspace', S.restrict_subspace(T), have & other)] + [
            (f % k, g, w) for k in range(min(n, 6) + 1) for f, g, w in [
                ('select[%d]', S.select[k], {b for b in range(1 << n) if grade(b) == k}), ('restrict[%d]', S.restrict[k], {b for b in have if grade(b) == k}),
                ('select.k_vector(%d)', S.select.k_vector(k), {b for b in range(1 << n) if grade(b) == k}), ('restrict.k_vector(%d)', S.restrict.k_vector(k), {b for b in have if grade(b) == k})]] + [
            ('restrict[0, n]', S.restrict[0, n], {b for b in have if grade(b) in (0, n)}), ('select[0, n]', S.select[0, n], {0, (1 << n) - 1}), ('restrict[[n]]', S.restrict[[n]], {b for b in have if grade(b) == n}),
            ('restrict.even_grade', S.restrict.even_grade(), {b for b in have if grade(b) % 2 == 0}), ('select.odd_grade', S.select.odd_grade(), {b for b in range(1 << n) if grade(b) % 2})]:
        env.true([int(b) for b in got.blades] == sorted(want, key=lambda b: (grade(b), b)), name)
        env.true(got is A.from_blades(sorted(want)), name + ': the canonical object')


def cfg_refuse(tier, seed):
    out = []
    for i, s in enumerate(all_sigs(1)[:1] + pick(all_sigs(2), 3, seed) + pick(all_sigs(3), 5, seed) + pick(canon_sigs(4), 3, seed)):
        r = random_specs(len(s), 6, seed + 77 + i, hi=4)
        out += [dict(sig=s, X=r[0], Y=r[1 % len(r)]), dict(sig=s, X='g:1', Y='g:%d' % (len(s) - 1)), dict(sig=s, X='g:0', Y='g:%d' % len(s)), dict(sig=s, X=r[2 % len(r)], Y=r[2 % len(r)])]
    return out


@harness('C05', configs=cfg_refuse)
def unlike(env, sig, X, Y):
    """what would mix up components is refused: values of the wrong number, and joining, adding, symmetrising or composing over unlike spaces"""
    from vlib.env import algebra
    c = env.ctx(sig)
    R = Ref(sig)
    of = c.algebra.operator
    a, b = sub(c.algebra, X), sub(c.algebra, Y)

    def refused(f):
        try:
            f()
        except Exception:
            return True
        return False
    x, xx, y = env.mv(c, 'x', a, (2,)), env.mv(c, 'xx', a, (2,)), env.mv(c, 'y', b, (2,))
    j = x.concatenate(xx, 0)
    for i in range(2):
        env.eq(j[i], R.d(x[i]), 'joined, first')
        env.eq(j[2 + i], R.d(xx[i]), 'joined, second')
    same = a is b
    g = [c.operator.geometric_product(q, a).partial({0: m}) for q, m in ((a, x), (b, y))]
    env.true(refused(lambda: g[0].concatenate(g[1], 0)) == (g[0].output is not g[1].output), 'joining operators of unlike results')
    f = of.geometric_product(a, c.algebra.subspace.full()), of.geometric_product(b, c.algebra.subspace.full())
    f = [k.select_subspace(c.algebra.subspace.full()) for k in f]
    three = lambda p, q, r: of.geometric_product(of.geometric_product(p, q), r)
    env.true(refused(lambda: x.concatenate(y, 0)) == (not same), 'joining unlike multivectors')
    env.true(refused(lambda: f[0] + f[1]) == (not same), 'adding operators of unlike arguments')
    env.true(refused(lambda: f[0] - f[1]) == (not same), 'subtracting operators of unlike arguments')
    env.true(refused(lambda: of.reverse(a).fuse(f[1], 0)) == (not same), 'fusing into an unlike argument')
    env.true(refused(lambda: f[1].bind({0: of.identity(a)})) == (not same), 'binding to an unlike argument')
    env.true(refused(lambda: of.geometric_product(a, b).symmetry((0, 1))) == (not same), 'symmetry over unlike arguments')
    if len(a) * len(b) <= 16:
        for p in ((a, a, b), (a, b, a), (b, a, a)):
            env.true(refused(lambda: three(*p).symmetry((0, 1, 2))) == (not same), 'symmetry over three arguments, one unlike')
    for n in {len(a) + 1, len(a) - 1, 2 * len(a)} - {len(a), 0}:
        env.true(refused(lambda: c.multivector(values=[1.0] * n, subspace=a)), '%d values for %d components' % (n, len(a)))
    for n in ('jax', 'torch'):
        if n == 'jax':
            from numga.backend.jax.context import JaxContext as K
        else:
            from numga.backend.torch.context import TorchContext as K
        k = K(algebra(sig))
        u, v = (k.multivector(values=np.ones((2, len(s))), subspace=k.subspace.from_blades(s.blades)) for s in (a, b))
        env.true(refused(lambda: u.concatenate(v, 0)) == (not same), n + ': joining unlike multivectors')
        env.true(refused(lambda: k.multivector(values=np.ones((2, len(a) + 1)), subspace=u.subspace)), n + ': wrong number of values')
