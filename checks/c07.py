"""Operator composition, partial application, operator algebra."""
import itertools
import random

import numpy as np

from vlib.engine import harness
from vlib.ga import *
from checks.c03 import sigs

META = dict(
    bounds='coefficients: arbitrary reals; signatures of dimension 1-4 (all up to 3, canonical 4), two of 5; sampled subspaces; operator '
           'nestings of depth <= 3 and arity <= 4; every subset and order of bound arguments; batch shapes up to 2x2 for partial application',
    outside='float rounding; dimensions above 5; nestings deeper than those listed', assumptions=['real arithmetic in place of float64'])


def cfgs(tier, seed):
    q = tier == 'quick'
    out = []
    S = all_sigs(1)[:2] + pick(all_sigs(2), 5, seed) + pick(all_sigs(3), 12, seed) + pick(canon_sigs(4), 8, seed) + ['++-0+', '+0+++']
    if not q:
        S = all_sigs(1) + all_sigs(2) + all_sigs(3) + canon_sigs(4) + pick(canon_sigs(5), 8, seed)
    for s in S:
        r = random_specs(len(s), 10, seed + 31, hi=5)
        R = lambda i: r[i % len(r)]
        for k in range(2 if q else 4):
            out.append(dict(sig=s, X=R(4 * k), Y=R(4 * k + 1), Z=R(4 * k + 2)))
        out.append(dict(sig=s, X=R(3), Y=R(3), Z='g:0'))
        if len(s) >= 2:
            out.append(dict(sig=s, X='g:1', Y='g:2' if len(s) > 2 else 'g:0,1', Z=R(7)))
    return out


BIN = [('geometric_product', 'gp'), ('wedge_product', 'wedge'), ('inner_product', 'inner'), ('left_contraction_product', 'lc'),
       ('right_contraction_product', 'rc'), ('scalar_product', 'sp')]
UN = ['reverse', 'involute', 'conjugate', 'scalar_negation', 'pseudoscalar_negation']


def xyz(env, c, X, Y, Z):
    return (env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y)), env.mv(c, 'z', sub(c.algebra, Z)))


@harness('C07', configs=cfgs)
def nesting(env, sig, X, Y, Z):
    """operators built from operators equal the nested expression"""
    c = env.ctx(sig)
    R = Ref(sig)
    of, op = c.algebra.operator, c.operator
    x, y, z = xyz(env, c, X, Y, Z)
    sx, sy, sz = x.subspace, y.subspace, z.subspace
    rng = random.Random(X + Y + Z)
    for _ in range(4):
        (n1, r1), (n2, r2) = rng.choice(BIN), rng.choice(BIN)
        u, v, w = (rng.choice(UN) for _ in range(3))
        f, g, rf, rg = getattr(of, n1), getattr(of, n2), getattr(R, r1), getattr(R, r2)
        ux, ux_ = getattr(of, u)(sx), getattr(R, u)(x)
        env.eq(op(g(f(sx, sy), sz))(x, y, z), rg(rf(x, y), z), '%s(%s(x,y),z)' % (n2, n1))
        env.eq(op(g(sz, f(sx, sy)))(z, x, y), rg(z, rf(x, y)), '%s(z,%s(x,y))' % (n2, n1))
        env.eq(op(g(f(ux, sy), getattr(of, v)(sz)))(x, y, z), rg(rf(ux_, y), getattr(R, v)(z)), 'with unary arguments')
        env.eq(op(getattr(of, w)(f(sx, sy)))(x, y), getattr(R, w)(rf(x, y)), '%s(%s(x,y))' % (w, n1))
        if len(sx) * len(sy) <= 16:
            env.eq(op(g(f(sx, sy), f(sy, sx)))(x, y, y, x), rg(rf(x, y), rf(y, x)), 'two nested arguments')
    d = of.dual(of.wedge(sx, sy))
    env.eq(op(d)(x, y), R.rhodge(R.wedge(x, y)), 'dual(wedge)')
    # method syntax on subspaces
    env.eq(op(sx.geometric_product(sy))(x, y), R.gp(x, y), 'subspace method syntax')
    env.eq(op(sx.reverse())(x), R.reverse(x), 'subspace method syntax (unary)')


@harness('C07', configs=cfgs)
def binding(env, sig, X, Y, Z):
    """fuse / bind of any subset of inputs"""
    from numga.operator.operator import Operator
    c = env.ctx(sig)
    R = Ref(sig)
    of, op = c.algebra.operator, c.operator
    x, y, z = xyz(env, c, X, Y, Z)
    sx, sy, sz = x.subspace, y.subspace, z.subspace
    p = of.geometric_product(sx, sy)
    outer = of.geometric_product(p.subspace, sz)
    two = of.geometric_product(p.subspace, p.subspace)
    want = R.gp(R.gp(x, y), z)
    env.eq(op(p.fuse(outer, axis=0))(x, y, z), want, 'fuse axis 0')
    env.eq(op(outer.bind(p))(x, y, z), want, 'bind positional')
    env.eq(op(outer.bind({0: p}))(x, y, z), want, 'bind dict')
    o2 = of.geometric_product(sz, p.subspace)
    env.eq(op(p.fuse(o2, axis=1))(z, x, y), R.gp(z, R.gp(x, y)), 'fuse axis 1')
    env.eq(op(o2.bind({1: p}))(z, x, y), R.gp(z, R.gp(x, y)), 'bind {1:}')
    rx, ry = of.reverse(sx), of.involute(sy)
    for d in ({0: rx}, {1: ry}, {0: rx, 1: ry}, {1: ry, 0: rx}):
        a = R.reverse(x) if 0 in d else x
        b = R.involute(y) if 1 in d else y
        env.eq(op(p.bind(d))(x, y), R.gp(a, b), 'bind %s' % sorted(d))
    if len(sx) * len(sy) <= 16:
        q = R.gp(x, y)
        env.eq(op(two.bind(p, p))(x, y, x, y), R.gp(q, q), 'bind both')
        env.eq(op(two.bind({1: p, 0: p}))(x, y, x, y), R.gp(q, q), 'bind both, dict reversed')
        env.eq(op(two.bind({0: p}).bind({2: p}))(x, y, x, y), R.gp(q, q), 'bind one after the other')
        env.eq(op(two.bind({1: p}).bind({0: p}))(x, y, x, y), R.gp(q, q), 'bind last first')
    # Operator.build with operators among the inputs
    k = of.geometric_product(sx, sy).kernel
    env.eq(op(Operator.build(k, (rx, sy, p.subspace)))(x, y), R.gp(R.reverse(x), y), 'build')
    env.eq(op(Operator.build(k, (sx, ry, p.subspace)))(x, y), R.gp(x, R.involute(y)), 'build 2')
    t3 = of.geometric_product(p, sz)
    env.true(t3.arity == 3 and t3.inputs == (sx, sy, sz), 'input types of a nested operator')


@harness('C07', configs=cfgs)
def pointwise(env, sig, X, Y, Z):
    """sums, multiples, swaps, slices, reductions act pointwise"""
    c = env.ctx(sig)
    R = Ref(sig)
    of, op = c.algebra.operator, c.operator
    x, y, z = xyz(env, c, X, Y, Z)
    sx, sy, sz = x.subspace, y.subspace, z.subspace
    p = of.geometric_product(sx, sy)
    q = of.wedge_product(sx, sy).select_subspace(p.subspace)
    P, W = R.gp(x, y), R.wedge(x, y)
    env.eq(op(p + q)(x, y), R.add(P, W), 'op + op')
    env.eq(op(p.add(q))(x, y), R.add(P, W), 'op.add(op)')
    env.eq(op(p - q)(x, y), R.add(P, W, -1), 'op - op')
    env.eq(op(q - p)(x, y), R.add(W, P, -1), 'op - op')
    env.eq(op(-p)(x, y), R.scale(P, -1), '-op')
    env.eq(op(+p)(x, y), P, '+op')
    env.eq(op(p * 3)(x, y), R.scale(P, 3), 'op * 3')
    env.eq(op(-2 * p)(x, y), R.scale(P, -2), '-2 * op')
    env.eq(op((p * 6).div(3))(x, y), R.scale(P, 2), 'op.div')
    env.eq(R.scale(op(p.div(4))(x, y), 4), P, 'op.div, not a multiple')
    for k, l in ((100, 2), (127, 2), (-90, -3), (200, 300), (64, 4), (255, 257)):
        env.eq(op(p * k * l)(x, y), R.scale(P, k * l), 'op * %d * %d' % (k, l))
        env.eq(op(p * k + p * k - q * l)(x, y), R.add(R.scale(P, 2 * k), R.scale(W, -l)), 'large multiples %d, %d' % (k, l))
    i = of.identity(sx)
    env.eq(op(i * 200 + i * 100)(x), R.scale(x, 300), 'multiples of the identity')
    env.eq(op(i - i * 2)(x), R.scale(x, -1), 'i - 2i')
    env.eq(op(i.fuse(p * 100, 0) * 3)(x, y), R.scale(P, 300), 'fused multiples')
    env.eq(op((p * 100).fuse(of.geometric_product(p.output, sz) * 100, 0))(x, y, z), R.scale(R.gp(P, z), 10000), 'fused large multiples')
    env.eq(R.scale(op((p * .5) + (p * .25))(x, y), 4), R.scale(P, 3), 'fractional multiples')
    for k in (8, 128, 4096, 65536):
        small = (p * (1 / k)).squeeze()
        env.eq(R.scale(op(small)(x, y), k), P, 'small multiples 1/%d, squeezed' % k)
        env.eq(R.scale(op(p.div(k).squeeze())(x, y), k), P, 'quotients 1/%d, squeezed' % k)
    env.eq(op(p.swapaxes(0, 1))(y, x), P, 'swapaxes')
    env.eq(op(p.swapaxes(1, 0))(y, x), P, 'swapaxes(1,0)')
    t = of.geometric_product(p, sz)
    T = R.gp(P, z)
    env.eq(op(t.swapaxes(0, 2))(z, y, x), T, 'swapaxes(0,2)')
    env.eq(op(t.swapaxes(1, 2).swapaxes(0, 1))(z, x, y), T, 'rotated arguments')
    env.eq(op(p.squeeze())(x, y), P, 'squeeze')
    one = lambda s: c.multivector(values=[1] * len(s), subspace=s)
    env.eq(op(p.sum(0))(y), R.gp(one(sx), y), 'sum over input 0')
    env.eq(op(p.sum(1))(x), R.gp(x, one(sy)), 'sum over input 1')
    # longer expressions, through results that vanish
    for label, o, want in [('(a-a)+b', (p - p) + q, W), ('(a+b)-a', (p + q) - p, W), ('(a-b)+b', (p - q) + q, P), ('a-(a-a)', p - (p - p), P), ('-(a-b)', -(p - q), R.add(W, P, -1)),
                           ('(a-b)*2-a', (p - q) * 2 - p, R.add(P, R.scale(W, -2))), ('(a*0)+b', p * 0 + q, W), ('(a-a)*3', (p - p) * 3, {}), ('a+a-b-b', p + p - q - q, R.scale(R.add(P, W, -1), 2)),
                           ('a.add(-a)', p.add(-p), {}), ('(b-b)-(a-a)+a', (q - q) - (p - p) + p, P)]:
        env.eq(op(o)(x, y), want, label)
        env.true(o.axes == p.axes, 'types of ' + label)
    env.eq(op((p - q).swapaxes(0, 1) + p.swapaxes(0, 1))(y, x), R.add(R.scale(P, 2), W, -1), 'sum of swapped operators')
    env.eq(op(of.geometric_product(p - q, sz))(x, y, z), R.gp(R.add(P, W, -1), z), 'difference as an argument')
    # slicing of inputs
    inter = sx.intersection(sz)
    if len(inter):
        xi = x.restrict_subspace(inter)
        env.eq(op(p.slice((inter,)))(xi, y), R.gp(xi, y), 'slice first input')
        env.eq(op(p[inter, sy])(xi, y), R.gp(xi, y), 'op[...]')
    f = of.geometric_product(sub(c.algebra, 'full'), sub(c.algebra, 'full'))
    env.eq(op(f[sx, sy])(x, y), P, 'full[sx, sy]')
    env.eq(op(f[sx])(x, c.multivector.scalar([1]).select_subspace(sub(c.algebra, 'full'))), x, 'full[sx]')
    env.eq(op(f[sy, sx].swapaxes(0, 1))(x, y), R.gp(y, x), 'slice and swap')
    # sums over different axes
    r = of.geometric_product(sx, sz)
    u = p.add_broadcast(r)
    xu = x.select_subspace(u.inputs[0])
    yu = y.select_subspace(u.inputs[1])
    zu = z.select_subspace(u.inputs[1])
    both = lambda a, b: {int(k) for k in a.blades} | {int(k) for k in b.blades}
    env.true({int(k) for k in u.inputs[1].blades} == both(sy, sz) and {int(k) for k in u.output.blades} == both(p.output, r.output), 'add_broadcast types')
    w = c.multivector(values=yu.values * 1, subspace=u.inputs[1])
    inY, inZ = {int(b) for b in sy.blades}, {int(b) for b in sz.blades}
    full2 = R.add(R.gp(x, yu), R.gp(x, R.select(yu, lambda b: b in inZ)))
    env.eq(op(u)(xu, yu), full2, 'add_broadcast')
    full3 = R.add(R.gp(x, R.select(zu, lambda b: b in inY)), R.gp(x, z))
    env.eq(op(u)(xu, zu), full3, 'add_broadcast (other)')


@harness('C07', configs=cfgs)
def partial_application(env, sig, X, Y, Z):
    """partial application in any order / grouping, with batches; subspaces in place of arguments"""
    c = env.ctx(sig)
    R = Ref(sig)
    op, of = c.operator, c.algebra.operator
    small = lambda s: s
    x, y, z = xyz(env, c, X, Y, Z)
    sx, sy, sz = x.subspace, y.subspace, z.subspace
    t = op(of.geometric_product(of.geometric_product(sx, sy), sz))
    args = {0: x, 1: y, 2: z}
    want = R.gp(R.gp(x, y), z)
    env.eq(t(x, y, z), want, 'full')
    for n in (1, 2, 3):
        for order in itertools.permutations(range(3), n):
            p = t.partial({i: args[i] for i in order})
            rest = [args[i] for i in range(3) if i not in order]
            env.true(p.inputs == tuple(a.subspace for a in rest), 'remaining inputs %s' % (order,))
            if rest:
                env.eq(p(*rest), want, 'partial %s' % (order,))
            else:
                env.eq({int(b): p.kernel[..., i] for i, b in enumerate(p.output.blades)}, want, 'partial, all bound')
    env.eq(t.partial({1: y}).partial({1: z})(x), want, 'partial of partial (z)')
    env.eq(t.partial({2: z}).partial({0: x})(y), want, 'partial of partial (x)')
    env.eq(t.partial({0: x}).partial({0: y}).partial({0: z}).kernel, t(x, y, z).values, 'one by one')
    for mask in itertools.product((0, 1), repeat=3):
        if any(mask) and not all(mask):
            call = [args[i].subspace if m else args[i] for i, m in enumerate(mask)]
            p = t(*call)
            env.eq(p(*[args[i] for i, m in enumerate(mask) if m]), want, 'subspaces at %s' % (mask,))
    if len(sx) * len(sy) <= 12:
        xb, yb = env.mv(c, 'xb', sx, (2,)), env.mv(c, 'yb', sy, (2, 1))
        b = op.geometric_product(sx, sy)
        for i in range(2):
            for j in range(2):
                ref = R.gp(xb[j], yb[i, 0])
                env.eq(b(xb, yb)[i, j], ref, 'batched call')
                env.eq(b.partial({0: xb})(yb)[i, j], ref, 'batched partial 0')
                env.eq(b.partial({1: yb})(xb)[i, j], ref, 'batched partial 1')
                env.eq(b.partial({0: xb})[j](yb[i, 0]), ref, 'indexed batched operator')
                env.eq(b.partial({1: yb}).partial({0: xb}).kernel[i, j], c.operator.geometric_product(sx, sy)(xb[j], yb[i, 0]).values, 'batched partial of partial')


def cfg_deep(tier, seed):
    out = []
    for i, s in enumerate(pick(all_sigs(2), 3, seed) + pick(all_sigs(3), 5, seed) + pick(canon_sigs(4), 3, seed) if tier == 'quick' else all_sigs(2) + all_sigs(3) + canon_sigs(4)):
        r = random_specs(len(s), 8, seed + 57 + i, hi=2)
        out.append(dict(sig=s, S=[r[j % len(r)] for j in range(5)]))
    return out


@harness('C07', configs=cfg_deep)
def deep(env, sig, S):
    """operators of four and five arguments: operators of one and two arguments fused into each of them, partial application in sampled orders"""
    c = env.ctx(sig)
    R = Ref(sig)
    of, op = c.algebra.operator, c.operator
    X = [env.mv(c, 'x%d' % i, sub(c.algebra, s)) for i, s in enumerate(S)]
    sp = [x.subspace for x in X]
    rng = random.Random(repr(S))
    chain = lambda f, xs: f(chain(f, xs[:-1]), xs[-1]) if len(xs) > 1 else xs[0]
    four = chain(of.geometric_product, sp[:4])
    want4 = chain(R.gp, X[:4])
    env.eq(op(four)(*X[:4]), want4, 'four arguments')
    right = of.geometric_product(sp[0], of.wedge_product(sp[1], of.geometric_product(sp[2], sp[3])))
    env.eq(op(right)(*X[:4]), R.gp(X[0], R.wedge(X[1], R.gp(X[2], X[3]))), 'four arguments, nested to the right')
    for a in range(4):
        u = rng.choice(UN)
        ref = [getattr(R, u)(x) if i == a else x for i, x in enumerate(X[:4])]
        for o, f in ((four, lambda q: chain(R.gp, q)), (right, lambda q: R.gp(q[0], R.wedge(q[1], R.gp(q[2], q[3]))))):
            env.eq(op(getattr(of, u)(sp[a]).fuse(o, a))(*X[:4]), f(ref), '%s fused into argument %d' % (u, a))
            env.eq(op(o.bind({a: getattr(of, u)(sp[a])}))(*X[:4]), f(ref), '%s bound to argument %d' % (u, a))
        # an operator of two arguments in place of argument a of a product of four
        p = of.geometric_product(sp[a], sp[4])
        if len(p.output):
            spaces = sp[:a] + [p.output] + sp[a + 1:4]
            if np.prod([len(s) for s in spaces]) <= 64:
                o = chain(of.geometric_product, spaces)
                args = X[:a + 1] + [X[4]] + X[a + 1:4]
                ref = X[:a] + [R.gp(X[a], X[4])] + X[a + 1:4]
                f = p.fuse(o, a)
                env.true(f.inputs == tuple(x.subspace for x in args), 'types with a product fused into argument %d' % a)
                env.eq(op(f)(*args), chain(R.gp, ref), 'a product fused into argument %d' % a)
                env.eq(op(f.swapaxes(a, a + 1))(*args[:a], args[a + 1], args[a], *args[a + 2:]), chain(R.gp, ref), 'swapped around argument %d' % a)
    t = op(four)
    for n in (1, 2, 3, 4):
        for order in rng.sample(list(itertools.permutations(range(4), n)), 4):
            p = t.partial({i: X[i] for i in order})
            rest = [X[i] for i in range(4) if i not in order]
            if rest:
                env.eq(p(*rest), want4, 'partial %s' % (order,))
            else:
                env.eq({int(b): p.kernel[..., i] for i, b in enumerate(p.output.blades)}, want4, 'partial %s' % (order,))
