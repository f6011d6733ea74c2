"""Vector-space arithmetic of multivectors, constructors, purity."""
import numpy as np

from vlib.engine import harness
from vlib.env import algebra
from vlib.ga import *
from vlib.sym import Sym
from checks.c08 import execute

META = dict(
    explanation='The real operators run on symbolic coefficients of mixed subspaces, operand kinds, orders and batch shapes; the solver proves each result '
                'componentwise equal to the set-indexed sum, multiple or quotient. Operands are compared element for element after every operation.',
    bounds='coefficients: arbitrary reals; signatures of dimension 1-4; sampled subspaces including empty and full; batch shapes up to 2x3; '
           'numpy with all operand kinds, jax and torch as traced',
    outside='float rounding; batch ranks above 4; dimensions above 5', assumptions=['real arithmetic in place of float64'])


def cfgs(tier, seed):
    q = tier == 'quick'
    out = []
    S = ['+', '-', '0'] + pick(all_sigs(2), 5, seed) + pick(all_sigs(3), 9, seed) + pick(canon_sigs(4), 5, seed) + ['++-0+']
    if not q:
        S = all_sigs(1) + all_sigs(2) + all_sigs(3) + canon_sigs(4) + pick(canon_sigs(5), 8, seed) + pick(all_sigs(6), 3, seed)
    shapes = [((), ()), ((2,), ()), ((), (2,)), ((2, 1), (3,)), ((2,), (2,)), ((1,), (2, 3)), ((2, 1, 2), ()), ((1, 2), (3, 1, 1)), ((2,), (1, 1, 2))]
    for i, s in enumerate(S):
        r = random_specs(len(s), 8, seed + i, hi=6)
        for k in range(4 if q else 8):
            p, t = shapes[(i + k) % len(shapes)]
            out.append(dict(sig=s, X=r[(2 * k) % len(r)], Y=r[(2 * k + 1) % len(r)], p=list(p), q=list(t)))
        p, t = shapes[i % len(shapes)]
        out += [dict(sig=s, X=r[0], Y=r[0], p=list(p), q=list(t)), dict(sig=s, X='g:0', Y=r[1 % len(r)], p=list(t), q=list(p)),
                dict(sig=s, X='full', Y=r[2 % len(r)], p=[], q=[2]), dict(sig=s, X='empty', Y=r[3 % len(r)], p=[2], q=[]),
                dict(sig=s, X='g:1', Y='g:0', p=[2], q=[2])]
    for i, s in enumerate(high_sigs(tier, seed, dims=(7, 8, 9, 12))):
        r = mirrored_specs(len(s), 4, seed + i)
        out += [dict(sig=s, X=r[j], Y=r[j + 1], p=list(p), q=list(t)) for j, (p, t) in ((0, shapes[i % 4]), (2, shapes[(i + 3) % len(shapes)]))]
    return out


def union(x, y):
    return sorted({int(b) for b in x.subspace.blades} | {int(b) for b in y.subspace.blades}, key=lambda b: (grade(b), b))


class Watch:
    """operands keep their identity and every element"""

    def __init__(self, env, *mvs):
        self.env, self.mvs = env, mvs
        self.snap = [(m.subspace, m.values, np.array(m.values, copy=True), m.context) for m in mvs]

    def check(self, label):
        for m, (s, v, c, k) in zip(self.mvs, self.snap):
            ok = m.subspace is s and m.values is v and m.context is k and v.shape == c.shape
            ok = ok and all(a is b or (not self.env.symbolic and a == b) for a, b in zip(v.ravel().tolist(), c.ravel().tolist()))
            self.env.true(ok, label + ': operand untouched')


def fresh(env, r, label, *mvs):
    """the result does not alias an operand"""
    env.true(all(not np.shares_memory(r.values, m.values) for m in mvs if m.values.size), label + ': result is independent of its operands')


@harness('C14', configs=cfgs)
def add_sub(env, sig, X, Y, p, q):
    """x + y, x - y on the union of the subspaces"""
    c = env.ctx(sig)
    R = Ref(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X), tuple(p)), env.mv(c, 'y', sub(c.algebra, Y), tuple(q))
    w = Watch(env, x, y)
    shape = np.broadcast_shapes(tuple(p), tuple(q))
    for label, r, want in (('x+y', x + y, R.add(x, y)), ('x-y', x - y, R.add(x, y, -1)), ('y+x', y + x, R.add(x, y)), ('y-x', y - x, R.add(y, x, -1)),
                           ('-x', -x, R.scale(x, -1)), ('x+x', x + x, R.scale(x, 2)), ('x-(-y)', x - (-y), R.add(x, y)),
                           ('combine', x.combine(y, sign=-1), R.add(x, y, -1))):
        env.eq(r, want, label)
        w.check(label)
        fresh(env, r, label, x, y)
        if label in ('-x', 'x+x'):
            env.true(r.subspace is x.subspace and r.shape == tuple(p), label + ': type and shape')
        else:
            env.true([int(b) for b in r.subspace.blades] == union(x, y), label + ': union of the subspaces')
            env.true(r.shape == shape, label + ': batch shape')
    a = x
    a += y
    env.eq(a, R.add(x, y), 'x += y')
    w.check('x += y')
    a = x
    a -= y
    env.eq(a, R.add(x, y, -1), 'x -= y')
    a *= 2
    env.eq(a, R.scale(R.add(x, y, -1), 2), 'x *= 2')
    w.check('x -= y')
    env.eq(x - x, {}, 'x - x')
    z = env.mv(c, 'z', sub(c.algebra, 'g:0,1'))
    env.eq((x + y) + z, x + (y + z), 'associative')
    env.eq((x + y) - z, x - (z - y), 'associative')
    env.eq((x + y) * z, x * z + y * z, 'right distributive')
    env.eq(z * (x + y), z * x + z * y, 'left distributive')


@harness('C14', configs=cfgs)
def scalars(env, sig, X, Y, p, q):
    """scalar operands of every kind on either side"""
    from fractions import Fraction as F
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X), tuple(p))
    arr = env.array('a', tuple(q)) if q else None
    a0 = np.array(env.scalar('s'), dtype=object if env.symbolic else float)
    w = Watch(env, x)
    smv = env.mv(c, 't', c.algebra.subspace.scalar(), tuple(q))
    kinds = [('int', 3, 3), ('negative int', -2, -2), ('bool', True, 1), ('float', .5, F(1, 2)), ('np.float64', np.float64(-1.5), F(-3, 2)),
             ('np.int64', np.int64(4), 4), ('np.float32', np.float32(.25), F(1, 4)), ('0-d array', a0, a0.item()), ('scalar multivector', smv, R.d(smv)[0])]
    if arr is not None:
        kinds += [('array', arr, arr), ('list', arr.tolist(), arr)]
    one = lambda v: {0: v}
    for n, k, v in kinds:
        if not env.symbolic and isinstance(v, F):
            v = float(v)
        V = one(np.asarray(v, dtype=object) if not np.isscalar(v) or isinstance(v, Sym) else v)
        shp = np.broadcast_shapes(tuple(p), np.shape(v))
        U = [0] + [b for b in map(int, x.subspace.blades) if b]
        xs = [int(b) for b in x.subspace.blades]
        for label, r, want, sp in (('x + ', lambda: x + k, R.add(x, V), U), (' + x', lambda: k + x, R.add(V, x), U), ('x - ', lambda: x - k, R.add(x, V, -1), U),
                                   (' - x', lambda: k - x, R.add(V, x, -1), U), ('x * ', lambda: x * k, R.gp(x, V), xs), (' * x', lambda: k * x, R.gp(V, x), xs)):
            if n == 'list' and label.startswith(' '):
                continue        # a list on the left multiplies or concatenates in python itself
            r = r()
            env.true(type(r) is type(x), '%s%s: a multivector' % (label, n))
            env.true([int(b) for b in r.subspace.blades] == sp, '%s%s: subspace' % (label, n))
            env.true(r.shape == shp, '%s%s: batch shape' % (label, n))
            env.eq(r, want, label + n)
            w.check(label + n)
        r = x / k
        env.true(r.subspace is x.subspace and r.shape == shp, 'x / %s: type and shape' % n)
        env.eq(R.gp(r, V), R.gp(x, V) if False else R.d(x), 'x / %s' % n)
        w.check('x / ' + n)
    if X == 'g:0':
        for n, k, v in kinds:
            if n == 'list':
                continue
            if not env.symbolic and isinstance(v, F):
                v = float(v)
            r = k / x
            env.true(type(r) is type(x) and r.subspace.equals.scalar(), '%s / scalar: a scalar' % n)
            env.eq(R.gp(r, x), {0: np.asarray(v, dtype=object)}, n + ' / scalar')


def cfg_div(tier, seed):
    q = tier == 'quick'
    out = []
    for s in ['+', '-'] + all_sigs(2) + pick(all_sigs(3), 8 if q else 27, seed) + pick(canon_sigs(4), 4 if q else 15, seed):
        if '0' in s and set(s) == {'0'}:
            continue
        r = random_specs(len(s), 3, seed + 3, hi=5)
        out += [dict(sig=s, X=x, Y='g:1') for x in r[:2]]
        if len(s) <= 3:
            out += [dict(sig=s, X=r[-1], Y='g:0,%d' % len(s)), dict(sig=s, X=r[0], Y='b:%d' % ((1 << len(s)) - 1))]
    return out


@harness('C14', configs=cfg_div)
def quotient(env, sig, X, Y):
    """x / y y = x for invertible y; k / y y = k"""
    from checks.c11 import dispatches
    c = env.ctx(sig)
    R = Ref(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X), (2,)), env.mv(c, 'y', sub(c.algebra, Y))
    if not R.gp(y, R.reverse(y)) and not R.gp(y, y):
        return env.true(True)
    w = Watch(env, x, y)
    r = dispatches(lambda: x / y)
    if r is None:
        return env.true(True)
    env.eq(R.gp(r, y), x, '(x / y) y = x')
    env.true(r.shape == (2,), 'batch shape')
    env.eq(R.gp(2 / y, y), {0: 2}, '(2 / y) y = 2')
    env.eq(R.gp(np.array([1., 2.]) / y, y), {0: np.array([1, 2], dtype=object)}, '(array / y) y = array')
    w.check('quotient')


@harness('C14', configs=cfgs)
def updates(env, sig, X, Y, p, q):
    """at[].set, copy, indexing: result replaced where addressed, original and copies independent"""
    c = env.ctx(sig)
    S = sub(c.algebra, X)
    x, y = env.mv(c, 'x', S, (2, 3)), env.mv(c, 'y', S, (2, 3))
    w = Watch(env, x, y)
    v, u = x.values, y.values

    def rep(idx, val):
        t = np.array(v, copy=True)
        t[idx] = val
        return t
    cases = [(0, y[1], u[1]), ((1, 2), y[0, 1], u[0, 1]), (slice(None), y, u), ((slice(None), -1), y[:, 0], u[:, 0]), ((0, slice(1, None)), y[1, :2], u[1, :2]),
             (np.array([1, 0]), y, u), (Ellipsis, y[0, 0], u[0, 0])]
    if len(S):
        cases += [((Ellipsis, 0), u[..., 0], u[..., 0]), ((0, 1, len(S) - 1), u[1, 1, 0], u[1, 1, 0])]
    for idx, val, raw in cases:
        r = x.at[idx].set(val)
        label = 'at[%s].set' % (idx,)
        env.true(r.subspace is S and r.values.shape == v.shape and type(r) is type(x), label + ': type and shape')
        env.eq(r.values, rep(idx, raw), label)
        w.check(label)
        fresh(env, r, label, x, y)
    r = x.at[0].set(y[1]).at[1].set(x[0]).at[1, 1].set(y[1, 1])
    env.eq(r.values, np.stack([u[1], np.stack([v[0, 0], u[1, 1], v[0, 2]])]), 'a sequence of updates')
    w.check('a sequence of updates')
    helper = x.at[0]
    r1, r2 = helper.set(y[0]), helper.set(y[1])
    env.eq(r1.values, rep(0, u[0]), 'a setter used twice, first')
    env.eq(r2.values, rep(0, u[1]), 'a setter used twice, second')
    k = x.copy()
    env.eq(k.values, v, 'copy')
    env.true(k.subspace is S and k.context is x.context and k.values.shape == v.shape, 'copy: type')
    fresh(env, k, 'copy', x)
    if v.size:
        k.values[...] = 0
    w.check('writing into a copy')
    env.eq(x.copy(values=u).values, u, 'copy(values)')
    env.eq(x[1].values, v[1], 'x[1]')
    env.eq(x[:, 1].values, v[:, 1], 'x[:, 1]')
    env.true(x.shape == (2, 3) and len(x) == 2 and x[0].shape == (3,), 'shapes')
    w.check('indexing')


NOT_PURE = set()


@harness('C14', configs=lambda t, s: [dict(sig=x, X=X, Y=Y) for x in ['+-0', '++', '+++0', '-++-'][:3 if t == 'quick' else 4] for X, Y in (('even', 'g:1'), ('full', 'g:0,2'), ('g:1', 'even')) if not (len(x) > 3 and X == 'full')])
def purity(env, sig, X, Y):
    """no method changes its operands or hands out their storage; cached blades are the same on each request"""
    c = env.ctx(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X), (2,)), env.mv(c, 'y', sub(c.algebra, Y), (2,))
    w = Watch(env, x, y)
    un = ['dual', 'dual_inverse', 'reverse', 'involute', 'conjugate', 'study_conjugate', 'scalar_negation', 'pseudoscalar_negation', 'squared',
          'symmetric_reverse_product', 'symmetric_involute_product', 'symmetric_conjugate_product', 'symmetric_scalar_negation_product',
          'symmetric_pseudoscalar_negation_product', 'degenerate', 'nondegenerate', '__neg__', '__invert__', 'norm_squared', 'sqrt', 'cos', 'sin']
    bi = ['product', 'anti_product', 'wedge', 'anti_wedge', 'regressive', 'inner', 'anti_inner', 'scalar_product', 'bivector_product', 'commutator',
          'anti_commutator', 'left_contract', 'right_contract', 'reverse_product', 'involute_product', 'conjugate_product', 'sandwich', 'full_sandwich',
          'reverse_sandwich', '__mul__', '__add__', '__sub__', '__xor__', '__and__', '__or__', '__rshift__', '__lshift__']
    for n in un:
        if len(sig) > 3 and n in ('squared',) and X == 'full':
            continue
        try:
            r = getattr(x, n)()
        except (ZeroDivisionError, NotImplementedError):
            continue
        except Exception as e:
            if 'No matching' in str(e):
                continue
            raise
        w.check(n)
        fresh(env, r, n, x)
    with env.floats(c):
        r = x.nan_to_num(0)
        w.check('nan_to_num')
        fresh(env, r, 'nan_to_num', x)
        z = x / (y.select[0] * 0) if 0 in [int(b) for b in y.subspace.blades] else x.copy(values=x.values / (x.values * 0))
        v = Watch(env, z)
        z.nan_to_num(0)
        if env.symbolic:
            v.check('nan_to_num of something that is not finite')
    for n in bi:
        r = getattr(x, n)(y)
        w.check(n)
        fresh(env, r, n, x, y)
    for i in range(len(sig) + 1):
        fresh(env, x.select[i], 'select', x)
        fresh(env, x.restrict[i], 'restrict', x)
    w.check('selections')
    op = c.operator.product(x.subspace, y.subspace)
    kern = np.array(op.kernel, copy=True)
    part = op.partial({0: x})
    pk = np.array(part.kernel, copy=True)
    part(y), op(x, y), part.sum(0), op.partial({1: y})(x)
    w.check('operators')
    env.true(np.array_equal(np.asarray(op.kernel), kern), 'kernel untouched')
    env.true(all(a is b or a == b for a, b in zip(np.asarray(part.kernel).ravel().tolist(), pk.ravel().tolist())) if not env.symbolic else
             all(a is b or not isinstance(a, Sym) for a, b in zip(np.asarray(part.kernel).ravel().tolist(), pk.ravel().tolist())), 'partial kernel untouched')
    names = c.algebra.description.basis_names
    for nm in names:
        b = getattr(c.multivector, nm)
        vals = np.array(b.values, copy=True)
        b + 1, b * b, -b, b.at[..., 0].set(5), b.copy(), 2 * b, b / 2, b ^ x, x ^ b, b.combine(b, -1)
        env.true(np.array_equal(np.asarray(getattr(c.multivector, nm).values, dtype=float), np.asarray(vals, dtype=float)), 'cached blade untouched')
    z = c.multivector.scalar()
    z + x, z * 2
    env.eq(c.multivector.scalar(), {0: 1}, 'unit scalar again')


@harness('C14', configs=lambda t, s: [dict(sig=x) for x in ['+', '-0', '++', '+-0', '0++', '+++-', '0+++'] + ([] if t == 'quick' else all_sigs(3) + canon_sigs(4))])
def constructors(env, sig):
    """named constructors put the given coefficients on the named grades; the default is the unit of the algebra"""
    c = env.ctx(sig)
    n = len(sig)
    f = c.multivector
    gr = dict(scalar=0, vector=1, pseudoscalar=n, antivector=n - 1)
    if n >= 2:
        gr.update(bivector=2, antibivector=n - 2)
    if n >= 3:
        gr.update(trivector=3, antitrivector=n - 3)
    for name, g in gr.items():
        bl = [b for b in range(1 << n) if grade(b) == g]
        vals = env.array(name, (2, len(bl)))
        m = getattr(f, name)(vals)
        env.true([int(b) for b in m.subspace.blades] == bl, name + ': blades')
        env.eq(m, {b: vals[:, i] for i, b in enumerate(bl)}, name)
        env.eq(getattr(f, name)(), {0: 1} if g == 0 else {}, name + ' default')
        env.true(getattr(f, name)().values.shape == (len(bl),), name + ' default shape')
        m = f.k_vector(g, vals)
        env.eq(m, {b: vals[:, i] for i, b in enumerate(bl)}, 'k_vector')
    even = sorted((b for b in range(1 << n) if grade(b) % 2 == 0), key=lambda b: (grade(b), b))
    full = sorted(range(1 << n), key=lambda b: (grade(b), b))
    for name, bl in (('even_grade', even), ('rotor', even), ('motor', even), ('multivector', full)):
        vals = env.array(name, (len(bl),))
        env.eq(getattr(f, name)(vals), {b: vals[i] for i, b in enumerate(bl)}, name)
        env.eq(getattr(f, name)(), {0: 1}, name + ' default')
        env.true(len(getattr(f, name)().subspace) == len(bl), name + ': all blades')
    for b in full:
        m = f.blade(b)
        env.true([int(k) for k in m.subspace.blades] == [b], 'blade')
        env.eq(m, {b: 1}, 'blade')
        s = env.scalar('s')
        env.eq(f.blade(b, s), {b: s}, 'blade with sign')
        env.eq(f(values=[s], subspace=m.subspace), {b: s}, 'call')
        env.eq(f(m.subspace, [s]), {b: s}, 'call, positional')
    bs = f.basis()
    env.true(len(bs) == n, 'basis')
    for i, b in enumerate(bs):
        env.eq(b, {1 << i: 1}, 'basis')
    env.true(len(f.empty().subspace) == 0 and f.empty().values.shape == (0,), 'empty')
    env.eq(f.empty() + bs[0], {1: 1}, 'empty is zero')
    env.eq(f.empty() * bs[0], {}, 'empty is zero')


def cfg_back(tier, seed):
    out = []
    S = ['++0', '-+'] if tier == 'quick' else ['++0', '-+', '+++-', '0-', '+']
    for s in S:
        r = random_specs(len(s), 4, seed + 5, hi=4)
        for b in ['np_einsum', 'np_sparse', 'jax_einsum', 'jax_sparse', 'torch_einsum', 'torch_dense']:
            out += [dict(sig=s, X=r[0], Y=r[1], backend=b), dict(sig=s, X=r[2 % len(r)], Y='g:0', backend=b)]
    return out


@harness('C14', configs=cfg_back, timeout=150)
def backends(env, sig, X, Y, backend):
    """the same arithmetic on every backend with arrays"""
    R = Ref(sig)
    c0 = env.ctx(sig)
    x, y = env.mv(c0, 'x', sub(c0.algebra, X), (2,)), env.mv(c0, 'y', sub(c0.algebra, Y), (2,))
    s = env.mv(c0, 's', c0.algebra.subspace.scalar(), (2,))

    def fn(c, x, y, s):
        a = s.values[..., 0]
        return [('x+y', x + y), ('x-y', x - y), ('y-x', y - x), ('x+1', x + 1), ('1+x', 1 + x), ('x-1', x - 1), ('1-x', 1 - x), ('2x', 2 * x), ('x2', x * 2),
                ('x/2', x / 2), ('2/s', 2 / s), ('x/s', x / s), ('x*s', x * s), ('s*x', s * x), ('x+a', x + a), ('x-a', x - a), ('x*a', x * a), ('x/a', x / a),
                ('a+x', a + x), ('a-x', a - x), ('a*x', a * x), ('a/s', a / s), ('-x', -x), ('copy', x.copy()), ('set', x.at[0].set(x[1])),
                ('np2*x', np.float64(2) * x), ('nparr*x', np.array([1., 2.]) * x), ('x*nparr', x * np.array([1., 2.])),
                ('sqrt', s.sqrt()), ('invsqrt', s.invsqrt()), ('abs', x.abs()), ('cos', x.cos()), ('sin', x.sin()), ('unit', c.multivector.scalar()), ('x', x)]

    xd, sv = R.d(x), R.d(s)[0]
    one = {0: 1}
    arr = np.array([1, 2], dtype=object)
    each = lambda f, d: {b: np.array([f(e) for e in v], dtype=object) for b, v in d.items()}
    if env.symbolic:
        fs = {n: (lambda n: lambda e: getattr(e, n)())(n) for n in ('sqrt', 'cos', 'sin')}
        ab = abs
        inv = lambda e: e.inv()
    else:
        fs = dict(sqrt=np.sqrt, cos=np.cos, sin=np.sin)
        ab, inv = abs, lambda e: 1 / e
    want = {'x+y': R.add(x, y), 'x-y': R.add(x, y, -1), 'y-x': R.add(y, x, -1), 'x+1': R.add(x, one), '1+x': R.add(x, one), 'x-1': R.add(x, one, -1),
            '1-x': R.add(one, x, -1), '2x': R.scale(x, 2), 'x2': R.scale(x, 2), 'x*s': R.gp(x, s), 's*x': R.gp(x, s), 'x+a': R.add(x, s), 'x-a': R.add(x, s, -1),
            'x*a': R.gp(x, s), 'a+x': R.add(x, s), 'a-x': R.add(s, x, -1), 'a*x': R.gp(x, s), '-x': R.scale(x, -1), 'copy': xd,
            'set': {b: v[[1, 1]] for b, v in xd.items()}, 'np2*x': R.scale(x, 2), 'nparr*x': R.gp(x, {0: arr}), 'x*nparr': R.gp(x, {0: arr}),
            'sqrt': each(fs['sqrt'], R.d(s)), 'abs': each(ab, xd), 'cos': each(fs['cos'], xd), 'sin': each(fs['sin'], xd), 'unit': one, 'x': xd,
            'a/s': {0: np.array([1, 1], dtype=object)}, 'x/2': {b: np.array([e / 2 for e in v], dtype=object) for b, v in xd.items()}}
    for label, m in execute(env, backend, sig, fn, [x, y, s]):
        name = '%s %s' % (backend, label)
        if label in want:
            env.eq(m, want[label], name)
        elif label == '2/s':
            env.eq(R.gp(m, s), {0: 2}, name)
        elif label == 'invsqrt':
            env.eq(R.gp(R.gp(m, m), s), {0: 1}, name)
        else:
            env.eq(R.gp(m, s), xd, name)
        if label[-1] in 'xysa' and len(label) == 3 and label[1] in '+-':
            env.true([int(b) for b in m.subspace.blades] == union(x, {'y': y, 'x': y}.get(label[2] if label[0] == 'x' else label[0], s) if 'a' not in label else s),
                     name + ': subspace')
