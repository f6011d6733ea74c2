"""Backends and execution strategies compute the same function; batch axes."""
import builtins
import numpy as np
from vlib.engine import harness
from vlib.ga import *
from vlib.env import algebra

META = dict(
    bounds='coefficients: arbitrary reals; signatures of dimension 1-4, sampled subspaces; batch shapes (), (2,), (2,1)x(3,), (2,2), and element by element up to rank 4; '
           'numpy einsum/sparse, python sparse/generated code, jax einsum/dense/sparse, torch einsum/sparse/dense; '
           'jax and torch programs as traced by the framework for those shapes',
    outside='float rounding, compilation by XLA, devices, dimensions above 4, batch ranks above 4',
    assumptions=['real arithmetic in place of float32/64', 'the traced jaxpr / aten graph is the program that is executed',
                 'python float() coercion is the identity on reals'])

BACKENDS = ['np_einsum', 'np_sparse', 'py_sparse', 'py_codegen', 'jax_einsum', 'jax_dense', 'jax_sparse', 'torch_einsum', 'torch_sparse', 'torch_dense']


def result(lst):
    """[(label, mv or array)] -> labels, subspaces, flat arrays"""
    return [l for l, _ in lst], [getattr(m, 'subspace', None) for _, m in lst], [m.values if hasattr(m, 'subspace') else m for _, m in lst]


def execute(env, backend, sig, fn, xs, double=False):
    """run fn(context, *multivectors) -> [(label, multivector|array)] on a backend; double: a replay uses 64 bit floats everywhere"""
    if double and not env.symbolic and backend.startswith('jax'):
        import jax
        with jax.experimental.enable_x64():
            return _execute(env, backend, sig, fn, xs, True)
    return _execute(env, backend, sig, fn, xs)


def _execute(env, backend, sig, fn, xs, double=False):
    alg = algebra(sig)
    kind, strat = backend.split('_')
    if kind == 'np':
        from numga.backend.numpy.context import NumpyContext
        from numga.backend.numpy import operator as o
        c = NumpyContext(alg, dtype=object if env.symbolic else np.float64,
                         otype=dict(einsum=o.NumpyEinsumOperator, sparse=o.NumpySparseOperator)[strat])
        return fn(c, *[c.multivector(values=x.values, subspace=x.subspace) for x in xs])
    if kind == 'py':
        from numga.backend.python.context import PythonContext
        from numga.backend.python import operator as o, multivector as pm
        c = PythonContext(alg, otype=dict(sparse=o.PythonSparseOperator, codegen=o.PythonCodegenOperator)[strat])
        with env.patched(pm, 'float', lambda v: v if hasattr(v, 't') else builtins.float(v)):
            return [(l, wrap(m)) for l, m in fn(c, *[c.multivector(values=list(x.values), subspace=x.subspace) for x in xs])]
    meta = {}
    if kind == 'jax':
        from numga.backend.jax.context import JaxContext
        from numga.backend.jax import operator as o
        import jax.numpy as jnp
        c = JaxContext(alg, otype=dict(einsum=o.JaxEinsumOperator, sparse=o.JaxSparseOperator, dense=o.JaxDenseOperator)[strat],
                       dtype=jnp.float64 if double else jnp.float32)
        conv = jnp.asarray
    else:
        import torch
        from numga.backend.torch.context import TorchContext
        from numga.backend.torch import operator as o
        c = TorchContext(alg, dtype=torch.float64, otype=dict(einsum=o.TorchEinsumOperator, sparse=o.TorchSparseOperator, dense=o.TorchDenseOperator)[strat])
        conv = torch.as_tensor

    def body(*vals):
        labels, spaces, arrays = result(fn(c, *[c.multivector(values=v, subspace=x.subspace) for v, x in zip(vals, xs)]))
        meta.update(labels=labels, spaces=spaces)
        return tuple(arrays)

    if env.symbolic:
        from vlib import backends
        arrays = (backends.run_jax if kind == 'jax' else backends.run_torch)(body, [x.values for x in xs])
    else:
        env.tol = 1e-3 if kind == 'jax' and not double else env.tol
        arrays = [np.asarray(a, dtype=float) for a in body(*[conv(np.array(x.values, dtype=float)) for x in xs])]
    return [(l, Out(s, np.asarray(a)) if s is not None else np.asarray(a)) for l, s, a in zip(meta['labels'], meta['spaces'], arrays)]


class Out:
    def __init__(self, subspace, values):
        self.subspace, self.values = subspace, values


def wrap(m):
    a = np.empty(len(m.values), dtype=object)
    a[:] = m.values
    return Out(m.subspace, a)


def call(c, name, *mvs):
    """operator call; generated code is executed"""
    op = getattr(c.operator, name)(*[m.subspace for m in mvs])
    if name in ('sandwich', 'full_sandwich', 'reverse_sandwich'):
        mvs = (mvs[0], mvs[1], mvs[0])
    if name in ('squared', 'symmetric_reverse_product'):
        mvs = (mvs[0], mvs[0])
    if name in ('inverse_factor',):
        mvs = (mvs[0],) * 3
    return run(c, op, mvs)


def run(c, op, mvs):
    r = op(*mvs)
    if isinstance(r, str):
        o = [0] * len(op.output)
        ns = {'o': o}
        if len(r.strip().splitlines()) > 1:
            exec(r, ns)
            ns['foo'](*[m.values for m in mvs])
        r = c.multivector(values=o, subspace=op.output)
    return r


def cfg_ops(tier, seed):
    out = []
    q = tier == 'quick'
    S = ['+', '-0', '++0', '+-0', '+++-', '0++-']
    if not q:
        S += all_sigs(1) + pick(all_sigs(2), 6, seed) + pick(all_sigs(3), 14, seed) + canon_sigs(4)
    for s in dict.fromkeys(S):
        r = random_specs(len(s), 8, seed + 41, hi=6)
        for b in BACKENDS:
            cases = [(r[0], r[1 % len(r)]), (r[2 % len(r)], r[3 % len(r)])]
            if len(s) >= 3:
                cases += [('even', 'g:1'), ('g:0,2', r[4])] if not q or len(s) == 3 else [('even', 'g:1')]
            out += [dict(sig=s, X=x, Y=y, backend=b) for x, y in cases]
    return out


@harness('C08', configs=cfg_ops, timeout=150)
def operators(env, sig, X, Y, backend):
    """every named operator, unbatched, on every backend"""
    R = Ref(sig)
    c0 = env.ctx(sig)
    x, y = env.mv(c0, 'x', sub(c0.algebra, X)), env.mv(c0, 'y', sub(c0.algebra, Y))

    def fn(c, x, y):
        out = [(n, call(c, n, x, y)) for n in ('geometric_product', 'wedge_product', 'inner_product', 'regressive_product', 'scalar_product',
                                               'full_sandwich', 'sandwich', 'commutator_product')]
        out += [(n, call(c, n, x)) for n in ('reverse', 'right_hodge', 'right_hodge_inverse', 'conjugate', 'squared', 'symmetric_reverse_product')]
        of = c.algebra.operator
        g, w = of.geometric_product(x.subspace, y.subspace), of.wedge_product(x.subspace, y.subspace)
        for n, o in (('product / 4', g.div(4)), ('product * 1.5', g * 1.5), ('product * 300', g * 300), ('wedge / 4', w.div(4)), ('product / 4096', g.div(4096))):
            if len(o.output):
                out.append((n, run(c, c.operator(o), [x, y])))
        if not backend.startswith('py_codegen'):
            out += [('select', x.select_subspace(y.subspace)), ('restrict', x.restrict_subspace(y.subspace)), ('select0', y.select[0])]
        return out

    un = lambda v: R.unmap(v, R.rhodge)
    full = R.gp(R.gp(x, y), R.reverse(x))
    gs = {grade(int(b)) for b in y.subspace.blades}
    ys = {int(b) for b in y.subspace.blades}
    from checks.c03 import half
    want = dict(geometric_product=R.gp(x, y), wedge_product=R.wedge(x, y), inner_product=R.inner(x, y), scalar_product=R.sp(x, y),
                regressive_product=un(R.wedge(R.rhodge(x), R.rhodge(y))), full_sandwich=full, sandwich=R.select(full, lambda b: grade(b) in gs),
                commutator_product=half(R, R.gp(x, y), R.gp(y, x), -1), reverse=R.reverse(x), right_hodge=R.rhodge(x), right_hodge_inverse=un(x),
                conjugate=R.conjugate(x), squared=R.gp(x, x), symmetric_reverse_product=R.gp(x, R.reverse(x)),
                select=R.select(x, lambda b: b in ys), restrict=R.select(x, lambda b: b in ys), select0=R.select(y, lambda b: b == 0))
    for n, o, k in (('product / 4', R.gp, Fraction(1, 4)), ('product * 1.5', R.gp, Fraction(3, 2)), ('product * 300', R.gp, 300), ('wedge / 4', R.wedge, Fraction(1, 4)),
                    ('product / 4096', R.gp, Fraction(1, 4096))):
        want[n] = R.scale(o(x, y), k if env.symbolic else float(k))
    for label, m in execute(env, backend, sig, fn, [x, y]):
        env.eq(m, want[label], '%s %s' % (backend, label))
        if label.startswith('select'):
            env.true(len(m.values) == (len(y.subspace) if label == 'select' else 1), 'select length')


def cfg_batch(tier, seed):
    out = []
    S = ['++0', '-+', '+++-'] if tier == 'quick' else ['++0', '-+', '+0', '-', '+-0', '+++', '+++-', '0++-', '++++']
    shapes = [((2,), (2,)), ((2, 1), (3,)), ((), (2,)), ((2,), ()), ((1, 2), (2, 1)), ((3, 1, 2), (2,)), ((2,), (1, 2, 1)), ((2, 1, 1, 1), (2, 1)),
              ((1,), (1, 1)), ((), (2, 1, 2))]
    for s in S:
        r = random_specs(len(s), 4, seed + 43, hi=4)
        for b in BACKENDS:
            if b.startswith('py'):
                continue
            for i, (p, q) in enumerate(shapes):
                out.append(dict(sig=s, X=r[i % len(r)], Y=r[(i + 1) % len(r)], backend=b, p=list(p), q=list(q)))
    return out


@harness('C08', configs=cfg_batch, timeout=150)
def broadcasting(env, sig, X, Y, backend, p, q):
    """leading batch axes broadcast: each element is the result for that element alone"""
    R = Ref(sig)
    c0 = env.ctx(sig)
    x, y = env.mv(c0, 'x', sub(c0.algebra, X), tuple(p)), env.mv(c0, 'y', sub(c0.algebra, Y), tuple(q))

    def fn(c, x, y):
        op = c.operator.geometric_product(x.subspace, y.subspace)
        out = [('gp', op(x, y)), ('sandwich', c.operator.full_sandwich(x.subspace, y.subspace)(x, y, x)), ('reverse', x.reverse()),
               ('partial0', op.partial({0: x})(y)), ('partial1', op.partial({1: y})(x)),
               ('partial2', c.operator.full_sandwich(x.subspace, y.subspace).partial({0: x, 2: x})(y)),
               ('partial_', c.operator.full_sandwich(x.subspace, y.subspace).partial({2: x})(x, y)),
               ('partial10', c.operator.full_sandwich(x.subspace, y.subspace).partial({1: y, 0: x})(x)),
               ('sum', x + y), ('diff', x - y), ('scaled', x * 2), ('neg', -x)]
        return out

    xs = {i: {b: v for b, v in R.d(x).items()} for i in (0,)}[0]
    ys = R.d(y)
    full = R.gp(R.gp(xs, ys), R.reverse(xs))
    shape = np.broadcast_shapes(tuple(p), tuple(q))
    want = dict(gp=R.gp(xs, ys), sandwich=full, reverse=R.reverse(xs), partial0=R.gp(xs, ys), partial1=R.gp(xs, ys), partial2=full, partial_=full,
                partial10=full, sum=R.add(xs, ys), diff=R.add(xs, ys, -1), scaled=R.scale(xs, 2), neg=R.scale(xs, -1))
    for label, m in execute(env, backend, sig, fn, [x, y]):
        env.eq(m, want[label], '%s %s' % (backend, label))
        env.true(m.values.shape[:-1] == (tuple(p) if label in ('reverse', 'scaled', 'neg') else shape), '%s %s: batch shape' % (backend, label))


def cfg_nary(tier, seed):
    q = tier == 'quick'
    out = []
    for i, s in enumerate(['++0', '-+', '+++-'] if q else ['++0', '-+', '+0', '+-0', '+++', '+++-', '0++-']):
        r = random_specs(len(s), 6, seed + 53 + i, hi=3)
        for b in BACKENDS:
            shapes = [((), (), (), ())]
            if not b.startswith('py'):
                one = [tuple((2,) if k == j else () for k in range(4)) for j in range(4)]
                mixed = [((2, 1), (), (3,), (1,)), ((), (2,), (), (3, 1)), ((1, 2), (2,), (), (2, 1)), ((2, 1, 1), (2,), (), (1, 2)), ((), (1, 1), (2, 1, 2), (2,))]
                shapes += pick(one, 2 if q else 4, seed + i) + one[3:] + one[2:3] + pick(mixed, 2 if q else 5, seed + i)
            for p in dict.fromkeys(shapes):
                out.append(dict(sig=s, S=[r[(i + j) % len(r)] for j in range(4)], backend=b, shapes=[list(x) for x in p]))
    return out


@harness('C08', configs=cfg_nary, timeout=150)
def nary(env, sig, S, backend, shapes):
    """operators of three and four arguments, each batched on its own"""
    R = Ref(sig)
    c0 = env.ctx(sig)
    of = c0.algebra.operator
    xs = [env.mv(c0, 'x%d' % i, sub(c0.algebra, s), tuple(p)) for i, (s, p) in enumerate(zip(S, shapes))]
    ss = [x.subspace for x in xs]
    p3 = of.geometric_product(of.geometric_product(ss[0], ss[1]), ss[2])
    p3b = of.geometric_product(ss[2], of.wedge_product(ss[0], ss[3]))
    p4 = of.geometric_product(of.geometric_product(ss[0], ss[1]), of.geometric_product(ss[2], ss[3]))
    used = dict(p3=(0, 1, 2), p3b=(2, 0, 3), p4=(0, 1, 2, 3))
    if max(len(o.axes[-1]) for o in (p3, p3b, p4)) == 0:
        return env.true(True)

    def fn(c, *xs):
        out = []
        for name, o in (('p3', p3), ('p3b', p3b), ('p4', p4)):
            op = c.operator(o)
            args = [xs[i] for i in used[name]]
            out.append((name, run(c, op, args)))
            if kind != 'py':
                k = len(args)
                for b in ([0], [k - 1], list(range(1, k)), [k - 1, 0]):
                    out.append(('%s partial %s' % (name, b), op.partial({i: args[i] for i in b})(*[a for i, a in enumerate(args) if i not in b])))
        return out
    kind = backend.split('_')[0]
    x = [R.d(x) for x in xs]
    want = dict(p3=R.gp(R.gp(x[0], x[1]), x[2]), p3b=R.gp(x[2], R.wedge(x[0], x[3])), p4=R.gp(R.gp(x[0], x[1]), R.gp(x[2], x[3])))
    for label, m in execute(env, backend, sig, fn, xs):
        name = label.split()[0]
        if len(m.values) or kind != 'py':
            env.eq(m, want[name], '%s %s' % (backend, label))
        if kind != 'py':
            env.true(m.values.shape[:-1] == np.broadcast_shapes(*[tuple(shapes[i]) for i in used[name]]), '%s %s: batch shape' % (backend, label))


def cfg_axes(tier, seed):
    out = []
    for s in ['++0', '-+'] if tier == 'quick' else ['++0', '-+', '+++-', '0-']:
        for b in BACKENDS:
            if not b.startswith('py'):
                r = random_specs(len(s), 2, seed + 47, hi=4)
                out += [dict(sig=s, X=x, backend=b) for x in r]
    return out


@harness('C08', configs=cfg_axes, timeout=150)
def batch_axes(env, sig, X, backend):
    """indexing, concatenation, reductions and functional updates on batch axes"""
    c0 = env.ctx(sig)
    x, y = env.mv(c0, 'x', sub(c0.algebra, X), (2, 3)), env.mv(c0, 'y', sub(c0.algebra, X), (2, 3))
    v, w = x.values, y.values
    torch_ = backend.startswith('torch')

    def fn(c, x, y):
        idx = np.array([[0, 2, 2], [1, 0, 1]])
        if torch_:
            import torch
            tidx = torch.as_tensor(idx)
        else:
            tidx = idx
        out = [('x[0]', x[0]), ('x[1,2]', x[1, 2]), ('x[:,1]', x[:, 1]), ('x[...,None,:]', x[:, None]), ('x[array]', x[np.array([1, 0, 1])]),
               ('x[-1]', x[-1]), ('x[:, ::2]', x[:, ::2]), ('x[-1:]', x[-1:]), ('sum(0)', x.sum(0)), ('sum(1)', x.sum(1)), ('sum(-2)', x.sum(-2)),
               ('mean(0)', x.mean(0)), ('mean(1)', x.mean(1)),
               ('concat0', x.concatenate(y, 0)), ('concat1', x.concatenate(y, 1)), ('concat-2', x.concatenate(y, -2)),
               ('set1', x.at[0].set(y[1])), ('set2', x.at[1, 2].set(y[0, 0])), ('set3', x.at[:, 1].set(y[:, 2])),
               ('set array', x.at[np.array([1, 0])].set(y)), ('set raw', x.at[0].set(y.values[0])),
               ('take', x.take_along_axis(tidx, 1)), ('take -2', x.take_along_axis(tidx, -2)), ('take 0', x.take_along_axis(tidx * 0 + 1, 0)), ('rearrange', x.rearrange('a b c -> b a c')), ('repeat', x.repeat('a b c -> a (b k) c', k=2)),
               ('x[mask]', x[np.array([False, True])]), ('x[1:0]', x[1:0]), ('x[None]', x[None]), ('x[a, b]', x[np.array([0, 1]), np.array([2, 0])]),
               ('set slice', x.at[:, ::2].set(y[:, 1:])), ('set mask', x.at[np.array([True, False])].set(y[1:])), ('set raw all', x.at[...].set(y.values)),
               ('unchanged', x)]
        if not backend.startswith('jax'):       # jax refuses lists of indices
            out += [('x[[..]]', x[[1, 1]])]
        if backend.startswith('np'):
            out += [('reshape', x.reshape((3, 1, 2))), ('flatten', x.flatten()), ('reshape -1', x.reshape((-1, 3))), ('mean -2', x.mean(-2))]
        op = c.operator.reverse_product(x.subspace, x.subspace).partial({1: y})
        out += [('op[1]', op[1](x[0])), ('op[:,1]', op[:, 1](x[:, 0])), ('op sum', op.sum(0)(x[1])), ('op sum 1', op.sum(1)(x[:, 0])),
                ('op concat', op.concatenate(op, 0)(x.concatenate(x, 0))), ('op', op(x)),
                ('op set', op.at[0].set(op.kernel[1])(x)), ('op[array]', op[np.array([1, 1])](x)), ('op[-1]', op[-1](x[0])), ('op[0:1]', op[0:1](x)),
                ('op[0,2]', op[0, 2](x)), ('op[:,array]', op[:, np.array([2, 0, 0])](x)), ('op set tuple', op.at[1, 0].set(op.kernel[0, 2])(x)), ('op unchanged', op(x))]
        return out

    idx = np.array([[0, 2, 2], [1, 0, 1]])
    gp = lambda a, b: None
    R = Ref(sig)
    bl = [int(b) for b in x.subspace.blades]
    D = lambda a: {b: a[..., i] for i, b in enumerate(bl)}
    prod = lambda a, b: R.gp(D(a), R.reverse(D(b)))

    def setv(f):
        u = v.copy()
        f(u)
        return u

    def s1(u): u[0] = w[1]
    def s2(u): u[1, 2] = w[0, 0]
    def s3(u): u[:, 1] = w[:, 2]
    def s4(u): u[[1, 0]] = w
    def s5(u): u[0] = w[0]
    def s6(u): u[:, ::2] = w[:, 1:]
    def s7(u): u[0] = w[1]
    w1 = w.copy()
    w1[1, 0] = w[0, 2]
    want = {'x[0]': v[0], 'x[1,2]': v[1, 2], 'x[:,1]': v[:, 1], 'x[...,None,:]': v[:, None], 'x[array]': v[[1, 0, 1]], 'x[-1]': v[-1],
            'x[:, ::2]': v[:, ::2], 'x[-1:]': v[-1:], 'sum(0)': v[0] + v[1], 'sum(1)': v[:, 0] + v[:, 1] + v[:, 2], 'sum(-2)': v[:, 0] + v[:, 1] + v[:, 2],
            'mean(0)': (v[0] + v[1]) / 2, 'mean(1)': (v[:, 0] + v[:, 1] + v[:, 2]) / 3, 'concat0': np.concatenate([v, w], 0), 'concat1': np.concatenate([v, w], 1),
            'concat-2': np.concatenate([v, w], -2), 'set1': setv(s1), 'set2': setv(s2), 'set3': setv(s3), 'set array': setv(s4), 'set raw': setv(s5),
            'take': np.stack([[v[i, idx[i, j]] for j in range(3)] for i in range(2)]), 'rearrange': np.swapaxes(v, 0, 1),
            'take -2': np.stack([[v[i, idx[i, j]] for j in range(3)] for i in range(2)]), 'take 0': np.stack([v[1], v[1]]),
            'repeat': np.repeat(v, 2, axis=1), 'unchanged': v, 'x[[..]]': v[[1, 1]], 'x[mask]': v[1:], 'x[1:0]': v[1:0], 'x[None]': v[None],
            'x[a, b]': np.stack([v[0, 2], v[1, 0]]), 'set slice': setv(s6), 'set mask': setv(s7), 'set raw all': w,
            'reshape': np.array([v[i // 3, i % 3] for i in range(6)], dtype=v.dtype).reshape(3, 1, 2, -1), 'flatten': np.array([v[i // 3, i % 3] for i in range(6)], dtype=v.dtype),
            'reshape -1': v, 'mean -2': (v[:, 0] + v[:, 1] + v[:, 2]) / 3}
    wantd = {'op[1]': prod(v[0], w[1]), 'op[:,1]': prod(v[:, 0], w[:, 1]), 'op sum': R.add(prod(v[1], w[0]), prod(v[1], w[1])),
             'op sum 1': R.add(R.add(prod(v[:, 0], w[:, 0]), prod(v[:, 0], w[:, 1])), prod(v[:, 0], w[:, 2])),
             'op concat': prod(np.concatenate([v, v]), np.concatenate([w, w])), 'op': prod(v, w), 'op set': prod(v, np.stack([w[1], w[1]])),
             'op[array]': prod(v, w[[1, 1]]), 'op[-1]': prod(v[0], w[-1]), 'op[0:1]': prod(v, w[0:1]), 'op[0,2]': prod(v, w[0, 2]), 'op[:,array]': prod(v, w[:, [2, 0, 0]]),
             'op set tuple': prod(v, w1), 'op unchanged': prod(v, w)}
    before = v.copy()
    for label, m in execute(env, backend, sig, fn, [x, y]):
        if label in want:
            env.true(m.values.shape == want[label].shape, '%s %s: shape %s' % (backend, label, m.values.shape))
            env.eq(m.values, want[label], '%s %s' % (backend, label))
        else:
            env.eq(m, wantd[label], '%s %s' % (backend, label))
    env.eq(x.values, before, 'argument untouched')


METHODS = dict(
    inverse=lambda c, x: x.inverse(), quotient=lambda c, x: [x / 2, 3 / x, x / (x * x).select[0]], norm=lambda c, x: [x.norm_squared(), x.norm()],
    normalized=lambda c, x: x.normalized(), square_root=lambda c, x: x.square_root(), inverse_square_root=lambda c, x: x.inverse_square_root(),
    study=lambda c, x: [x.study_norm_squared(), x.study_norm(), x.study_conjugate()], scalar_parts=lambda c, x: [x.select[0].sqrt(), x.select[0].invsqrt(), x.abs(), x.cos(), x.sin()],
    motor_square_root=lambda c, x: x.motor_square_root(), mean=lambda c, x: x.motor_geometric_mean(x * 2 + 1), exp_linear=lambda c, x: x.exp_linear(),
    exp_linear_normalized=lambda c, x: x.exp_linear_normalized(), exp_quadratic=lambda c, x: x.exp_quadratic(), exp=lambda c, x: x.exp(), log=lambda c, x: x.log(),
    log_linear=lambda c, x: x.motor_log_linear(), log_linear_normalized=lambda c, x: x.motor_log_linear_normalized(), log_quadratic=lambda c, x: x.motor_log_quadratic(),
    motor_log=lambda c, x: x.motor_log(), invariant=lambda c, x: x.decompose_invariant(), polar=lambda c, x: x.decompose_polar(), translator=lambda c, x: x.motor_translator(),
    rotor=lambda c, x: x.motor_rotor(),
    shirokov=lambda c, x: x.inverse_shirokov(), hitzer=lambda c, x: x.inverse_hitzer(), motor_inverse=lambda c, x: x.motor_inverse(),
    maps=lambda c, x: [x.sandwich_map()(c.multivector.vector(np.arange(1, c.algebra.n_dimensions + 1) * 1.0))],
    arithmetic=lambda c, x: [x + 1, 1 - x, x - x.reverse(), x * x, x ^ x, x | x, x & x, x >> x, x << x, +x, ~x, -x, 2 * x, x.dual(), x.dual_inverse()],
    parts=lambda c, x: [x.select[0], x.restrict[2], x.degenerate(), x.nondegenerate(), x.involute(), x.conjugate()])


def cfg_methods(tier, seed):
    q = tier == 'quick'
    fits = dict(square_root=[('++', 'g:0'), ('+++', 'g:0,3'), ('-++0', 'g:0,4')], inverse_square_root=[('++', 'g:0'), ('+++', 'g:0,3'), ('-++0', 'g:0,4')],
                study=[('+++', 'g:0,3'), ('-++0', 'g:0,4')], scalar_parts=[('++', 'even'), ('0', 'full')],
                normalized=[('++', 'even'), ('+++', 'even'), ('+++-', 'g:1'), ('++0', 'g:2'), ('+++0', 'even')], norm=[('++', 'even'), ('+++', 'even'), ('+++0', 'even')],
                inverse=[('++', 'even'), ('+-', 'full'), ('+++', 'even'), ('++0', 'even'), ('+++-', 'g:1'), ('++', 'g:0'), ('+++0', 'g:2')],
                quotient=[('++', 'even'), ('0', 'full'), ('+++', 'g:2')], motor_square_root=[('++0', 'even'), ('+++', 'even')], mean=[('++', 'even'), ('++0', 'even')],
                exp_linear=[('+++0', 'g:2')], exp_linear_normalized=[('+++', 'g:2'), ('++0', 'g:2'), ('+++0', 'g:2')], exp_quadratic=[('+++', 'g:2'), ('++0', 'g:2'), ('+++0', 'g:2')],
                exp=[('0++', 'b:3,5'), ('++', 'g:0')], log=[('++', 'g:0')], log_linear=[('++0', 'even'), ('+++0', 'even')], log_linear_normalized=[('+++', 'even'), ('+++0', 'even')],
                log_quadratic=[('+++', 'even')], motor_log=[('0++', 'b:0,3,5')], invariant=[('+++', 'g:2'), ('+++0', 'g:2')], polar=[('+++', 'g:2'), ('+++0', 'g:2')],
                translator=[('0++', 'even'), ('+++0', 'even'), ('+++', 'even')], rotor=[('++0', 'even'), ('+++', 'even')],
                shirokov=[('++', 'even'), ('+-', 'full'), ('++0', 'g:2')], hitzer=[('++', 'even'), ('+++', 'even')], motor_inverse=[('+++0', 'even')],
                maps=[('++0', 'even'), ('+++', 'even')], arithmetic=[('++0', 'even'), ('+-', 'full'), ('+++', 'g:2')], parts=[('++0', 'even'), ('0++', 'full')])
    bs = ['np_sparse', 'jax_einsum', 'torch_einsum'] if q else [b for b in BACKENDS if b[:2] != 'py' and b != 'np_einsum']
    return [dict(sig=s, X=x, name=n, backend=b, shape=list(p)) for n, cs in fits.items() for s, x in cs for b in bs
            for p in ([(2,)] if q else [(), (2,), (2, 1)])]


@harness('C08', configs=cfg_methods, timeout=150)
def methods(env, sig, X, name, backend, shape):
    """every multivector method (inverse, roots, norms, exponentials, decompositions, maps) on every array backend"""
    c0 = env.ctx(sig)
    x = env.mv(c0, 'x', sub(c0.algebra, X), tuple(shape))

    def fn(c, x):
        r = METHODS[name](c, x)
        return [('%s.%d' % (name, i), m) for i, m in enumerate(r if isinstance(r, (list, tuple)) else [r])]

    want = fn(c0, x)
    got = execute(env, backend, sig, fn, [x], double=True)
    env.true(len(want) == len(got), 'number of results')
    for (label, w), (_, g) in zip(want, got):
        env.true(list(w.subspace.blades) == list(g.subspace.blades), '%s %s: subspace %s instead of %s' % (backend, label, g.subspace, w.subspace))
        env.true(tuple(g.values.shape) == tuple(w.values.shape), '%s %s: shape %s' % (backend, label, g.values.shape))
        env.eq(g.values, w.values, '%s %s' % (backend, label))


def cfg_functions(tier, seed):
    return [dict(sig=s, backend=b, shape=list(p), axis=k) for s in ['+-'] for b in ('np_einsum', 'jax_einsum', 'torch_einsum')
            for p, k in ([((2, 3), -1), ((2, 2), 0)] if tier == 'quick' else [((2, 3), -1), ((2, 3), 1), ((2, 3), 0), ((4,), 0), ((2, 1, 2), -2), ((3, 2), 0)])]


@harness('C08', configs=cfg_functions, timeout=150)
def array_functions(env, sig, backend, shape, axis):
    """the elementwise functions, reductions and array helpers of a context"""
    shape = tuple(shape)
    c0 = env.ctx(sig)
    S = c0.algebra.subspace.scalar()
    x, y = env.mv(c0, 'x', S, shape), env.mv(c0, 'y', S, shape)
    v, w = x.values[..., 0], y.values[..., 0]
    k = axis % len(shape)
    mask = (np.arange(v.size).reshape(shape) * 5 % 3) > 0
    mask2 = (np.arange(v.size).reshape(shape) * 7 % 4) > 1
    e = lambda f: np.frompyfunc(f, 1, 1)
    num = lambda name: e(lambda u: getattr(u, name)() if hasattr(u, name) else getattr(np, name)(u))

    def elementwise(c, x, y):
        a, b = x.values[..., 0], y.values[..., 0]
        if backend.startswith('torch'):
            import torch
            m, m2 = torch.as_tensor(mask), torch.as_tensor(mask2)
        elif backend.startswith('jax'):
            import jax.numpy as jnp
            m, m2 = jnp.asarray(mask), jnp.asarray(mask2)
        else:
            m, m2 = mask, mask2
        return [('sqrt', c.sqrt(a)), ('cos', c.cos(a)), ('sin', c.sin(a)), ('log', c.log(a)), ('exp', c.exp(a)), ('abs', c.abs(a)), ('pow2', c.pow(a, 2)), ('pow3', c.pow(a, 3)),
                ('where', c.where(m, a, b)), ('set', c.set_array(a, 0, b[1])), ('set tuple', c.set_array(a, (0,) * len(shape), b[(1,) + (0,) * (len(shape) - 1)])),
                ('coerce', c.coerce_array(a)), ('alloc', c.allocate_array((2, 3)) + a.sum() * 0), ('unchanged', a),
                ('xor', c.where(c.logical_xor(m, m2), a, b)), ('or', c.where(c.logical_or(m, m2), a, b)), ('all', c.where(c.all(m, axis=axis), a.sum(axis), b.sum(axis))),
                ('mv cos', x.cos().values[..., 0]), ('mv sin', x.sin().values[..., 0]), ('mv abs', x.abs().values[..., 0]), ('mv sqrt', x.sqrt().values[..., 0]),
                ('mv invsqrt', x.invsqrt().values[..., 0])] + inverse(c, a, b)

    def inverse(c, a, b):
        # only the numpy context offers the inverse functions
        if not backend.startswith('np'):
            return []
        return [('arctan2', c.arctan2(a, b)), ('arctan', c.arctan(a)), ('arcsinh', c.arcsinh(a)), ('arccos', c.arccos(a / (1 + a * a)))]

    def setv(i, val):
        u = v.copy()
        u[i] = val
        return u

    root = num('sqrt')(v)
    e2 = np.frompyfunc(lambda p, q: p.arctan2(q) if hasattr(p, 'arctan2') else np.arctan2(p, q), 2, 1)
    want = {'sqrt': root, 'cos': num('cos')(v), 'sin': num('sin')(v), 'log': num('log')(v), 'exp': num('exp')(v), 'abs': abs(v), 'pow2': v * v, 'pow3': v * v * v,
            'where': np.where(mask, v, w), 'set': setv(0, w[1]), 'set tuple': setv((0,) * len(shape), w[(1,) + (0,) * (len(shape) - 1)]), 'coerce': v, 'alloc': np.zeros((2, 3)),
            'unchanged': v, 'xor': np.where(mask ^ mask2, v, w), 'or': np.where(mask | mask2, v, w), 'all': np.where(mask.all(axis), v.sum(axis), w.sum(axis)),
            'arctan2': e2(v, w), 'arctan': num('arctan')(v), 'arcsinh': num('arcsinh')(v), 'arccos': num('arccos')(v / (1 + v * v)),
            'mv cos': num('cos')(v), 'mv sin': num('sin')(v), 'mv abs': abs(v), 'mv sqrt': root, 'mv invsqrt': 1 / root}
    for label, m in execute(env, backend, sig, elementwise, [x, y], double=True):
        env.true(tuple(np.shape(m)) == np.shape(want[label]), '%s %s: shape %s' % (backend, label, np.shape(m)))
        env.eq(np.asarray(m), want[label], '%s %s' % (backend, label))

    def branching():
        one = lambda c, x: [('min', c.min(x.values[..., 0], axis=axis)), ('argmin', c.argmin(x.values[..., 0], axis=axis))]
        (_, m), (_, p) = execute(env, backend, sig, one, [x], double=True)
        a = np.moveaxis(v, k, -1)
        p = np.asarray(p).astype(int)
        env.true(np.shape(m) == a.shape[:-1] and p.shape == a.shape[:-1], '%s min: shape' % backend)
        for i in np.ndindex(p.shape):
            env.eq(np.asarray(m, dtype=object)[i], a[i][p[i]], '%s minimum at its position' % backend)
            for j in range(a.shape[-1]):
                env.nonneg(a[i][j] - a[i][p[i]], '%s minimum' % backend)
    env.explore(branching)


def cfg_transforms(tier, seed):
    q = tier == 'quick'
    out = []
    for i, s in enumerate(['++0', '-+'] if q else ['++0', '-+', '+0', '+-0', '+++', '+++-', '0-']):
        r = random_specs(len(s), 4, seed + 61 + i, hi=4)
        out += [dict(sig=s, X=x, Y=y, backend=b) for b in ('jax_einsum', 'jax_dense', 'jax_sparse') for x, y in [(r[0], r[1 % len(r)]), ('even', 'g:1')] + ([] if q else [(r[-1], r[-2])])]
    return out


@harness('C08', configs=cfg_transforms, timeout=150)
def transforms(env, sig, X, Y, backend):
    """multivectors and operators pass through jit, vmap, derivatives and tree maps of jax as the values that they are"""
    import jax
    R = Ref(sig)
    c0 = env.ctx(sig)
    sx, sy = sub(c0.algebra, X), sub(c0.algebra, Y)
    x, y, xb, yb = env.mv(c0, 'x', sx), env.mv(c0, 'y', sy), env.mv(c0, 'xb', sx, (2,)), env.mv(c0, 'yb', sy, (2, 3))

    def fn(c, x, y, xb, yb):
        f = lambda a, b: (a * b, a.reverse(), a + b, a.full_sandwich(b))
        names = ('product', 'reverse', 'sum', 'sandwich')
        out = [('jit ' + n, m) for n, m in zip(names, jax.jit(f)(x, y))]
        out += [('vmap ' + n, m) for n, m in zip(names, jax.vmap(f, in_axes=(0, 0))(xb, yb))]
        out += [('vmap1 ' + n, m) for n, m in zip(names, jax.vmap(f, in_axes=(None, 1), out_axes=0)(x, yb)) if n != 'reverse']
        op = c.operator.full_sandwich(sx, sy).partial({0: x, 2: x})
        out.append(('jit map', jax.jit(lambda b: op(b))(y)))
        leaves, tree = jax.tree_util.tree_flatten(x)
        out += [('leaf', leaves[0] * 1), ('rebuilt', jax.tree_util.tree_unflatten(tree, leaves)), ('mapped', jax.tree_util.tree_map(lambda v: v * 2, x))]
        total = lambda v: (c.multivector(values=v, subspace=sx) * y).values.sum()
        out += [('grad', jax.grad(total)(x.values)), ('scan', jax.vmap(lambda a: jax.vmap(lambda b: a * b)(yb[0]))(xb))]
        return out

    gx = {}
    for k, b in enumerate(sx.blades):       # derivative of the sum of all coefficients of x * y
        gx[k] = sum(R.gp({int(b): 1}, y).values())
    xs, ys = R.d(x), R.d(y)
    full = R.gp(R.gp(xs, ys), R.reverse(xs))
    ref = lambda a, b: dict(product=R.gp(a, b), reverse=R.reverse(a), sum=R.add(a, b), sandwich=R.gp(R.gp(a, b), R.reverse(a)))
    bl = lambda m: {int(b): m.values[..., i] for i, b in enumerate(m.subspace.blades)}
    for label, m in execute(env, backend, sig, fn, [x, y, xb, yb], double=True):
        kind, _, n = label.partition(' ')
        if kind == 'jit':
            env.eq(m, full if n == 'map' else ref(xs, ys)[n], '%s %s' % (backend, label))
        elif kind == 'vmap':
            for i in range(2):
                for j in range(3):
                    g = {b: v[(i,) if v.ndim == 1 else (i, j)] for b, v in bl(m).items()}
                    env.eq(g, ref(bl(xb[i]), bl(yb[i, j]))[n], '%s %s' % (backend, label))
        elif kind == 'vmap1':
            for i in range(2):
                for j in range(3):
                    env.eq({b: v[j, i] for b, v in bl(m).items()}, ref(xs, bl(yb[i, j]))[n], '%s %s' % (backend, label))
        elif kind == 'leaf':
            env.eq(m, x.values, 'leaf of the tree')
        elif kind in ('rebuilt', 'mapped'):
            env.true(m.subspace is sx, '%s: subspace' % kind)
            env.eq(m, xs if kind == 'rebuilt' else R.scale(xs, 2), kind)
        elif kind == 'grad':
            env.eq(m, np.array([gx[k] for k in range(len(sx))], dtype=object), 'gradient')
        else:
            for i in range(2):
                for j in range(3):
                    env.eq({b: v[i, j] for b, v in bl(m).items()}, R.gp(bl(xb[i]), bl(yb[0, j])), 'nested vmap')


@harness('C08', configs=lambda t, s: [dict(sig=x, backend=b, precision=p) for x in (['+-0'] if t == 'quick' else ['+-0', '++++', '-0']) for b in BACKENDS if b[:2] != 'py'
                                      for p in (32, 64) if (b[:3], p) != ('jax', 64)], timeout=200)
def precision(env, sig, backend, precision):
    """results have the precision of their context, whatever numbers came in and whatever the kernel is made of (facts that no coefficient changes)"""
    alg = algebra(sig)
    kind, strat = backend.split('_')
    S = strat.capitalize() + 'Operator'
    if kind == 'np':
        from numga.backend.numpy.context import NumpyContext as C
        from numga.backend.numpy import operator as o
        want = np.dtype('float%d' % precision)
        otype = getattr(o, 'Numpy' + S)
        c = C(alg, dtype=want.type, otype=otype)
    elif kind == 'jax':
        from numga.backend.jax.context import JaxContext as C
        from numga.backend.jax import operator as o
        import jax.numpy as jnp
        want = jnp.dtype('float32')
        c = C(alg, dtype=jnp.float32, otype=getattr(o, 'Jax' + S))
    else:
        import torch
        from numga.backend.torch.context import TorchContext as C
        from numga.backend.torch import operator as o
        want = getattr(torch, 'float%d' % precision)
        c = C(alg, dtype=want, otype=getattr(o, 'Torch' + S))
    n = alg.n_dimensions
    V, sp = c.multivector, alg.subspace
    num = lambda k, *shape: (np.arange(int(np.prod(shape)) * k).reshape(shape + (k,)) * 7 % 5 + 1).tolist()
    x = V.vector(num(n, 2))
    y = c.multivector(values=num(len(sp.bivector()), 2), subspace=sp.bivector())
    m = V.even_grade(num(len(sp.even_grade())))
    gp = c.operator.product(x.subspace, y.subspace)
    wide = c.operator(gp.operator * 3 + gp.operator)
    halves = c.operator((gp.operator * 3).div(2))
    things = dict(given=lambda: x, default=lambda: V.even_grade(), blade=lambda: getattr(V, alg.description.basis_names[0]), basis=lambda: V.basis()[-1], empty=lambda: V.empty(),
                  product=lambda: x * y, wedge=lambda: x ^ y, inner=lambda: x | y, regressive=lambda: y & y, sandwich=lambda: m >> x, back=lambda: m << x,
                  add=lambda: x + y, number=lambda: x + 1, left=lambda: 1 - x, times=lambda: x * 2, rtimes=lambda: 2 * x, div=lambda: x / 2, neg=lambda: -x, reverse=lambda: ~y,
                  dual=lambda: x.dual(), undual=lambda: x.dual_inverse(), select=lambda: (x + y).select[1], restrict=lambda: (x + y).restrict[1], squared=lambda: x.squared(),
                  commutator=lambda: x.commutator(y), anticommutator=lambda: x.anti_commutator(y), map=lambda: m.sandwich_map()(x), item=lambda: x[0],
                  concatenate=lambda: x.concatenate(x, 0), sum=lambda: x.sum(0), norm_squared=lambda: x.norm_squared(), partial=lambda: gp.partial({0: x})(y),
                  cos=lambda: x.cos(), sin=lambda: x.sin(), abs=lambda: x.abs(), set=lambda: x.at[0].set(x[1]), sums=lambda: wide(x, y), fractions=lambda: halves(x, y))
    for name, f in things.items():
        got = f().values.dtype
        env.true(got == want, '%s %s: %s in a context of %s' % (backend, name, got, want))
