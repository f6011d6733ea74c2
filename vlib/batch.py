"""Batches: a function of multivectors acts on every element of a batch as it does on that element alone."""
import numpy as np

SHAPES1 = [(2,), (2, 1), (3, 1, 2), (1,), (1, 2, 1, 1)]
SHAPES2 = [((2,), (2,)), ((2, 1), (3,)), ((3, 1, 2), (2,)), ((), (2, 2)), ((1, 2), (2, 1)), ((2, 1, 1), (1, 2)), ((2,), ()), ((1,), (2, 3))]


def element(x, shape, i):
    """element i of x broadcast to shape, as a multivector of its own"""
    v = np.broadcast_to(x.values, tuple(shape) + x.values.shape[-1:])[i]
    return x.context.multivector(values=np.array(v, copy=True), subspace=x.subspace)


def difference(env, a, b):
    """componentwise; terms that coincide vanish here, whatever their domain"""
    d = a.values - b.values
    return d if env.symbolic else np.where(np.isnan(np.asarray(a.values, float)) & np.isnan(np.asarray(b.values, float)), 0, d)


def outputs(r):
    return r if isinstance(r, tuple) else (r,)


def elementwise(env, fn, xs, label):
    """fn(*xs)[i] == fn(*[x[i] for x in xs]) for every index i of the broadcast batch shape; False when fn has no rule for these types"""
    from checks.c11 import dispatches
    shape = np.broadcast_shapes(*[x.values.shape[:-1] for x in xs])
    try:
        got = dispatches(lambda: fn(*xs))
    except (ZeroDivisionError, NotImplementedError):
        return False            # not defined for this type
    except Exception as e:
        if 'Not all elements are equal' in str(e):
            return False        # transform by a versor type of mixed parity
        raise
    if got is None:
        return False
    got = outputs(got)
    env.true(all(r.values.shape[:-1] in ((), shape) for r in got), '%s: batch shape' % label)
    idx = list(np.ndindex(*shape))
    for i in idx[:2] + idx[2:][-1:]:
        one = outputs(fn(*[element(x, shape, i) for x in xs]))
        env.true(len(one) == len(got) and all(a.subspace is b.subspace for a, b in zip(one, got)), '%s: types do not depend on the batch' % label)
        for k, (a, b) in enumerate(zip(one, got)):
            env.true(a.values.shape == (len(a.subspace),), '%s: an element on its own has no batch axes' % label)
            if len(a.subspace):
                env.eq(dict(enumerate(difference(env, element(b, shape, i), a))), {}, '%s: element %s of the batch%s' % (label, i, ', part %d' % k if len(got) > 1 else ''))
    return True


def cfg(sigs, specs, k1, k2=0):
    """configurations: every signature with k1 single operands and k2 pairs, cycling through the batch shapes"""
    def make(tier, seed):
        import random
        q = tier == 'quick'
        out, j = [], seed
        for i, s in enumerate(sigs(tier, seed)):
            X = specs(s, seed + i)
            n = (k1 if q else 3 * k1)
            r = random.Random(seed * 1000 + i)
            for x in () if not n else (X if len(X) <= n else X[:1] + r.sample(X[1:], n - 1)):
                out.append(dict(sig=s, S=[x], shapes=[list(SHAPES1[j % len(SHAPES1)])]))
                j += 1
            for _ in range(k2 if q else 3 * k2):
                p = SHAPES2[j % len(SHAPES2)]
                out.append(dict(sig=s, S=[r.choice(X), r.choice(X)], shapes=[list(p[0]), list(p[1])]))
                j += 1
        return out
    return make


def operands(env, c, S, shapes):
    from vlib.ga import sub
    return [env.mv(c, 'x%d' % i, sub(c.algebra, s), tuple(p)) for i, (s, p) in enumerate(zip(S, shapes))]


def methods(env, xs, unary, binary, also=True):
    """every listed method; at least one of them has a rule"""
    if len(xs) == 1:
        for m in unary:
            f = m if callable(m) else (lambda x, m=m: getattr(x, m)())
            elementwise(env, f, xs, m.__name__ if callable(m) else m)
    else:
        for m in binary:
            f = m if callable(m) else (lambda x, y, m=m: getattr(x, m)(y))
            elementwise(env, f, xs, m.__name__ if callable(m) else m)
    env.true(True)
