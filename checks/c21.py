"""Sparse tensors: every operation of the real class on symbolic entries agrees with the dense tensor algebra it stands for."""
import itertools
import random

import numpy as np

from vlib.engine import harness
from vlib.ga import *

META = dict(
    bounds='tensors of 1 to 3 axes, ranges up to 4 (quick) / 6 (thorough) and up to 16 / 36 entries at sampled coordinates with symbolic values; '
           'sequences of up to 3 / 4 operations; tables of products over sampled subspaces of up to 6 / 8 dimensions',
    outside='larger tensors; scalar (axis-free) results other than of a single contraction; tensors without entries; repeated coordinates in one tensor '
            '(which no operation produces)',
    assumptions=['real arithmetic in place of floats'],
)


def pattern(rnd, shape, k, dense=False):
    """distinct coordinates, in an arbitrary order"""
    every = list(itertools.product(*[range(s) for s in shape]))
    cs = every if dense else rnd.sample(every, min(k, len(every)))
    rnd.shuffle(cs)
    return cs


def tensor(env, name, coords, dtype=np.int64):
    """(the real thing, its value as a mapping of coordinates)"""
    from numga.operator.sparse_tensor import SparseTensor
    data = env.array(name, (len(coords),))
    axes = tuple(np.array([c[a] for c in coords], dtype=dtype) for a in range(len(coords[0])))
    return SparseTensor(axes, data), dict(zip(coords, data))


def value(st):
    """read a real tensor back, entry by entry"""
    axes = [np.asarray(a).ravel() for a in st.axes]
    data = np.asarray(st.data).ravel()
    return axes, data


def same(env, st, want, rank, label):
    """st denotes the mapping want; coordinates appear once"""
    env.true(len(st.axes) == rank, label + ': number of axes')
    axes, data = value(st)
    env.true(all(len(a) == len(data) for a in axes), label + ': as many coordinates as entries')
    got = {}
    for i, c in enumerate(zip(*[a.tolist() for a in axes])):
        env.true(c not in got, label + ': a coordinate appears twice')
        got[c] = got[c] + data[i] if c in got else data[i]
    for c in sorted(set(got) | set(want)):
        env.eq(got.get(c, 0), want.get(c, 0), '%s: entry %s' % (label, str(c)))


def m_add(a, b):
    out = dict(a)
    for c, v in b.items():
        out[c] = out[c] + v if c in out else v
    return out


def m_product(a, b):
    return {c + d: v * w for c, v in a.items() for d, w in b.items()}


def m_contract(a, i, j):
    out = {}
    for c, v in a.items():
        if c[i] == c[j]:
            d = tuple(x for k, x in enumerate(c) if k not in (i, j))
            out[d] = out[d] + v if d in out else v
    return out


def m_transpose(a, t):
    return {tuple(c[k] for k in t): v for c, v in a.items()}


def m_take(a, idx, axis):
    return {c[:axis] + (list(idx).index(c[axis]),) + c[axis + 1:]: v for c, v in a.items() if c[axis] in idx}


def shapes(rnd, tier, rank):
    return tuple(rnd.randint(2, 4 if tier == 'quick' else 6) for _ in range(rank))


def cfg_unary(tier, seed):
    rnd = random.Random(seed * 17 + 3)
    out = []
    for rank in (1, 2, 3):
        for i in range(8 if tier == 'quick' else 30):
            s = shapes(rnd, tier, rank)
            out.append(dict(coords=pattern(rnd, s, 12 if tier == 'quick' else 18, dense=i == 0 and rank < 3), shape=s, dtype=rnd.choice(['int64', 'uint8', 'uint16'])))
    return out


@harness('C21', configs=cfg_unary)
def unary(env, coords, shape, dtype):
    """transpose, scale, take, dense form"""
    coords = [tuple(c) for c in coords]
    rank = len(shape)
    a, A = tensor(env, 'a', coords, dtype)
    for t in itertools.permutations(range(rank)):
        same(env, a.transpose(t), m_transpose(A, t), rank, 'transpose %s' % str(t))
    w = env.scalar('w')
    same(env, a * w, {c: v * w for c, v in A.items()}, rank, 'scale')
    d = a.to_dense_()
    for c in itertools.product(*[range(n) for n in d.shape]):
        env.eq(d[c], A.get(c, 0), 'dense form %s' % str(c))
    env.true(all(all(x < n for x, n in zip(c, d.shape)) for c in A), 'dense form holds every entry')
    rnd = random.Random(str(coords))
    for axis in range(rank):
        have = sorted({c[axis] for c in coords})
        for _ in range(2):
            idx = rnd.sample(range(shape[axis]), rnd.randint(1, shape[axis]))
            if not set(idx) & set(have):
                continue
            same(env, a.take(np.array(idx, dtype=dtype), axis), m_take(A, idx, axis), rank, 'take %s of axis %d' % (idx, axis))
    same(env, a, A, rank, 'the tensor itself, afterwards')


def cfg_binary(tier, seed):
    rnd = random.Random(seed * 19 + 5)
    out = []
    for rank in (1, 2, 3):
        for i in range(8 if tier == 'quick' else 30):
            s = shapes(rnd, tier, rank)
            k = 7 if tier == 'quick' else 12
            out.append(dict(a=pattern(rnd, s, k), b=pattern(rnd, s, k), how='add', at=None))
    for ra, rb in itertools.product((1, 2, 3), (1, 2)):
        for i in range(3 if tier == 'quick' else 10):
            sa, sb = shapes(rnd, tier, ra), shapes(rnd, tier, rb)
            k = 6 if tier == 'quick' else 8
            out.append(dict(a=pattern(rnd, sa, k), b=pattern(rnd, sb, k), how='product', at=None))
            i, j = rnd.randrange(ra), rnd.randrange(rb)
            a, b = pattern(rnd, sa, k), pattern(rnd, sb, k)
            out.append(dict(a=a, b=b, how='tensorproduct', at=(i, j)))
    for rank in (2, 3, 3, 4):
        s = shapes(rnd, tier, rank)
        for i, j in itertools.permutations(range(rank), 2):
            out.append(dict(a=pattern(rnd, s, 12 if tier == 'quick' else 18), b=None, how='contract', at=(i, j)))
    return out


@harness('C21', configs=cfg_binary)
def binary(env, a, b, how, at):
    """sums, products and contractions"""
    a = [tuple(c) for c in a]
    x, A = tensor(env, 'a', a)
    if b is not None:
        b = [tuple(c) for c in b]
        y, B = tensor(env, 'b', b)
    if how == 'add':
        same(env, x + y, m_add(A, B), len(a[0]), 'sum')
        same(env, y + x, m_add(A, B), len(a[0]), 'sum, swapped')
        same(env, x + x, m_add(A, A), len(a[0]), 'sum with itself')
    elif how == 'product':
        same(env, x.product(y), m_product(A, B), len(a[0]) + len(b[0]), 'product')
    else:
        if how == 'contract':
            want, rank = m_contract(A, *at), len(a[0]) - 2
            if rank and not any(c[at[0]] == c[at[1]] for c in a):
                return
            got = x.contract(at)
        else:
            want, rank = m_contract(m_product(A, B), at[0], len(a[0]) + at[1]), len(a[0]) + len(b[0]) - 2
            if rank and not want:
                return
            got = x.tensorproduct(y, *at)
        if rank == 0:
            env.true(len(got.axes) == 0, how + ': number of axes')
            env.eq(np.asarray(got.data).ravel()[0] if np.size(got.data) else 0, want.get((), 0), how + ' %s' % str(at))
        else:
            same(env, got, want, rank, how + ' %s' % str(at))
    same(env, x, A, len(a[0]), 'the operand, afterwards')


def cfg_seq(tier, seed):
    rnd = random.Random(seed * 23 + 7)
    out = []
    for i in range(40 if tier == 'quick' else 200):
        n = rnd.randint(2, 3)
        rank, ops = 2, []
        for _ in range(rnd.randint(2, 3 if tier == 'quick' else 4)):
            kinds = ['transpose', 'scale', 'add', 'multiply']
            if rank < 4:
                kinds.append('product')
            if rank > 2:
                kinds += ['contract', 'contract']
            k = rnd.choice(kinds)
            if k == 'transpose':
                t = list(range(rank))
                rnd.shuffle(t)
                ops.append([k, t])
            elif k == 'product':
                ops.append([k, pattern(rnd, (n,), n)])
                rank += 1
            elif k == 'multiply':
                ops.append([k, pattern(rnd, (n, n), n * n), rnd.randrange(rank), rnd.randrange(2)])
            elif k == 'contract':
                ops.append([k] + rnd.sample(range(rank), 2))
                rank -= 2
            elif k == 'add':
                ops.append([k, pattern(rnd, (n,) * rank, 4)])
            else:
                ops.append([k])
            if rank == 0:
                break
        out.append(dict(a=pattern(rnd, (n, n), 4, dense=True), ops=ops))
    return out


@harness('C21', configs=cfg_seq)
def sequences(env, a, ops):
    """results of operations are tensors like any other"""
    x, A = tensor(env, 'a', [tuple(c) for c in a])
    rank = 2
    for i, (k, *p) in enumerate(ops):
        label = 'after %s' % '; '.join(str(o[0]) for o in ops[:i + 1])
        if k == 'transpose':
            x, A = x.transpose(p[0]), m_transpose(A, p[0])
        elif k == 'scale':
            w = env.scalar('w%d' % i)
            x, A = x * w, {c: v * w for c, v in A.items()}
        elif k in ('product', 'multiply', 'add'):
            y, B = tensor(env, 'b%d_' % i, [tuple(c) for c in p[0]])
            if k == 'product':
                x, A = x.product(y), m_product(A, B)
            elif k == 'add':
                x, A = x + y, m_add(A, B)
            else:
                A = m_contract(m_product(A, B), p[1], rank + p[2])
                if not A:
                    return
                x = x.tensorproduct(y, p[1], p[2])
        else:
            A = m_contract(A, *p)
            if not A:
                return
            x = x.contract(p)
        rank = len(x.axes)
        if rank == 0:
            env.eq(np.asarray(x.data).ravel()[0], A.get((), 0), label)
            return
        same(env, x, A, rank, label)


@harness('C21', configs=lambda t, s: [dict(coords=c, zeros=z) for c, z in
                                      ([([(0, 1), (2, 0), (1, 1)], [1]), ([(3,), (0,)], [0]), ([(0, 1, 0), (1, 0, 2), (1, 1, 1)], [2])]
                                       + ([] if t == 'quick' else [([(0, 0), (0, 1), (1, 0), (1, 1), (2, 2)], [0, 3])]))])
def dropping(env, coords, zeros):
    """dropping zeros changes no value and leaves no zero"""
    coords = [tuple(c) for c in coords]
    a, A = tensor(env, 'a', coords)
    for i in zeros:
        a.data[i] = A[coords[i]] = a.data[i] * 0

    def go():
        d = a.drop_zero()
        same(env, d, A, len(coords[0]), 'without zeros')
        have = list(zip(*[np.asarray(x).tolist() for x in d.axes]))
        for i, c in enumerate(coords):
            if i in zeros:
                env.true(c not in have, 'a zero was left')
    env.explore(go)


def cfg_cayley(tier, seed):
    rnd = random.Random(seed * 29 + 11)
    out = []
    for sig in pick(canon_sigs(3), 4, seed) + pick(canon_sigs(4), 2, seed) + high_sigs(tier, seed, [5, 6] if tier == 'quick' else [5, 6, 7, 8]):
        n = len(sig)
        for _ in range(4 if tier == 'quick' else 10):
            specs = [rnd.choice(random_specs(n, 3, rnd.randrange(1000), hi=6) + ['g:%d' % rnd.randint(0, n)]) for _ in range(2)]
            out.append(dict(sig=sig, l=specs[0], r=specs[1]))
    return out


@harness('C21', configs=cfg_cayley)
def tables(env, sig, l, r):
    """multiplication tables: the dense form over any subspaces multiplies"""
    from numga.operator.sparse_tensor import SparseTensor
    c = env.ctx(sig)
    ref = Ref(sig)
    L, R = sub(c.algebra, l), sub(c.algebra, r)
    full = c.algebra.subspace.full()
    blades, signs = c.algebra.product(L.blades, R.blades)
    st = SparseTensor.from_cayley((L, R), blades, signs)
    x, y = env.mv(c, 'x', L), env.mv(c, 'y', R)
    k = st.to_dense((L, R, full))
    env.true(k.shape == (len(L), len(R), len(full)), 'dense shape')
    want = ref.gp(x, y)
    for o, b in enumerate(full.blades):
        tot = 0
        for i, j in zip(*np.nonzero(k[..., o])):
            tot = tot + x.values[i] * y.values[j] * int(k[i, j, o])
        env.eq(tot, want.get(int(b), 0), 'component %d' % b)
