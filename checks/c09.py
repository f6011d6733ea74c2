"""Versor sandwiches are structure-preserving linear maps."""
import random

from vlib import batch
from vlib.engine import harness
from vlib.ga import *

META = dict(
    bounds='coefficients: arbitrary reals; versors: products of at most 3 (dimension <= 4), 2 (dimension 5) arbitrary vectors, of every '
           'signature up to dimension 3, sampled (quick) or all canonical 4 and selected 5; arguments: vectors, k-vectors, full multivectors',
    outside='float rounding; products of more vectors in dimension above 3 (covered through composition with a vector for arbitrary R)',
    assumptions=['real arithmetic in place of float64'])


def sigs(tier, seed):
    if tier == 'quick':
        return all_sigs(1) + all_sigs(2) + pick(all_sigs(3), 14, seed) + pick(canon_sigs(4), 6, seed) + ['++++-', '++0-+']
    return all_sigs(1) + all_sigs(2) + all_sigs(3) + canon_sigs(4) + pick(all_sigs(4), 15, seed) + ['++++-', '+++00', '0+++-', '-----']


def cfgs(tier, seed):
    out = []
    for s in sigs(tier, seed):
        n = len(s)
        for k in (1, 2, 3) if n <= 3 or n == 4 and (tier != 'quick' or s in ('+++-', '0+++')) else (1, 2):
            if k > n:
                continue
            args = ['g:%d' % g for g in range(1, n + 1)] if n <= 4 and k < 3 else ['g:1', 'g:2'][:n] if n < 4 else ['g:1']
            if n <= 2:
                args.append('full')
            if n == 5 and k == 2:
                args = ['g:1']
            out += [dict(sig=s, k=k, V=v) for v in dict.fromkeys(args)]
    return out


def versor(env, c, k, name='u'):
    us = [env.mv(c, '%s%d' % (name, i), sub(c.algebra, 'g:1')) for i in range(k)]
    r = us[0]
    for u in us[1:]:
        r = r * u
    return us, r


@harness('C09', configs=cfgs)
def grade_preserving(env, sig, k, V):
    """the sandwich with a versor equals the full product R x ~R, keeps grades, is linear, and `<<` undoes it"""
    c = env.ctx(sig)
    R = Ref(sig)
    us, r = versor(env, c, k)
    x = env.mv(c, 'x', sub(c.algebra, V))
    full = r * x * ~r
    sand = r >> x
    env.eq(sand, full, 'R >> x = R x ~R')
    env.eq(r.full_sandwich(x), full, 'full_sandwich')
    env.eq(r.sandwich(x), full, 'sandwich')
    if V != 'full':
        g = int(V[2:])
        env.eq({b: v for b, v in R.d(full).items() if grade(b) != g}, {}, 'grade preserved')
    env.eq(r << x, ~r * x * r, 'R << x')
    env.eq(r.reverse_sandwich(x), ~r * x * r, 'reverse_sandwich')
    n2 = R.gp(r, R.reverse(r))
    env.eq({b: v for b, v in n2.items() if b}, {}, 'R ~R is scalar')
    env.eq(r.norm_squared(), n2.get(0, 0) if 0 in n2 else 0, 'norm squared')
    if k <= 2:
        N = n2.get(0, 0)
        env.eq(r << sand, R.scale(x, N * N), 'R << (R >> x) = N^2 x')
        env.eq(r >> (r << x), R.scale(x, N * N), 'R >> (R << x)')
    m = r.sandwich_map(x.subspace)
    env.eq(m(x), full, 'sandwich_map')
    if V == 'g:1':
        env.eq(r.sandwich_map()(x), full, 'sandwich_map (default)')
    # a composition of reflections
    y = x
    for u in reversed(us):
        y = u >> y
    env.eq(sand, y, 'composition of the factors')


def cfg2(tier, seed):
    return [q for q in cfgs(tier, seed) if q['k'] <= (2 if len(q['sig']) <= 3 else 1) and q['V'] != 'full']


@harness('C09', configs=cfg2)
def morphism(env, sig, k, V):
    """products of arguments are preserved (up to the norm for unnormalised R); outermorphism of transform"""
    c = env.ctx(sig)
    R = Ref(sig)
    us, r = versor(env, c, k)
    x, y = env.mv(c, 'x', sub(c.algebra, V)), env.mv(c, 'y', sub(c.algebra, 'g:1'))
    N = R.gp(r, R.reverse(r)).get(0, 0)
    for name, f in (('product', lambda a, b: a * b), ('wedge', lambda a, b: a ^ b), ('inner', lambda a, b: a | b),
                    ('commutator', lambda a, b: a.commutator(b)), ('scalar product', lambda a, b: a.scalar_product(b))):
        env.eq(f(r >> x, r >> y), R.scale(r >> f(x, y), N), name)
    env.eq((r.transform(x)) ^ (r.transform(y)), R.scale(r.transform(x ^ y), N), 'transform outermorphism')
    g = int(V[2:])
    env.eq(r.transform(x), R.scale(R.gp(R.gp(r, x), R.reverse(r)), (-1) ** (k * g)), 'transform value')
    env.eq(r.reverse_transform(r.transform(x)), R.scale(x, N * N), 'reverse_transform(transform(x)) = N^2 x')
    env.eq(c.operator.reverse_sandwich(r.subspace, x.subspace)(r, x, r), r << x, 'operator.reverse_sandwich')


def cfg3(tier, seed):
    out = []
    for s in sigs(tier, seed):
        for V in ['g:1', 'g:2', 'full'][:max(1, min(len(s), 2 if len(s) > 3 else 3))]:
            out.append(dict(sig=s, V=V, Q='even' if len(s) <= 4 else 'g:1'))
            if len(s) <= 3:
                out.append(dict(sig=s, V=V, Q='odd'))
    return out


@harness('C09', configs=cfg3)
def composition(env, sig, V, Q):
    """(a B) >> x = a >> (B >> x) for a vector a and arbitrary even / odd B, as full products; transforms of mixed grades"""
    c = env.ctx(sig)
    R = Ref(sig)
    a = env.mv(c, 'a', sub(c.algebra, 'g:1'))
    b = env.mv(c, 'b', sub(c.algebra, Q))
    x = env.mv(c, 'x', sub(c.algebra, V))
    inner = b.full_sandwich(x)
    env.eq((a * b).full_sandwich(x), a.full_sandwich(inner), 'full sandwich composes')
    env.eq(a >> inner, a * inner * a, 'a >> (..)')
    env.eq((b * a).full_sandwich(x), b.full_sandwich(a >> x), 'full sandwich composes (2)')
    # a vector transforms mixed grades: odd grades flip
    t = R.gp(R.gp(a, x), a)
    env.eq(a.transform(x), {k: v * (-1) ** grade(k) for k, v in t.items()}, 'transform of mixed grades by a vector')
    if len((a * a).subspace):
        env.eq((a * a.involute()).transform(x), R.scale(x, R.gp(a, a).get(0, 0) * R.gp(a, a).get(0, 0)), 'scalar transform')


def cfg_high(tier, seed):
    return [dict(sig=s, seed=i, k=1 + i % 3) for i, s in enumerate(high_sigs(tier, seed, k=2))]


@harness('C09', configs=cfg_high)
def high(env, sig, seed, k):
    """six to twelve dimensions: versors of vectors on a few axes"""
    import numpy as np
    c = env.ctx(sig)
    R = Ref(sig)
    rng = random.Random(seed)
    n = R.n
    axes = sorted(rng.sample(range(n), 2) + [n - 1 - rng.randint(0, 1)])
    V = 'b:' + ','.join(str(1 << a) for a in sorted(set(axes)))
    us = [env.mv(c, 'u%d' % i, sub(c.algebra, V)) for i in range(k)]
    r = us[0]
    for u in us[1:]:
        r = r * u
    N = R.gp(r, R.reverse(r)).get(0, 0)
    x, y = env.mv(c, 'x', sub(c.algebra, mirrored_specs(n, 2, seed, hi=3)[0])), env.mv(c, 'y', sub(c.algebra, V))
    full = R.gp(R.gp(r, x), R.reverse(r))
    env.eq(r.full_sandwich(x), full, 'full_sandwich')
    env.eq({b: v for b, v in R.d(r >> x).items()}, R.select(full, lambda b: grade(b) in {grade(int(q)) for q in x.subspace.blades}), '>>')
    env.eq({b: v for b, v in full.items() if grade(b) not in {grade(int(q)) for q in x.subspace.blades}}, {}, 'grades preserved')
    env.eq(r << x, R.gp(R.gp(R.reverse(r), x), r), '<<')
    z = x
    for u in reversed(us):
        z = u.full_sandwich(z)
    env.eq(z, full, 'composition')
    env.eq((r >> y) ^ (r >> y * 2), {}, 'parallel vectors stay parallel')
    env.eq((r >> y).scalar_product(r >> y), R.scale(R.sp(y, y), N * N), 'squares scale with the norm')
    env.eq(r.transform(y), R.scale(R.gp(R.gp(r, y), R.reverse(r)), (-1) ** k), 'transform')
    env.eq(r.transform(x), R.map(full, lambda b: ((-1) ** (k * grade(b)), b)), 'transform of mixed grades')
    env.eq(r.sandwich_map(x.subspace)(x), r >> x, 'sandwich_map')


def cfg4(tier, seed):
    return [dict(sig=s, k=k) for s in ['+', '+0', '++', '+-0', '+++', '+0-', '-+-'] + (['+++-', '0+++'] if tier != 'quick' else []) for k in (1, 2)
            if k <= len(s) and k * len(s) <= 6 + 2 * (tier != 'quick')]


@harness('C09', configs=cfg4)
def unit_versors(env, sig, k):
    """for unit R the sandwich with the reverse undoes it, inner products are preserved"""
    c = env.ctx(sig)
    R = Ref(sig)
    us, r = versor(env, c, k)
    x, y = env.mv(c, 'x', sub(c.algebra, 'g:1')), env.mv(c, 'y', sub(c.algebra, 'g:1'))
    N = R.gp(r, R.reverse(r)).get(0, 0)
    env.assume_eq(N, 1)
    env.lemmas = [v * w for v in [1 * q for q in x.values] for w in [1, N]]
    env.eq(r << (r >> x), x, '<< undoes >>')
    env.eq(r >> (r << x), x, '>> undoes <<')


@harness('C09', configs=batch.cfg(lambda t, s: all_sigs(2)[:4] + pick(all_sigs(3), 5, s) + ['+++0', '++-0'], lambda s, k: ['even', 'g:1', 'full', 'odd', 'g:2'] + random_specs(len(s), 4, k, hi=5), 2, 3))
def elementwise(env, sig, S, shapes):
    """batches: every element is treated as it is alone"""
    c = env.ctx(sig)
    batch.methods(env, batch.operands(env, c, S, shapes), ['reverse', 'involute', 'conjugate', 'dual', 'dual_inverse', 'symmetric_reverse_product', 'norm_squared', 'squared'], ['sandwich', 'reverse_sandwich', 'full_sandwich', 'transform', 'reverse_transform', '__rshift__', '__lshift__', 'product', 'wedge', 'commutator', 'bivector_product', 'left_contract'])
