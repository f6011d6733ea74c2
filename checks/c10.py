"""Inverses and division."""
import random

import numpy as np

from vlib import batch
from vlib.engine import harness
from vlib.env import algebra
from vlib.ga import *
from checks.c03 import sigs

META = dict(
    explanation='x.inverse(), division and the alternative inversion algorithms run on symbolic coefficients; the solver proves x*y = 1 = y*x '
                'from the defining equation b*v = 1 of the reciprocals that were taken (their only domain restriction). '
                'For large subspaces the nested inverses of the recursion are replaced by fresh unknowns constrained by their own contract, '
                'which is checked for their subspaces by the same harnesses.',
    bounds='coefficients: arbitrary reals with nonzero divisors; dimension 1-2: all signatures, all subspaces; 3: all signatures; 4, 5: canonical '
           'and sampled signatures with all grade-combinations and sampled subspaces; 6 to 9: sparse subspaces for which a rule exists. '
           'Totality of the rules: all subspaces in dimension <= 3 (thorough: 4), grade combinations and samples in 4, 5',
    outside='float rounding; inverse of the empty subspace (documented as undefined)', assumptions=['real arithmetic in place of float64',
            'in contract mode: a right inverse in a finite-dimensional associative algebra is a left inverse'])


def regular(sig, blades):
    """is left multiplication by a generic element of the subspace invertible? (random point mod p)"""
    p = 1000003
    m = tuple(metric(sig))
    N = 1 << len(m)
    rng = random.Random(5)
    v = {int(b): rng.randrange(1, p) for b in blades}
    M = [[0] * N for _ in range(N)]
    for a, x in v.items():
        for b in range(N):
            M[a ^ b][b] = (M[a ^ b][b] + x * blade_product(m, a, b)) % p
    r = 0
    for c in range(N):
        k = next((i for i in range(r, N) if M[i][c]), None)
        if k is None:
            return False
        M[r], M[k] = M[k], M[r]
        inv = pow(M[r][c], -1, p)
        for i in range(r + 1, N):
            if M[i][c]:
                f = M[i][c] * inv % p
                M[i] = [(a - f * b) % p for a, b in zip(M[i], M[r])]
        r += 1
    return True


ONE = {0: 1}


def check_inverse(env, R, x, y, label, left=True):
    env.eq(R.gp(x, y), ONE, label + ': x y = 1')
    if left:
        env.eq(R.gp(y, x), ONE, label + ': y x = 1')


def attempt(env, sig, x, f, label, must=True):
    """f(x), or None where no element of the subspace has an inverse"""
    if regular(sig, x.subspace.blades):
        y = f(x)
        env.defined(y, label + ' is defined for some values')
        return y
    env.true(True)
    return None         # every element is singular; nothing is claimed


def grade_combos(n):
    return ['g:' + ','.join(map(str, g)) for k in range(1, n + 2) for g in itertools.combinations(range(n + 1), k)]


def nblades(n, spec):
    if spec[0] == 'g':
        import math
        return sum(math.comb(n, int(g)) for g in spec[2:].split(','))
    if spec[0] == 'b':
        return spec.count(',') + 1
    return 1 << (n if spec == 'full' else n - 1)


def cfg_direct(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(1, 6):
        ss = all_sigs(n) if n <= 3 else (pick(canon_sigs(n) + all_sigs(n), 14 if q else 40, seed) if n == 4 else
                                         pick(canon_sigs(5), 8 if q else 21, seed) + ['++++-', '+++00'])
        for k, s in enumerate(ss):
            if n <= 2:
                xs = all_specs(n)
            elif n == 3:
                xs = grade_combos(3) + random_specs(3, 8 if q else 40, seed + k)
                xs = pick(xs, 14, seed + k) if q else xs
            elif n == 4:
                xs = ['even', 'odd', 'g:1', 'g:2', 'g:3', 'g:0,1', 'g:0,4', 'g:1,3', 'g:0,3', 'g:1,4', 'g:2,4'] + random_specs(4, 10, seed + k, hi=7)
                xs = pick(xs, 9, seed + k) if q else xs
            else:
                xs = ['g:1', 'g:2', 'g:3', 'g:4', 'g:5', 'g:0,1', 'g:0,5', 'g:1,4', 'g:0,4', 'g:4,5'] + random_specs(5, 8, seed + k, hi=5)
                xs = pick(xs, 7, seed + k) if q else xs
            out += [dict(sig=s, X=x) for x in xs]
    return out


@harness('C10', configs=cfg_direct)
def direct(env, sig, X):
    """x.inverse() with its whole recursion executed symbolically"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    y = attempt(env, sig, x, lambda x: x.inverse(), 'inverse')
    if y is not None:
        check_inverse(env, R, x, y, 'inverse')


def cfg_contract(tier, seed):
    q = tier == 'quick'
    out = []
    for n in (3, 4, 5):
        ss = pick(all_sigs(3), 8 if q else 27, seed) if n == 3 else (pick(all_sigs(4), 10 if q else 30, seed + 1) + ['+++0'] if n == 4 else
                                                    pick(canon_sigs(5), 5 if q else 21, seed) + ['++++-', '+++++'])
        for k, s in enumerate(ss):
            xs = ['full', 'even', 'odd'] + grade_combos(n)
            xs = pick(xs, 10 if n < 5 else 8, seed + k) if q else xs + random_specs(n, 10, seed + k)
            xs = [x for x in xs if not (n == 5 and nblades(5, x) <= 10)]
            out += [dict(sig=s, X=x) for x in xs]
    return out + [dict(sig=s, X='full') for s in ('+++0', '++++', '+---', '++++-', '+++00', '+++++')]


@harness('C10', configs=cfg_contract)
def contract(env, sig, X):
    """one level of the recursion of x.inverse(): the inverses it takes in turn are unknowns obeying n T = 1 = T n"""
    from numga.multivector.multivector import AbstractMultiVector as MV
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    if not regular(sig, x.subspace.blades):
        return env.true(True)
    real = MV.inverse
    depth = [0]

    def inverse(self):
        if depth[0] != 1 or len(self.subspace) <= 1:
            depth[0] += 1
            try:
                return real(self)
            finally:
                depth[0] -= 1
        depth[0] += 2
        out = real(self).subspace
        depth[0] -= 2
        T = env.mv(c, 'T', out)
        env.assume_eq(R.gp(self, T), ONE)
        env.assume_eq(R.gp(T, self), ONE)
        return T

    with env.patched(MV, 'inverse', inverse):
        y = x.inverse()
    check_inverse(env, R, x, y, 'inverse', left=not env.symbolic)


def cfg_six(tier, seed):
    q = tier == 'quick'
    ss = pick(canon_sigs(6), 6 if q else 28, seed) + ['++++++', '+++++0', '++0+-+', '+-++-0']
    out = []
    for k, s in enumerate(ss):
        out += [dict(sig=s, X=x) for x in ['g:1', 'g:5', 'g:6', 'g:0,1', 'g:0,6', 'b:3,12', 'b:3,12,48', 'b:0,3,12,63', 'b:7,56', 'b:7,25,42'] +
                random_specs(6, 3 if q else 12, seed + k, hi=4)]
    # more dimensions: few blades of one grade, or of two
    rnd = random.Random(seed)
    for n in (6, 7, 8, 9):
        for k in range((20 if n > 6 else 8) if q else 60):
            sig = ''.join(rnd.choice('++--0' if k % 3 else '+') for _ in range(n))
            gs = rnd.choice([(2,), (3,), (3,), (3,), (4,), (0, 3), (1, 2), (0, 4), (5,)])
            bl = rnd.sample([b for b in range(1 << n) if grade(b) in gs], rnd.randint(2, 4))
            out.append(dict(sig=sig, X='b:' + ','.join(map(str, sorted(bl)))))
    return out + [dict(sig='++++++++', X='b:84,98,137'), dict(sig='++++++0', X='b:22,26,42,67')]


def has_rule(f, x):
    """does the dispatcher accept the subspace of x?"""
    try:
        f(x)
    except ZeroDivisionError:
        return True
    except Exception as e:
        if 'No matching implementation' in str(e):
            return False
        raise
    return True


@harness('C10', configs=cfg_six)
def six(env, sig, X):
    """beyond five dimensions a rule need not exist, but where one does its result is an inverse"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    if not has_rule(lambda x: x.inverse(), x):
        return env.true(True)
    y = attempt(env, sig, x, lambda x: x.inverse(), 'inverse')
    if y is not None:
        check_inverse(env, R, x, y, 'inverse')


def cfg_six_typed(tier, seed):
    return [dict(sig=s, X=x) for s in pick(canon_sigs(6), 8 if tier == 'quick' else 28, seed) + ['++0+-+', '+-++-0', '++++++'] for x in ('g:2', 'g:3', 'g:4')]


@harness('C10', configs=cfg_six_typed)
def six_dense(env, sig, X):
    """large single-grade subspaces of six dimensions on a symbolic line of elements"""
    c = env.ctx(sig)
    R = Ref(sig)
    S = sub(c.algebra, X)
    rng = random.Random(len(X) + env.seed)
    t = env.scalar('t')
    import numpy as np
    v = np.empty(len(S), dtype=object)
    for i in range(len(S)):
        v[i] = rng.randint(-3, 3) + t * rng.choice([0, 0, 1, -2])
    x = c.multivector(values=v if env.symbolic else v.astype(float), subspace=S)
    if not has_rule(lambda x: x.inverse(), x) or not regular(sig, S.blades):
        return env.true(True)
    y = x.inverse()
    env.defined(y, 'defined')
    check_inverse(env, R, x, y, 'inverse')


def cfg_alt(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(1, 7):
        ss = all_sigs(n) if n <= 2 else pick(canon_sigs(n) + all_sigs(n), 10 if q else 40, seed + n)
        for k, s in enumerate(ss):
            if n <= 2:
                xs = all_specs(n)
            elif n == 3:
                xs = ['full', 'even', 'odd', 'g:1', 'g:2', 'g:0,3', 'g:1,2'] + random_specs(3, 3, seed + k)
            elif n == 4:
                xs = ['g:1', 'g:3', 'even', 'g:0,4'] + random_specs(4, 3, seed + k, hi=5)
            else:
                xs = ['g:1', 'b:1,2', 'b:3', 'b:0,3', 'b:7'] + random_specs(n, 2, seed + k, hi=2)
            out += [dict(sig=s, X=x, n=n) for x in (pick(xs, 6, seed + k) if q else xs)]
    return out


@harness('C10', configs=cfg_alt)
def shirokov(env, sig, X, n):
    """inverse_shirokov in any dimension"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    if '0' in sig and len(x.subspace) == 0:
        return env.true(True)
    y = attempt(env, sig, x, lambda x: x.inverse_shirokov(), 'inverse_shirokov')
    if y is not None:
        check_inverse(env, R, x, y, 'inverse_shirokov')


def cfg_high(tier, seed):
    """many dimensions: one coefficient free, the others fixed, on blades of several commuting factors"""
    rnd = random.Random(seed)
    out = []
    for n in (5, 6, 7, 8):
        for k in range(4 if tier == 'quick' else 10):
            sig = ''.join(rnd.choice('++-') for _ in range(n))
            # commuting bivectors, the scalar and the pseudoscalar: many different roots
            bl = [0] + [3 << 2 * i for i in range(n // 2)] + [1 << n - 1] * (n % 2)
            if k % 4 == 3:
                bl = [0] + sorted(rnd.sample(range(1, 1 << n), 3))
            elif k % 4:
                bl = [0] + sorted(rnd.sample(bl[1:] + [(1 << n) - 1], 3))
            out.append(dict(sig=sig, blades=bl, free=rnd.randrange(len(bl)), seed=k))
    return out


@harness('C10', configs=cfg_high, timeout=150)
def shirokov_high(env, sig, blades, free, seed):
    """inverse_shirokov in five to eight dimensions"""
    c = env.ctx(sig)
    R = Ref(sig)
    rnd = random.Random(seed)
    S = sub(c.algebra, 'b:' + ','.join(map(str, blades)))
    t = env.scalar('t')
    v = [t if int(b) == blades[free] else 1 << i for i, b in enumerate(S.blades)]
    x = c.multivector(values=np.array(v, dtype=object if env.symbolic else float), subspace=S)
    y = x.inverse_shirokov()
    env.defined(y, 'inverse_shirokov')
    check_inverse(env, R, x, y, 'inverse_shirokov')


@harness('C10', configs=lambda t, s: [d for d in cfg_alt(t, s) if d['n'] <= 5])
def hitzer(env, sig, X, n):
    """inverse_hitzer: scaled inverse factor, where x times the factor is a scalar"""
    c = env.ctx(sig)
    R = Ref(sig)
    x = env.mv(c, 'x', sub(c.algebra, X))
    S = x.subspace
    if n > 3:
        # the factor works where its completion is a scalar by type
        if not c.operator.inverse_factor_completed(S).output.equals.scalar():
            return env.true(True)
    y = attempt(env, sig, x, lambda x: x.inverse_hitzer(), 'inverse_hitzer')
    if y is not None:
        check_inverse(env, R, x, y, 'inverse_hitzer')


def cfg_div(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(1, 5):
        for k, s in enumerate(all_sigs(n) if n <= 2 else pick(canon_sigs(n) + all_sigs(n), 8 if q else 30, seed + n)):
            ys = ['g:0', 'g:1', 'g:%d' % n, 'even', 'g:0,1', 'g:0,%d' % n] + random_specs(n, 2, seed + k, hi=4)
            out += [dict(sig=s, X=random_specs(n, 1, seed + i, hi=5)[0], Y=y) for i, y in enumerate(ys)]
    return out


@harness('C10', configs=cfg_div)
def division(env, sig, X, Y):
    """x / y = x y^-1, (x / y) y = x, and plain numbers or arrays on either side"""
    c = env.ctx(sig)
    R = Ref(sig)
    x, y = env.mv(c, 'x', sub(c.algebra, X)), env.mv(c, 'y', sub(c.algebra, Y))
    k = env.scalar('k')
    env.eq((x / k) * k, x, '(x / k) k')
    env.eq((x / 4) * 4, x, '(x / 4) 4')
    b = env.array('b', (3,))
    q = x / b
    env.true(q.shape == (3,), 'shape of x / array')
    for i in range(3):
        env.eq({j: v[i] * b[i] for j, v in R.d(q).items()}, R.d(x), 'x / array')
    xb = env.mv(c, 'xb', x.subspace, (3,))
    q = xb / b
    env.true(q.shape == (3,), 'shape of batch / array')
    env.eq({j: v * b for j, v in R.d(q).items()}, R.d(xb), 'batch / array')
    if not regular(sig, y.subspace.blades):
        return
    d = x / y
    env.defined(d, 'x / y')
    env.eq(R.gp(d, y), R.d(x), '(x / y) y')
    env.eq(d, R.gp(x, y.inverse()), 'x / y = x y^-1')
    for m, l in ((1, '1 / y'), (2.5, '2.5 / y'), (k, 'k / y')):
        d = m / y
        env.eq(R.gp(d, y), {0: m}, l)
        env.eq(R.gp(y, d), {0: m}, 'y * ' + l)


def cfg_rules(tier, seed):
    q = tier == 'quick'
    out = []
    for n in range(1, 4):
        out += [dict(sig=s, X='all') for s in all_sigs(n)]
    for k, s in enumerate(pick(all_sigs(4), 16 if q else 81, seed)):
        out.append(dict(sig=s, X='g+%d' % (60 if q else 400)))
    for k, s in enumerate(pick(canon_sigs(5), 8 if q else 21, seed)):
        out.append(dict(sig=s, X='g+%d' % (12 if q else 80)))
    return out


@harness('C10', configs=cfg_rules, timeout=300)
def rules(env, sig, X):
    """every nonempty subspace has a rule, and the rule and output type depend on nothing but the subspace"""
    c = env.ctx(sig)
    n = len(sig)
    xs = all_specs(n) if X == 'all' else grade_combos(n) + random_specs(n, int(X[2:]), env.seed)
    t = env.scalar('t')
    bad = []
    k = 0
    for s in xs:
        S = sub(c.algebra, s)
        reg = regular(sig, S.blades)
        outs = set()
        for j in (1, 2):
            x = c.multivector(values=[((i * 7 + j * 3) % 11) - 5 + t * ((i + j) % 3 or 1) for i in range(len(S))], subspace=S)
            try:
                outs.add(x.inverse().subspace)
            except ZeroDivisionError:
                pass
            except Exception as e:
                bad.append('%s: %s: %s' % (s, type(e).__name__, e))
                break
        if len(outs) > 1:
            bad.append('%s: two output types' % s)
        k += 1
    env.true(not bad, 'rule for every subspace: ' + '; '.join(bad[:3]))
    env.facts += k


@harness('C10', configs=batch.cfg(lambda t, s: all_sigs(1) + all_sigs(2) + pick(all_sigs(3), 9, s) + pick(canon_sigs(4), 4, s), lambda s, k: ['g:0', 'g:1', 'even', 'g:%d' % len(s), 'g:0,%d' % len(s)] + random_specs(len(s), 4, k, hi=3), 3, 2))
def elementwise(env, sig, S, shapes):
    """batches: every element is treated as it is alone"""
    c = env.ctx(sig)
    batch.methods(env, batch.operands(env, c, S, shapes), ['inverse', 'motor_inverse', 'inverse_hitzer'], ['__truediv__'])
