"""Decompositions of bivectors and motors."""
import numpy as np

from vlib import batch
from vlib.engine import harness
from vlib.env import algebra
from vlib.ga import *
from vlib.sym import Sym, Unsupported
from checks.c11 import dispatches, unit_motor
from checks.c12 import fam, specs2, Contracts

META = dict(
    explanation='The real decompositions run on symbolic bivectors and unit motors (all of nonzero scalar part, by the outer exponential); '
                'the solver proves that the parts recompose and have the stated properties.',
    bounds='all bivectors/motors (arbitrary reals in the domain) in dimension 2..4 (motor splits in four dimensions: two free coordinates, '
           'or all with the Study root as an unknown), five dimensions: three free coordinates; all signatures of dimension <= 3, canonical 4 and 5',
    outside='float rounding; bivectors and motors at which a divisor vanishes', assumptions=['real arithmetic in place of float64'])


def cfg_inv(tier, seed):
    q = tier == 'quick'
    out = []
    for n in (2, 3):
        for i, s in enumerate(all_sigs(n)):
            out += [dict(sig=s, B=b, params=None) for b in specs2(n, 2 if q else 6, seed + i)]
    for i, s in enumerate(canon_sigs(4) + ['+++0', '0+++', '+---']):
        out += [dict(sig=s, B='g:2', params=None)] + [dict(sig=s, B=b, params=None) for b in specs2(4, 3 if q else 10, seed + i)[1:]]
    for i, s in enumerate(pick(canon_sigs(5), 6 if q else 21, seed) + ['++++-']):
        out += [dict(sig=s, B='g:2', params=3 if q else 5)] + [dict(sig=s, B=b, params=None) for b in specs2(5, 5, seed + i)[1:] if b.count(',') < 4]
    return out


@harness('C13', configs=cfg_inv)
def invariant(env, sig, B, params):
    """decompose_invariant: b = l + r; l and r commute, are simple and orthogonal"""
    c = env.ctx(sig)
    R = Ref(sig)
    b = fam(env, c, 'b', B, params)
    try:
        got = b.decompose_invariant()
    except ZeroDivisionError:
        return env.true(True)       # b b has no scalar part in this type
    except Exception as e:
        if 'No matching' not in str(e):
            raise
        return env.true(not b.squared().subspace.is_study, 'a rule exists for every bivector with a Study square')
    l, r = got
    env.eq(R.add(l, r), R.d(b), 'b = l + r')
    env.true(all(grade(int(k)) == 2 for m in (l, r) for k in m.subspace.blades), 'parts are bivectors')
    lr, rl = R.gp(l, r), R.gp(r, l)
    env.eq(lr, rl, 'parts commute')
    for m, n in ((l, 'l'), (r, 'r')):
        env.eq(R.select(R.gp(m, m), lambda k: k), {}, n + ' is simple')
    env.eq(R.inner(l, r), {}, 'parts are orthogonal')
    if len(l.subspace):
        env.defined(l, 'l')


@harness('C13', configs=cfg_inv)
def polar(env, sig, B, params):
    """decompose_polar: b = L s with L a unit bivector and s a Study number"""
    c = env.ctx(sig)
    R = Ref(sig)
    b = fam(env, c, 'b', B, params)
    q = b.symmetric_reverse_product()
    if 0 not in [int(k) for k in q.subspace.blades] or all(blade_product(R.m, int(k), int(k)) >= 0 for k in b.subspace.blades):
        return env.true(True)       # no bivector of this type has a real positive norm
    try:
        got = b.decompose_polar()
    except ZeroDivisionError:
        return env.true(True)
    except Exception as e:
        if 'No matching' not in str(e):
            raise
        return env.true(not b.squared().subspace.is_study, 'a rule exists for every bivector with a Study square')
    L, s = got
    env.defined(L, 'L')
    env.eq(R.gp(s, s), R.gp(b, R.reverse(b)), 's s = b ~b')
    env.eq(R.gp(L, s), R.d(b), 'b = L s')
    env.eq(R.gp(s, L), R.d(b), 'b = s L')
    env.true(all(grade(int(k)) == 2 for k in L.subspace.blades), 'L is a bivector')


@harness('C13', configs=lambda t, s: [dict(sig=x) for x in ('++', '+++', '++0', '+++0', '+++-', '++++', '0+', '+-')])
def polar_zero(env, sig):
    """the zero bivector, alone or inside a batch, decomposes into zeros"""
    c = env.ctx(sig)
    R = Ref(sig)
    S = sub(c.algebra, 'g:2')
    z = c.multivector(values=np.array([[Sym.const(0) if env.symbolic else 0.0] * len(S)] * 2), subspace=S)
    with env.floats(c):
        got = dispatches(lambda: z.decompose_polar())
        if got is None:
            return env.true(True)
        L, s = got
    env.finite(L, 'L of zero')
    env.finite(s, 's of zero')
    env.eq(s, {}, 's of zero')
    env.eq(R.gp(L, s), {}, 'L s = 0')


def cfg_rt(tier, seed):
    q = tier == 'quick'
    out = []
    for n in (2, 3):
        out += [dict(sig=s, params=None) for s in all_sigs(n)]
    for s in ['++00', '0+0+', '+-00', '+000', '0000', '0--0'] + ([] if q else ['+++00', '0+0+0', '++000']):
        out.append(dict(sig=s, params=3 if len(s) == 4 else 2))
    for s in [s for s in all_sigs(4) if s.count('0') == 1 and (not q or s.count('-') == 0 or hash(s) is None)] + ['++-0', '0+-+', '-0--', '++++', '+++-']:
        out.append(dict(sig=s, params=None if s in ('+++0', '0+++') else 3))
    for s in ['++++0', '0++++', '++0++'] + ([] if q else [s for s in canon_sigs(5) if s.count('0') == 1]):
        out.append(dict(sig=s, params=2))
    return out


@harness('C13', configs=cfg_rt, timeout=200)
def rotor_translator(env, sig, params):
    """m = motor_translator(m) motor_rotor(m) for unit motors; the translator is one plus degenerate parts, the rotor has none"""
    c = env.ctx(sig)
    R = Ref(sig)
    m = unit_motor(env, R, c, 'b', params)
    t, r = m.motor_translator(), m.motor_rotor()
    nulls = sum(1 << i for i in range(len(sig)) if sig[i] == '0')
    env.true(not any(int(k) & nulls for k in r.subspace.blades), 'the rotor has no degenerate part')
    env.true(all(k == 0 or k & nulls for k in map(int, t.subspace.blades)), 'the translator is one plus degenerate parts')
    if sig.count('0') == 1:
        env.true(all(k == 0 or grade(k) == 2 for k in map(int, t.subspace.blades)), 'the translator is 1 + degenerate bivector')
    env.eq(R.gp(t, r), R.d(m), 'm = t r')
    env.eq(R.gp(t, R.reverse(t)), {0: 1}, 't is a unit motor')
    env.eq(R.gp(r, R.reverse(r)), {0: 1}, 'r is a unit motor')


def cfg_split(tier, seed):
    q = tier == 'quick'
    out = []
    for n in (2, 3):
        for s in all_sigs(n):
            for i in range(n):
                out.append(dict(sig=s, o='b:%d' % (((1 << n) - 1) ^ 1 << i), params=None))
            out.append(dict(sig=s, o='g:%d' % (n - 1), params=None if n == 2 else 2))
            if n == 3:      # points off the origin, in types of two blades
                out += [dict(sig=s, o='b:%d,%d' % (7 ^ 1 << i, 7 ^ 1 << j), params=2) for i in range(n) for j in range(i) if '0' in (s[i], s[j])]
    for s in ['+++0', '0+++', '++0+', '-++0', '++++', '+++-', '-+++'] + ([] if q else canon_sigs(4)):
        for i in range(4):
            if s[i] == '0' or i in (0, 3):
                out.append(dict(sig=s, o='b:%d' % (15 ^ 1 << i), params=None if s == '+++0' else 3))
        if '0' in s:
            out.append(dict(sig=s, o='g:3', params=1))
            z = s.index('0')
            out += [dict(sig=s, o='b:%d,%d' % (15 ^ 1 << i, 15 ^ 1 << z), params=1) for i in range(4) if i != z]
    for s in ['++00', '0+0+', '+-00', '0000']:
        for i in range(4):
            if s[i] == '0':
                out.append(dict(sig=s, o='b:%d' % (15 ^ 1 << i), params=3))
    for s in ['++++0', '0++++', '+++++'] + ([] if q else canon_sigs(5)):
        for i in (0, 4):
            out.append(dict(sig=s, o='b:%d' % (31 ^ 1 << i), params=2))
    return out


@harness('C13', configs=cfg_split, timeout=200)
def split(env, sig, o, params):
    """motor_split(m, o): m = t r, both unit, r leaves o invariant"""
    c = env.ctx(sig)
    R = Ref(sig)
    S = sub(c.algebra, o)
    if len(S) > 1 and R.n >= 4:
        # a point off the origin
        v = [(0, 1, 2, 1)[i] for i in range(4)] if len(S) == 4 else [(3, 2, 1)[i % 3] for i in range(len(S))]
        p = c.multivector(values=np.array(v, dtype=object if env.symbolic else float), subspace=S)
    else:
        p = env.mv(c, 'o', S)
    # the origin has to be invertible, and to have a nonnull weight
    q = R.gp(p, p)
    nulls = sum(1 << i for i in range(len(sig)) if sig[i] == '0')
    full = (1 << len(sig)) - 1
    # the origins of a degenerate algebra need no division
    if not q and not all((full ^ int(k)) & nulls for k in S.blades):
        return env.true(True)
    m = unit_motor(env, R, c, 'b', params)
    got = dispatches(lambda: m.motor_split(p))
    if got is None:
        return env.true(True)
    t, r = got
    env.defined(t, 't')
    env.eq(R.gp(t, r), R.d(m), 'm = t r')
    env.eq(R.gp(R.gp(r, p), R.reverse(r)), R.d(p), 'r leaves the origin invariant')
    env.eq(R.gp(t, R.reverse(t)), {0: 1}, 't is a unit motor')


@harness('C13', configs=batch.cfg(lambda t, s: all_sigs(2) + pick(all_sigs(3), 9, s) + ['+++0', '++++', '++-0', '++00'], lambda s, k: ['g:2', 'even'] + specs2(len(s), 3, k)[1:], 3, 0))
def elementwise(env, sig, S, shapes):
    """batches: every element is treated as it is alone"""
    c = env.ctx(sig)
    batch.methods(env, batch.operands(env, c, S, shapes), ['decompose_invariant', 'decompose_polar', 'motor_translator', 'motor_rotor'], [])
