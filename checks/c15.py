"""Subspaces: canonical order, identity and set operations for symbolic blades (every path of the real factory code), closures."""
import itertools
import random

import numpy as np

from vlib.bv import blade_harness
from vlib.engine import harness, custom
from vlib.ga import *
from checks.c01 import metric_algebra

META = dict(
    bounds='sets of at most 4 (quick) / 5 (thorough) symbolic blades in 1..17 dimensions with every diagonal metric; '
           'named constructors against every blade in up to 8 dimensions; closures of sampled subspaces of up to 5 dimensions',
    outside='larger symbolic blade sets; more than 17 dimensions',
    assumptions=['numpy integer ufuncs, sorting and set semantics as modelled in vlib/bv.py'],
)


def within(blades, x):
    """is x one of these blades"""
    if len(blades) == 0:
        return x != x
    return (blades == x).any() if not isinstance(blades, np.ndarray) or not isinstance(x, np.ndarray) else np.any(blades == x)


def distinct(E, *bs):
    for b in bs:
        for i, j in itertools.combinations(range(len(b)), 2):
            E.assume(b[i] != b[j])


def popcount(x, n):
    return sum(((x >> k) & 1).astype(np.int64) for k in range(n))


def abstract_grade(E, alg, n):
    """sorting by grade must be right whatever the grades are: above four dimensions, the solver sees an arbitrary function"""
    if n > 4:
        from vlib.bv import opaque
        alg.grade = opaque(E, alg.grade, 'grade')


def canonical(E, s, n, label):
    b = s.blades
    gr = s.algebra.grade(b)         # that this is the number of generators is an obligation of its own (grades, C01, C02)
    for i in range(len(b) - 1):
        g, h = gr[i], gr[i + 1]
        E.true((g < h) | ((g == h) & (b[i] < b[i + 1])), label + ' is ordered by grade, then blade, without repetition')


def cfg_perm(tier, seed):
    out = []
    for n in [2, 3, 8, 9, 16, 17] if tier == 'quick' else [2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 24]:
        for k in range(1, 4 if tier == 'quick' or n > 4 else 5):
            if n < 31 and k <= 2 ** n:
                perms = list(itertools.permutations(range(k)))
                for p in random.Random(seed * 7 + n).sample(perms, min(len(perms), 2)):
                    out.append(dict(n=n, k=k, perm=list(p), other=k <= 2 or n <= 3 and tier != 'quick'))
    return out


@blade_harness('C15', configs=cfg_perm, pool=True)
def identity(E, n, k, perm, other):
    """the same set of blades in any order is the same object, in canonical order; other sets are other objects"""
    alg, neg, zero = metric_algebra(E, n)
    abstract_grade(E, alg, n)
    a = E.blades('a', k, alg)
    distinct(E, a)
    s, t = alg.subspace.from_blades(a), alg.subspace.from_blades([a[i] for i in perm])
    E.true(s is t and s == t and hash(s) == hash(t), 'same object whatever the order')
    E.true(len(s) == k and len(s.blades) == k, 'no blade lost')
    canonical(E, s, n, 'subspace')
    for i in range(k):
        E.true(within(s.blades, a[i]), 'every blade is in the subspace')
    E.true(alg.subspace.from_blades(a) is s, 'still the same object')
    if not other:
        return
    b = E.blades('b', k, alg)
    distinct(E, b)
    u = alg.subspace.from_blades(b)
    same = True
    for i in range(k):
        same = within(a, b[i]) & same
    E.true(same == (u is s), 'distinct sets are distinct objects')
    E.true(same == (u == s), 'equality is equality of sets')
    E.true(alg.subspace.from_blades(a) is s, 'still the same object')


def cfg_sets(tier, seed):
    ns = [2, 3, 8, 9, 17] if tier == 'quick' else [2, 3, 4, 5, 8, 9, 12, 16, 17, 24]
    sizes = [(0, 2), (1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 1), (1, 3), (3, 2)] if tier != 'quick' else [])
    return [dict(n=n, i=i, j=j) for n in ns for i, j in sizes if tier != 'quick' or i + j < 4 or n in (3, 17)]


@blade_harness('C15', configs=cfg_sets, pool=True, timeout=600)
def lattice(E, n, i, j):
    """union, intersection, difference and containment are those of the blade sets"""
    alg, neg, zero = metric_algebra(E, n)
    abstract_grade(E, alg, n)
    f = alg.subspace
    a, b, x = E.blades('a', i, alg), E.blades('b', j, alg), E.blades('x', 1, alg)[0]
    distinct(E, a, b)
    A = f.from_blades(a) if i else f.empty()
    B = f.from_blades(b)
    ia, ib = within(a, x), within(b, x)
    for name, want in dict(union=ia | ib, intersection=ia & ib, difference=ia & ~ib, restrict_subspace=ia & ib, select_subspace=ib).items():
        s = getattr(A, name)(B)
        E.true(within(s.blades, x) == want, name)
        canonical(E, s, n, name)
    E.true(A.restrict(B) is A.intersection(B), 'restrict(space)')
    E.true(A.select(B) is B, 'select(space)')
    sub_ = True
    for k in range(i):
        sub_ = within(b, a[k]) & sub_
    E.true(sub_ == (A in B), 'containment')
    E.true(sub_ == A.is_subspace(B), 'is_subspace')
    E.true(sub_ == A.inside(B), 'inside(space)')
    E.true((sub_ & (i == j)) == A.equals(B), 'equals(space)')
    E.true(A.union(B) is B.union(A) and A.intersection(B) is B.intersection(A), 'commutative')
    E.true((A in A) and (A.intersection(B) in A) and (A in A.union(B)), 'order')


@blade_harness('C15', configs=lambda t, s: [dict(n=n) for n in ([1, 2, 3, 5, 8, 9, 16, 17] if t == 'quick' else range(1, 18))])
def grades(E, n):
    """the grade of a blade is the number of its generators"""
    alg, neg, zero = metric_algebra(E, n)
    a = E.blades('a', 1, alg)
    E.true(alg.grade(a)[0] == popcount(a[0], n), 'grade')


@blade_harness('C15', configs=lambda t, s: [dict(n=n, k=k) for n in ([1, 3, 8, 9] if t == 'quick' else [1, 2, 3, 5, 8, 9, 12, 16, 17]) for k in (0, 1, 2) if k <= 2 ** n], pool=True)
def parts(E, n, k):
    """complement, degenerate parts, slices and indices, for every metric"""
    alg, neg, zero = metric_algebra(E, n)
    if n > 8:
        abstract_grade(E, alg, n)
    f = alg.subspace
    a, x = E.blades('a', k, alg), E.blades('x', 1, alg)[0]
    distinct(E, a)
    S = f.from_blades(a) if k else f.empty()
    full = np.array(alg.n_blades - 1, dtype=alg.blade_dtype)
    if n <= 8:
        C = S.complement()
        E.true(within(C.blades, x) == within(a, x ^ full), 'complement')
        canonical(E, C, n, 'complement')
        E.true(C.complement() is S, 'complement twice')
    z = (x & zero) != 0
    E.true(within(S.degenerate().blades, x) == (within(a, x) & z), 'degenerate')
    E.true(within(S.nondegenerate().blades, x) == (within(a, x) & ~z), 'nondegenerate')
    if n <= 8:
        E.true(within(S.scalar_degenerate().blades, x) == ((within(a, x) & z) | (x == 0)), 'scalar_degenerate')
    E.true(S.degenerate().union(S.nondegenerate()) is S, 'the two parts make up the whole')
    E.true(len(S.degenerate().intersection(S.nondegenerate())) == 0, 'and are disjoint')
    E.true(S.is_empty == (k == 0) if n <= 8 else True, 'is_empty')
    E.true(S.is_degenerate == (S.degenerate() is S), 'is_degenerate')
    for i in range(k):
        E.true(S.grades()[i] == alg.grade(S.blades)[i], 'grades')
        one = S.slice_subspace(np.array([i]))
        E.true(len(one) == 1 and one.is_blade, 'slice of one')
        E.true(one.blades[0] == S.blades[i], 'slice')
        E.true(one.grade() == alg.grade(S.blades)[i], 'grade')
        E.true(S.to_relative_indices(one.blades)[0] == i, 'relative index')
    if k > 1:
        E.true(S.slice_subspace(np.array([1, 0])) is S, 'slicing everything')
        r = S.to_relative_indices(S.blades[::-1])
        E.true(list(r) == list(range(k))[::-1], 'relative indices')


GRADES = dict(
    scalar=lambda g, n: g == 0, vector=lambda g, n: g == 1, bivector=lambda g, n: g == 2, trivector=lambda g, n: g == 3, quadvector=lambda g, n: g == 4,
    pseudoscalar=lambda g, n: g == n, antiscalar=lambda g, n: g == n, antivector=lambda g, n: g == n - 1, antibivector=lambda g, n: g == n - 2,
    antitrivector=lambda g, n: g == n - 3, antiquadvector=lambda g, n: g == n - 4, scalar_pseudoscalar=lambda g, n: (g == 0) | (g == n),
    nonscalar=lambda g, n: g != 0, multivector=lambda g, n: g >= 0, full=lambda g, n: g >= 0, empty=lambda g, n: g < 0, even_grade=lambda g, n: g & 1 == 0,
    motor=lambda g, n: g & 1 == 0, self_involute=lambda g, n: g & 1 == 0, odd_grade=lambda g, n: g & 1 == 1, self_reverse=lambda g, n: g & 2 == 0, mod4=lambda g, n: g & 3 == 0)
LEAST = dict(bivector=2, trivector=3, quadvector=4, antibivector=2, antitrivector=3, antiquadvector=4)


@blade_harness('C15', configs=lambda t, s: [dict(n=n) for n in range(1, 9 if t == 'quick' else 11)])
def named(E, n):
    """each named constructor holds exactly the blades of its grades, for every blade"""
    alg, neg, zero = metric_algebra(E, n)
    f = alg.subspace
    x = E.blades('x', 1, alg)[0]
    g = popcount(x, n)
    for name, rule in GRADES.items():
        if n < LEAST.get(name, 1):
            continue
        s = getattr(f, name)()
        E.true(within(s.blades, x) == rule(g, n), name)
        E.true(s is getattr(f, name)(), name + ' is cached')
    for k in range(n + 1):
        E.true(within(f.k_vector(k).blades, x) == (g == k), 'k_vector')
        E.true(f.k_vector(k - n - 1) is f.k_vector(k), 'k_vector counts from either end')
        E.true(f.from_grades([k]) is f.k_vector(k), 'from_grades')
    for k in range(n):
        E.true(within(f.from_grades([k, n]).blades, x) == ((g == k) | (g == n)), 'from_grades of two')
        E.true(f.from_grades([n, k]) is f.from_grades([k, n]), 'order of grades')
    full = f.multivector()
    E.true(len(full) == 2 ** n, 'size of the algebra')
    for i, b in enumerate(f.basis()):
        E.true(len(b) == 1 and int(b.blades[0]) == 1 << i, 'basis')
    # namespaces: same answer as the constructor they name
    for s in [f.vector(), f.even_grade(), f.multivector(), f.empty(), f.from_grades([0, n])]:
        for name, rule in GRADES.items():
            if n < LEAST.get(name, 1):
                continue
            t = getattr(f, name)()
            E.true(getattr(s.inside, name)() == (s in t), 'inside.' + name)
            E.true(getattr(s.equals, name)() == (s is t), 'equals.' + name)
            E.true(getattr(s.restrict, name)() is s.intersection(t), 'restrict.' + name)
            E.true(getattr(s.select, name)() is t, 'select.' + name)
        for k in range(n + 1):
            t = f.k_vector(k)
            E.true(s.select[k] is t, 'select[k]')
            E.true(s.restrict[k] is s.intersection(t), 'restrict[k]')
            E.true(s.restrict[k, n] is s.intersection(f.from_grades([k, n])) if k < n else True, 'restrict[j, k]')
            E.true(s.select[0, k] is f.from_grades([0, k]) if k else True, 'select[j, k]')
            E.true(s.inside.k_vector(k) == (s in t), 'inside.k_vector')
        E.true(s.in_even == (s in f.even_grade()) and s.in_odd == (s in f.odd_grade()) and s.is_even == (s is f.even_grade())
               and s.is_odd == (s is f.odd_grade()) and s.is_empty == (len(s) == 0) and s.in_self_reverse == (s in f.self_reverse()), 'flags')


def cfg_metric(tier, seed):
    return [dict(sig=s) for s in all_sigs(1) + all_sigs(2) + all_sigs(3) + (pick(all_sigs(4), 20, seed) if tier == 'quick' else all_sigs(4) + canon_sigs(5))]


@blade_harness('C15', configs=cfg_metric)
def metric_named(E, sig):
    """degenerate, nondegenerate, rotor, translator and k-reflection subspaces, for every blade"""
    from vlib.env import algebra
    alg = algebra(sig)
    n, f = len(sig), alg.subspace
    x = E.blades('x', 1, alg)[0]
    g = popcount(x, n)
    zmask = sum(1 << i for i, c in enumerate(sig) if c == '0')
    z = (x & np.array(zmask, dtype=alg.blade_dtype)) != 0
    E.true(within(f.degenerate().blades, x) == z, 'degenerate')
    E.true(within(f.nondegenerate().blades, x) == ~z, 'nondegenerate')
    E.true(within(f.scalar_degenerate().blades, x) == (z | (x == 0)), 'scalar_degenerate')
    E.true(within(f.rotor().blades, x) == (~z & (g & 1 == 0)), 'rotor')
    for k, name in enumerate(['', 'reflection', 'bireflection', 'trireflection', 'quadreflection']):
        # products of k vectors: grades k, k-2, .. down to 0 or 1, those that a non-zero contraction reaches
        s = f.k_reflection(k)
        if name:
            E.true(getattr(f, name)() is s, name)
        nz = n - bin(zmask).count('1')
        low = (g <= k) & ((g & 1) == k % 2)
        E.true(~within(s.blades, x) | low, 'a product of k vectors has grades up to k of its parity')
        zx = sum((((x & np.array(zmask, dtype=alg.blade_dtype)) >> i) & 1).astype(np.int64) for i in range(n))
        # g - other generators pair up: (k - g)/2 contracted pairs need a non-degenerate generator
        E.true(within(s.blades, x) == (low & ((g == k) | (nz > 0))), 'k-reflection')
    if n >= 2:
        bi = f.bireflection()
        E.true(within(f.translator().blades, x) == (within(bi.blades, x) & ~(~z & (g == 2))), 'translator')


def cfg_closure(tier, seed):
    out = []
    for s in ['+', '-', '0', '++', '+-', '+0', '0-', '+++', '+-0', '++0', '---'] + pick(canon_sigs(4), 5 if tier == 'quick' else 15, seed) + (['+++-0'] if tier != 'quick' else []):
        specs = ['g:1', 'even', 'empty', 'g:%d' % len(s)] + random_specs(len(s), 4 if tier == 'quick' else 10, seed, hi=3)
        out += [dict(sig=s, X=x) for x in specs]
    return out


@custom('C15', 'closures', cfg_closure, 300)
def closures(task, sig, X, replay=None):
    """minimal_subalgebra / minimal_exponential: closed, and contained in every closed set that contains the subspace"""
    import z3
    from vlib.env import algebra
    from numga.subspace.subspace import SubSpace
    alg = algebra(sig)
    S = sub(alg, X)
    N = alg.n_blades

    def sign(i, j):
        return blade_product(tuple(metric(sig)), i, j)
    M, P = S.minimal_subalgebra, S.minimal_exponential
    T = [z3.Bool('t%d' % i) for i in range(N)]
    out = []
    task.stats.add('obligations', 5)
    for name, m, start, rule in [
            ('minimal_subalgebra', M, set(map(int, S.blades)), lambda i, j: sign(i, j) != 0),
            ('minimal_exponential', P, set(map(int, S.blades)) | {0}, lambda i, j: sign(i, j) + sign(j, i) != 0)]:
        inm = set(map(int, m.blades))
        pairs = [(i, j) for i in range(N) for j in range(N) if rule(i, j)]
        closed = lambda t: [z3.Implies(z3.And(t[i], t[j]), t[i ^ j]) for i, j in pairs]
        has = [z3.BoolVal(i in inm) for i in range(N)]
        s = z3.Solver()
        task.stats.add('queries', 2)
        s.add(z3.Not(z3.And(closed(has) + [has[i] for i in start])))
        if s.check() == z3.sat:
            out.append(name + ' does not contain the subspace or is not closed')
        s = z3.Solver()
        s.add(closed(T) + [T[i] for i in start] + [z3.Or([z3.And(h, z3.Not(t)) for h, t in zip(has, T)])])
        if s.check() == z3.sat:
            out.append(name + ' is not the smallest closed set: %s' % sorted(i for i in inm if z3.is_false(s.model().eval(T[i]))))
        task.stats.add('nontrivial', 2)
    closed = all((i ^ j) in set(map(int, S.blades)) for i in map(int, S.blades) for j in map(int, S.blades) if sign(i, j) != 0)
    if bool(S.is_subalgebra) != closed:
        out.append('is_subalgebra is %s' % S.is_subalgebra)
    task.stats.add('discharged', 5 - len(out))
    for o in out:
        task.violations.append(dict(label=o, message=o, values={}) if replay is None else o)


@harness('C15', configs=cfg_closure)
def simple(env, sig, X):
    """what is reported simple does reduce to a scalar: x * involution(x) has no other part, for all coefficients"""
    c = env.ctx(sig)
    R = Ref(sig)
    S = sub(c.algebra, X)
    x = env.mv(c, 'x', S)
    scalar = c.algebra.subspace.scalar()
    env.true(S.is_n_simple(0) == (S in scalar), '0-simple means scalar')
    hit = False
    one = False
    for name in ['squared', 'reverse', 'involute', 'conjugate', 'scalar_negation', 'pseudoscalar_negation']:
        if getattr(S, 'is_%s_n_simple' % name)(1):
            one = True
            y = x if name == 'squared' else getattr(R, name)(x)
            p = R.gp(x, y)
            env.eq({k: v for k, v in p.items() if k}, {}, name + ' product is scalar')
    env.true(bool(S.is_n_simple(1)) == one, 'is_n_simple(1) is one of the products')
    env.true(S.simplicity != 1 or one, 'simplicity 1 is reported for one product')
    env.true((S.simplicity == 0) == (S in scalar), 'simplicity 0 is reported for scalars only')
    env.true(S.is_study == S.is_scalar_negation_n_simple(1), 'is_study')
