"""Dispatch and caches: histories with symbolic arguments and rule outcomes through the real dispatcher, operator cache and
flyweight pool; real operators after a history of other requests against freshly built ones on symbolic coefficients."""
import itertools
import random

import numpy as np

from vlib.bv import blade_harness
from vlib.engine import harness
from vlib.ga import *

META = dict(
    bounds='dispatcher: every history of at most 3 registrations and 3 calls (quick; 4 and 3 thorough) in every order, each rule an arbitrary '
           'boolean function of the argument attributes (4 attribute values, one or two arguments); caches: histories of 4 / 5 requests with '
           'symbolic arguments; real algebras: sampled histories of 30 requests, all coefficient values',
    outside='concurrent use from several threads; attributes that change during their lifetime',
    assumptions=['python dict semantics for keys with symbolic equality (equal keys hash alike)'],
)


class Bits:
    """domain of symbolic words for E.blades"""

    def __init__(self, n):
        self.n_dimensions, self.n_blades = n, 1 << n
        self.blade_dtype = np.dtype(np.uint8 if n <= 8 else np.uint16 if n <= 16 else np.uint32)


class Attr:
    """a hashable attribute whose equality the solver decides"""

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return 5

    def __eq__(self, o):
        return self is o or isinstance(o, Attr) and bool(self.v == o.v)

    def __repr__(self):
        return 'Attr(%s)' % self.v


class Arg:
    def __init__(self, a):
        self.subspace = a


def cfg_dispatch(tier, seed):
    """histories: R register at the end, 0 register in front, M register at position 1, A a rule that always matches, C call"""
    out = []
    r, c = (3, 3) if tier == 'quick' else (4, 3)
    hist = set()
    for regs in range(1, r + 1):
        for calls in range(1, c + 1):
            for w in set(itertools.permutations('R' * regs + 'C' * calls)):
                if w[-1] == 'C':
                    hist.add(''.join(w))
    rnd = random.Random(seed)
    hist = sorted(hist)
    for h in hist:
        for arity in (1, 2):
            k = h.count('R')
            variants = {h}
            for _ in range(2):
                variants.add(''.join(rnd.choice('RR0MA') if x == 'R' else x for x in h))
            out += [dict(history=v, arity=arity) for v in sorted(variants)]
    if tier == 'quick':
        small = [d for d in out if d['history'].count('C') <= 2]
        return small + pick([d for d in out if d['history'].count('C') > 2], 40, seed)
    return out


@blade_harness('C16', configs=cfg_dispatch, timeout=300)
def dispatch(E, history, arity):
    """a call runs the first rule, in the order of the list of rules at the time of the call, whose condition holds for the attributes"""
    from numga.dynamic_dispatch import SubspaceDispatch
    d = SubspaceDispatch('doc')

    class Host(Arg):
        method = d
    width = 4 if arity == 1 else 16
    order = []      # (rule, truth table), as registered
    n = 0
    for step, op in enumerate(history):
        if op == 'C':
            v = E.blades('k%d' % step, arity, Bits(2))
            args = [Host(Attr(v[i])) for i in range(arity)]
            index = v[0].astype(np.uint16) if arity == 1 else v[0].astype(np.uint16) * 4 + v[1].astype(np.uint16)
            try:
                got = args[0].method(*args[1:]) if step % 2 else d(*args)
            except Exception as e:
                if 'No matching implementation found' not in str(e):
                    raise
                got = None
            holds = [True if t is None else ((t >> index) & 1) != 0 for _, t in order]
            if got is None:
                for h in holds:
                    E.true(np.logical_not(h), 'an applicable rule was not found')
                continue
            pos = [i for i, _ in order].index(got)
            E.true(holds[pos], 'the rule that ran does not apply')
            for h in holds[:pos]:
                E.true(np.logical_not(h), 'an earlier rule applies')
        else:
            table = None if op == 'A' else E.blades('t%d' % n, 1, Bits(width))[0]

            def condition(*a, table=table):
                i = a[0].v.astype(np.uint16) if len(a) == 1 else a[0].v.astype(np.uint16) * 4 + a[1].v.astype(np.uint16)
                return ((table >> i) & 1) != 0
            kw = {} if op == 'A' else dict(condition=condition)
            if op in '0M':
                kw['position'] = int(op == 'M')

            def rule(*a, n=n):
                return n
            E.true(d.register(**kw)(rule) is rule, 'register returns the function')
            order.insert(kw.get('position', len(order)), (n, table))
            n += 1
    E.true(SubspaceDispatch.__get__(d, None, Host) is d, 'access through the class')


def cfg_objects(tier, seed):
    rnd = random.Random(seed)
    out = []
    for i in range(40 if tier == 'quick' else 150):
        arity = 1 + i % 4
        k = 2 if arity == 4 else 3
        base = [rnd.randrange(k) for _ in range(arity)]
        calls = []
        for _ in range(4 if tier == 'quick' else 6):
            rnd.shuffle(base)
            if rnd.random() < .3:
                base[rnd.randrange(arity)] = rnd.randrange(k)
            calls.append(list(base))
        out.append(dict(k=k, calls=calls, rules=1 + i % 3, late=rnd.random() < .3, sub=['numpy', 'subspace'][i % 2]))
    return out


@blade_harness('C16', configs=cfg_objects, timeout=200)
def dispatch_objects(E, k, calls, rules, late, sub):
    """calls with real multivectors, of one to four arguments in changing order: the first rule that holds for their types runs, with the
    arguments as given"""
    from numga.algebra.algebra import Algebra
    from numga.backend.numpy.context import NumpyContext
    from numga.dynamic_dispatch import SubspaceDispatch
    c = NumpyContext(Algebra('x+y+z0'))
    S = [c.subspace.scalar(), c.subspace.vector(), c.subspace.even_grade()][:k]
    # ids in an order that differs from the order of the list
    S = [s for _, s in sorted((id(s), s) for s in S)][::-1]
    M = [c.multivector(values=[1.0] * len(s), subspace=s) for s in S]
    arity = len(calls[0])
    d = SubspaceDispatch('doc')
    size = k ** arity
    tables = [E.blades('t%d' % i, (size + 31) // 32, Bits(32)) for i in range(rules)]
    pos = lambda subs: sum(S.index(s) * k ** i for i, s in enumerate(subs))

    def add(i):
        def condition(*subs):
            p = pos(subs)
            return ((tables[i][p // 32] >> np.uint32(p % 32)) & np.uint32(1)) != 0

        @d.register(condition)
        def rule(*args):
            return i, args
    for i in range(rules - late):
        add(i)
    for n, call in enumerate(calls):
        if late and n == len(calls) // 2:
            add(rules - 1)
        args = [M[j] for j in call]
        have = rules - (late and n < len(calls) // 2)
        holds = []
        p = pos([m.subspace for m in args])
        for i in range(have):
            holds.append(((tables[i][p // 32] >> np.uint32(p % 32)) & np.uint32(1)) != 0)
        try:
            got, given = d(*args)
        except Exception as e:
            if 'No matching implementation found' not in str(e):
                raise
            for h in holds:
                E.true(np.logical_not(h), 'an applicable rule was not found')
            continue
        E.true(len(given) == arity and all(a is b for a, b in zip(given, args)), 'arguments as given')
        E.true(holds[got], 'the rule that ran does not apply')
        for h in holds[:got]:
            E.true(np.logical_not(h), 'an earlier rule applies')


def cfg_cache(tier, seed):
    rnd = random.Random(seed)
    out = []
    k = 4 if tier == 'quick' else 5
    for i in range(24 if tier == 'quick' else 80):
        out.append(dict(requests=[[rnd.choice(['product', 'wedge']), rnd.choice([1, 2, 2]), rnd.choice([0, 0, 1, 2])] for _ in range(k)], factory=rnd.choice([0, 0, 1])))
    return out


@blade_harness('C16', configs=cfg_cache, timeout=300)
def operator_cache(E, requests, factory):
    """whatever was requested before, the concrete operator is of the requested name, arguments and operator type"""
    from numga.context import ConcreteOperatorFactory

    class Abstract:
        def __getattr__(self, name):
            return lambda *args: (name, args)

    class Algebra:
        operator = Abstract()

    class Context:
        algebra = Algebra()

    class Concrete:
        def __init__(self, context, op):
            self.context, self.op = context, op

    def alike():
        class Concrete_(Concrete):
            pass
        return Concrete_
    types = [type('First', (Concrete,), {}), alike(), alike()]      # the last two even share their printed name
    contexts = [Context(), Context()]
    for c in contexts:
        c.factory = ConcreteOperatorFactory(c)
    for step, (name, arity, t) in enumerate(requests):
        c = contexts[step % 2 if factory else 0]
        c.otype = types[t]
        v = E.blades('k%d' % step, arity, Bits(2))
        args = tuple(Attr(v[i]) for i in range(arity))
        got = getattr(c.factory, name)(*args)
        E.true(type(got) is types[t], 'operator type')
        E.true(got.context is c, 'context')
        E.true(got.op[0] == name and len(got.op[1]) == arity, 'operator name')
        for a, b in zip(got.op[1], args):
            E.true(a.v == b.v, 'operator arguments')


@blade_harness('C16', configs=lambda t, s: [dict(k=k) for k in range(1, 5 if t == 'quick' else 6)], timeout=300)
def flyweight(E, k):
    """the pool returns one object per key, built once, for that key"""
    from numga.flyweight import FlyweightFactory, FlyweightMixin
    f = FlyweightFactory()
    v = E.blades('k', k, Bits(3))

    class Value(FlyweightMixin):
        def __init__(self, key):
            self.key = key
    seen = []
    for i in range(k):
        key = Attr(v[i])
        o = f.factory_construct(key, lambda: Value(key))
        E.true(o.key.v == v[i], 'object of another key')
        for key2, p in seen:
            E.true((v[i] == key2) == (p is o), 'one object per key')
            E.true((p == o) == (p is o), 'equality is identity')
        seen.append((v[i], o))


@blade_harness('C16', configs=lambda t, s: [dict(k=k) for k in (2, 3, 4)], timeout=300)
def memo(E, k):
    """numga.util.cache on methods: results belong to the instance and the arguments of the call"""
    from numga.util import cache, cached_property

    class Owner:
        def __init__(self, tag):
            self.tag = tag

        @cache
        def f(self, *a):
            return self.tag, a

        @cached_property
        def p(self):
            return self.tag
    owners = [Owner(0), Owner(1)]
    v = E.blades('k', k, Bits(2))
    for i in range(k):
        for o in owners:
            tag, a = o.f(Attr(v[i]))
            E.true(tag == o.tag and o.p == o.tag, 'result of another instance')
            E.true(a[0].v == v[i], 'result of other arguments')


# ---------------------------------------------------------------- real caches

UNARY = ['reverse', 'involute', 'conjugate', 'scalar_negation', 'pseudoscalar_negation', 'right_hodge', 'left_hodge', 'right_complement', 'left_complement',
         'right_dual', 'squared', 'symmetric_reverse_product', 'inverse_factor', 'identity']
BINARY = ['product', 'wedge', 'inner', 'left_contract', 'right_contract', 'regressive', 'anti_product', 'commutator_product', 'reverse_product', 'involute_product',
          'sandwich', 'transform', 'scalar_product', 'bivector_product', 'select', 'restrict']
PROPS = ['is_subalgebra', 'minimal_subalgebra', 'minimal_exponential', 'simplicity', 'is_degenerate', 'in_even', 'in_self_reverse', 'is_study', 'named_str', 'bit_str', 'pretty_str']


def cfg_history(tier, seed):
    out = []
    for i, s in enumerate(['+', '++', '+-', '+0', '+++', '++0', '+-0', '0--'] + pick(canon_sigs(4), 6 if tier == 'quick' else 20, seed)):
        for k in range(2 if tier == 'quick' else 6):
            out.append(dict(sig=s, seed=seed * 100 + 10 * i + k))
    return out


def requests(rnd, n, count):
    specs = ['g:%d' % i for i in range(n + 1)] + ['even', 'odd', 'full', 'empty'] + random_specs(n, 3, rnd.randrange(10 ** 6), hi=4)
    out = []
    for _ in range(count):
        kind = rnd.choice('uubbbbpo')
        if kind == 'u':
            out.append(('u', rnd.choice(UNARY), rnd.choice(specs), None))
        elif kind == 'b':
            out.append(('b', rnd.choice(BINARY), rnd.choice(specs), rnd.choice(specs)))
        elif kind == 'p':
            out.append(('p', rnd.choice(PROPS), rnd.choice(specs), None))
        else:
            out.append(('o', rnd.choice(['intersection', 'union', 'difference', 'product', 'wedge', 'inner']), rnd.choice(specs), rnd.choice(specs)))
    return out


def answer(env, c, req, x=None, y=None):
    """what a request yields, as data that can be compared between algebras"""
    kind, name, X, Y = req
    A = sub(c.algebra, X)
    B = sub(c.algebra, Y) if Y is not None else None
    if kind == 'p':
        v = getattr(A, name)
        return tuple(map(int, v.blades)) if hasattr(v, 'blades') else v
    if kind == 'o':
        return tuple(map(int, getattr(A, name)(B).blades))
    try:
        op = getattr(c.operator, name)(*([A] if B is None else [A, B]))
    except Exception as e:
        return 'raises %s' % type(e).__name__
    return op


@harness('C16', configs=cfg_history)
def histories(env, sig, seed):
    """after any history of requests on one algebra (three contexts, changing operator types), each request answers like on a fresh algebra"""
    from numga.algebra.algebra import Algebra
    from numga.algebra.description import AlgebraDescription
    from numga.backend.numpy.context import NumpyContext
    from numga.backend.numpy.operator import NumpyEinsumOperator, NumpySparseOperator
    rnd = random.Random(seed)
    n = len(sig)
    kw = dict(dtype=object) if env.symbolic else {}
    new = lambda: Algebra(AlgebraDescription.from_signature(sig))
    types = [NumpyEinsumOperator, NumpySparseOperator]
    used = new()
    ctx = [NumpyContext(used, otype=t, **kw) for t in types + types[:1]]
    other = NumpyContext(Algebra(AlgebraDescription.from_signature(sig[::-1])), **kw)
    reqs = requests(rnd, n, 30)
    coeff = lambda c, name, s: env.mv(c, name, s)
    history = reqs + rnd.sample(reqs, len(reqs))
    for i, r in enumerate(history):
        c = rnd.choice(ctx)
        if rnd.random() < .3:
            c.otype = rnd.choice(types)
        if rnd.random() < .2:
            answer(env, other, r)
        if i < len(reqs):
            answer(env, c, r)
            continue
        fresh = NumpyContext(new(), otype=c.otype, **kw)
        a, b = answer(env, c, r), answer(env, fresh, r)
        label = '%s %s(%s, %s)' % (r[0], r[1], r[2], r[3])
        if not hasattr(a, 'operator') or not hasattr(b, 'operator'):
            env.true((a == b) is True, label)
            continue
        env.true(type(a) is c.otype and type(b) is c.otype, label + ' operator type')
        ins = [tuple(map(int, s.blades)) for s in a.operator.axes]
        env.true(ins == [tuple(map(int, s.blades)) for s in b.operator.axes], label + ' axes')
        if not all(len(s) for s in ins):
            continue
        args = [env.mv(c, 'x%d' % k, s) for k, s in enumerate(a.operator.axes[:-1])]
        args2 = [env.mv(fresh, 'x%d' % k, s) for k, s in enumerate(b.operator.axes[:-1])]
        env.eq(a(*args), b(*args2), label)


@harness('C16', configs=cfg_history)
def isolation(env, sig, seed):
    """two algebras of different signature used in turns never see each other's products"""
    rnd = random.Random(seed)
    sig2 = ''.join(rnd.choice([c for c in '+-0' if c != s]) for s in sig)
    c1, c2 = env.ctx(sig), env.ctx(sig2)
    for X, Y in [('full', 'full'), ('g:1', 'g:1'), ('even', 'g:%d' % (len(sig) // 2))]:
        for c, s in ((c1, sig), (c2, sig2), (c1, sig)):
            R = Ref(s)
            x, y = env.mv(c, 'x' + s, sub(c.algebra, X)), env.mv(c, 'y' + s, sub(c.algebra, Y))
            env.eq(x * y, R.gp(x, y), s + ' product')
            env.eq(x ^ y, R.wedge(x, y), s + ' wedge')
            env.true((x * y).context is c and (x * y).algebra is c.algebra, 'context of the result')
    env.true(c1.algebra.subspace.vector() is not c2.algebra.subspace.vector(), 'subspaces are of their algebra')
    env.true(c1.algebra.subspace.full() != c2.algebra.subspace.full(), 'and never equal across algebras')


@harness('C16', configs=cfg_history)
def rules(env, sig, seed):
    """the rules of the library's own dispatched methods choose alike on a used and on a fresh algebra, first match first"""
    from numga.algebra.algebra import Algebra
    from numga.algebra.description import AlgebraDescription
    from numga.dynamic_dispatch import DynamicDispatch
    from numga.multivector.multivector import AbstractMultiVector
    from numga.multivector import extension
    rnd = random.Random(seed)
    n = len(sig)
    methods = {k: d for k, d in vars(AbstractMultiVector).items() if isinstance(d, DynamicDispatch)}
    env.true(len(methods) > 10, 'dispatched methods found')
    used, specs = Algebra(AlgebraDescription.from_signature(sig)), ['g:%d' % i for i in range(n + 1)] + ['even', 'odd', 'full', 'empty'] + random_specs(n, 3, seed, hi=4)
    tagged = {}
    for k, d in methods.items():
        t = type(d)()
        for i, (cond, f) in enumerate(d.options):
            t.register(cond)(lambda *a, i=i: i)
        tagged[k] = t

    def run(t, args):
        try:
            return t(*args)
        except Exception as e:
            return type(e).__name__
    for step in range(120):
        k = rnd.choice(sorted(methods))
        arity = max([getattr(getattr(cond, '__code__', None), 'co_argcount', 1) for cond, f in methods[k].options] + [1])
        X = [rnd.choice(specs) for _ in range(max(arity, 1))]
        fresh = Algebra(AlgebraDescription.from_signature(sig))
        got = run(tagged[k], [Arg(sub(used, x)) for x in X])
        want = None
        S = [sub(fresh, x) for x in X]
        for i, (cond, f) in enumerate(methods[k].options):
            try:
                hit = cond(*S)
            except Exception as e:
                want = type(e).__name__
                break
            if hit:
                want = i
                break
        else:
            want = 'Exception'
        env.true(got == want, '%s(%s): rule %s, first match is %s' % (k, X, got, want))
