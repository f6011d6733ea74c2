"""Independent reference geometric algebra on {blade bitmask: coefficient} dicts,
written from the textbook definition (sort by adjacent transpositions, contract
equal neighbours with the metric); plus configuration families."""
import itertools
import random
from fractions import Fraction

from vlib.env import aslists, is_mv

SGN = {'+': 1, '-': -1, '0': 0}


def metric(sig):
    if set(sig) <= set('+-0'):
        return [SGN[c] for c in sig]
    return [SGN[c] for c in sig if c in SGN]


_cache = {}


def blade_product(m, a, b):
    """sign of e_a e_b over metric tuple m; resulting blade is a ^ b"""
    key = (m, a, b)
    r = _cache.get(key)
    if r is None:
        word = [i for i in range(len(m)) if a >> i & 1] + [i for i in range(len(m)) if b >> i & 1]
        s = 1
        done = False
        while not done:
            done = True
            i = 0
            while i + 1 < len(word):
                if word[i] > word[i + 1]:
                    word[i], word[i + 1] = word[i + 1], word[i]
                    s = -s
                    done = False
                elif word[i] == word[i + 1]:
                    s *= m[word[i]]
                    del word[i:i + 2]
                    done = False
                    continue
                i += 1
        r = _cache[key] = s
    return r


def grade(b):
    return bin(b).count('1')


class Ref:
    def __init__(self, sig):
        self.sig = sig
        self.m = tuple(metric(sig))
        self.n = len(self.m)
        self.I = (1 << self.n) - 1
        self.pos = tuple([1] * self.n)

    @staticmethod
    def d(x):
        return aslists(x) if is_mv(x) else x

    def bilinear(self, x, y, sign):
        x, y = self.d(x), self.d(y)
        out = {}
        for a, u in x.items():
            for b, v in y.items():
                s = sign(a, b)
                if s:
                    k = a ^ b
                    t = u * v * s
                    out[k] = out[k] + t if k in out else t
        return out

    def gp(self, x, y, keep=lambda l, r, o: True):
        return self.bilinear(x, y, lambda a, b: blade_product(self.m, a, b) if keep(grade(a), grade(b), grade(a ^ b)) else 0)

    def wedge(self, x, y):
        return self.bilinear(x, y, lambda a, b: blade_product(self.pos, a, b) if not a & b else 0)

    def inner(self, x, y):
        return self.gp(x, y, lambda l, r, o: abs(l - r) == o)

    def lc(self, x, y):
        return self.gp(x, y, lambda l, r, o: r - l == o)

    def rc(self, x, y):
        return self.gp(x, y, lambda l, r, o: l - r == o)

    def sp(self, x, y):
        return self.gp(x, y, lambda l, r, o: o == 0)

    def map(self, x, f):
        """f: blade -> (sign, blade)"""
        out = {}
        for b, v in self.d(x).items():
            s, k = f(b)
            if s:
                t = v * s
                out[k] = out[k] + t if k in out else t
        return out

    def reverse(self, x):
        return self.map(x, lambda b: ((-1) ** (grade(b) * (grade(b) - 1) // 2), b))

    def involute(self, x):
        return self.map(x, lambda b: ((-1) ** grade(b), b))

    def conjugate(self, x):
        return self.involute(self.reverse(x))

    def scalar_negation(self, x):
        return self.map(x, lambda b: (1 if b == 0 else -1, b))

    def pseudoscalar_negation(self, x):
        """grades 0 and n are kept, all others negated"""
        return self.map(x, lambda b: (1 if grade(b) in (0, self.n) else -1, b))

    def rcd(self, x):
        """x ^ rcd(x) = I per blade"""
        return self.map(x, lambda b: (blade_product(self.pos, b, self.I ^ b), self.I ^ b))

    def lcd(self, x):
        return self.map(x, lambda b: (blade_product(self.pos, self.I ^ b, b), self.I ^ b))

    def neg(self, b):
        return (-1) ** sum(1 for i in range(self.n) if b >> i & 1 and self.m[i] < 0)

    def rhodge(self, x):
        return self.map(x, lambda b: (self.neg(b) * blade_product(self.pos, b, self.I ^ b), self.I ^ b))

    def lhodge(self, x):
        return self.map(x, lambda b: (self.neg(b) * blade_product(self.pos, self.I ^ b, b), self.I ^ b))

    def nd(self):
        """metric with the degenerate directions read as +1"""
        return tuple(1 if v == 0 else v for v in self.m)

    def rcomp(self, x):
        """x * I, degenerate directions read as +1"""
        return self.map(x, lambda b: (blade_product(self.nd(), b, self.I), self.I ^ b))

    def lcomp(self, x):
        return self.map(x, lambda b: (blade_product(self.nd(), self.I, b), self.I ^ b))

    def unmap(self, x, f):
        """inverse of a signed permutation of blades"""
        inv = {}
        for b in range(self.I + 1):
            (k, s), = f({b: 1}).items()
            inv[k] = (s, b)
        return self.map(x, lambda b: inv[b])

    def add(self, x, y, s=1):
        x, y = dict(self.d(x)), self.d(y)
        for k, v in y.items():
            x[k] = x[k] + v * s if k in x else v * s
        return x

    def scale(self, x, k):
        return {b: v * k for b, v in self.d(x).items()}

    def select(self, x, keep):
        return {b: v for b, v in self.d(x).items() if keep(b)}


# ---------------------------------------------------------------- configurations

def all_sigs(n):
    return [''.join(p) for p in itertools.product('+-0', repeat=n)]


def canon_sigs(n):
    """one per (p,q,r), basis order scrambled deterministically"""
    out = []
    for p in range(n + 1):
        for q in range(n + 1 - p):
            s = list('+' * p + '-' * q + '0' * (n - p - q))
            random.Random(p * 100 + q * 10 + n).shuffle(s)
            out.append(''.join(s))
    return out


def pick(xs, k, seed):
    xs = list(xs)
    if k >= len(xs):
        return xs
    return sorted(random.Random(seed).sample(xs, k), key=xs.index)


COMMON = ['+++0', '++0', '+++-', '++++', '+---', '++0-', '0+++', '-+0+', '00++', '----']
COMMON5 = ['++++-', '+++00', '+++++', '0++-+', '-----', '++--+']


def sub(alg, spec):
    """subspace from a json-able spec"""
    f = alg.subspace
    kind, _, arg = spec.partition(':')
    if kind == 'g':
        gs = [int(g) for g in arg.split(',')]
        return f.from_blades([b for b in range(alg.n_blades) if grade(b) in gs])
    if kind == 'b':
        return f.from_blades([int(b) for b in arg.split(',')])
    if kind == 'full':
        return f.from_blades(list(range(alg.n_blades)))
    if kind == 'even':
        return f.from_blades([b for b in range(alg.n_blades) if grade(b) % 2 == 0])
    if kind == 'odd':
        return f.from_blades([b for b in range(alg.n_blades) if grade(b) % 2 == 1])
    if kind == 'empty':
        return f.from_blades([])
    raise ValueError(spec)


def grade_specs(n):
    return ['g:%d' % k for k in range(n + 1)]


def random_specs(n, k, seed, lo=1, hi=None):
    rng = random.Random(seed * 7919 + n)
    N = 1 << n
    out = []
    while len(out) < k:
        m = rng.randint(lo, min(hi or N, N))
        s = 'b:' + ','.join(map(str, sorted(rng.sample(range(N), m))))
        if s not in out:
            out.append(s)
        elif N <= 4:
            break
    return out


def all_specs(n):
    """every nonempty subspace (only sensible for n <= 2)"""
    N = 1 << n
    return ['b:' + ','.join(str(b) for b in range(N) if m >> b & 1) for m in range(1, 1 << N)]


def high_sigs(tier, seed, dims=(6, 7, 8, 9, 10, 12), k=1):
    """scrambled signatures of many dimensions, for few-bladed subspaces"""
    rng = random.Random(seed * 31 + 7)
    out = []
    for n in dims:
        for i in range(k if tier == 'quick' else 4 * k):
            out.append(''.join(rng.choice('++--0' if i % 2 == 0 else '+-') for _ in range(n)))
    return out


def mirrored_specs(n, k, seed, hi=4):
    """subspaces of few blades, from all ranges of grade; half of them contain blades that differ in high bits only"""
    rng = random.Random(seed * 104729 + n)
    out = []
    while len(out) < k:
        m = rng.randint(1, hi)
        if len(out) % 2:
            low = [rng.randrange(16) for _ in range(m)]
            bl = {b << (n - 4) * rng.randint(0, 1) | rng.choice([0, 1 << n - 1]) for b in low}
        else:
            bl = {rng.randrange(1 << n) for _ in range(m)}
        s = 'b:' + ','.join(map(str, sorted(bl)))
        if s not in out:
            out.append(s)
    return out
