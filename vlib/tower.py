"""Clear denominators and reduce square roots before asking the solver.

A Sym over reciprocals and roots is rewritten as  (sum over sets G of generators
of  P_G * prod(G)) / D  where P_G are polynomials (nested Syms), D a product of
divisors (nonzero by the side condition of the reciprocals), and a generator is
an atom whose square is known:
    sqrt(b)^2 = b,   abs(b)^2 = b^2,   sin(a)^2 = 1 - cos(a)^2
The expression vanishes if every P_G does.  Deciding P_G = 0 is left to the solver.
"""
from vlib.sym import Sym, Atom


class TooBig(Exception):
    pass


ONE = Sym(1, {})


class El:
    """num: {frozenset of generators: Sym}, den: {key atom: power}"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num, self.den = num, den


class Tower:
    def __init__(self, budget=60000):
        self.memo = {}
        self.divisor = {}       # key atom -> numerator {gens: Sym}
        self.square = {}
        self.budget = budget

    def tick(self, n=1):
        self.budget -= n
        if self.budget < 0:
            raise TooBig

    # numerators
    def nadd(self, a, b):
        self.tick(len(b))
        r = dict(a)
        for g, p in b.items():
            q = r[g] + p if g in r else p
            if q.t or q.c:
                r[g] = q
            else:
                r.pop(g, None)
        return r

    def nscale(self, a, k):
        return {g: p * k for g, p in a.items()}

    def nmul(self, a, b):
        """product of two numerators, as an element (squares may carry denominators)"""
        self.tick(len(a) * len(b))
        out = El({}, {})
        for g, p in a.items():
            for h, q in b.items():
                both = g & h
                if not (p.t or p.c) or not (q.t or q.c):
                    continue
                t = El({g ^ h: p * q}, {})
                for x in both:
                    t = self.mul(t, self.sq(x))
                out = self.add(out, t)
        return out

    def sq(self, x):
        r = self.square.get(x)
        if r is None:
            if x.op == 'sqrt':
                r = self.el(x.args[0])
            elif x.op == 'abs':
                e = self.el(x.args[0])
                r = self.mul(e, e)
            else:               # sin
                c = self.el(Atom('f', ('cos',) + x.args[1:]))
                r = self.add(El({frozenset(): ONE}, {}), self.scale(self.mul(c, c), -1))
            self.square[x] = r
        return r

    # elements
    def scale(self, e, k):
        return El(self.nscale(e.num, k), e.den)

    def mul(self, a, b):
        if not a.num or not b.num:
            return El({}, {})
        n = self.nmul(a.num, b.num)
        den = dict(n.den)
        for d in (a.den, b.den):
            for k, v in d.items():
                den[k] = den.get(k, 0) + v
        return El(n.num, den)

    def raise_to(self, e, den):
        num, extra = e.num, {}
        cur = El(num, {})
        for k, v in den.items():
            for _ in range(v - e.den.get(k, 0)):
                cur = self.mul(cur, El(self.divisor[k], {}))
        return cur

    def add(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        if a.den == b.den:
            return El(self.nadd(a.num, b.num), a.den)
        lcm = dict(a.den)
        for k, v in b.den.items():
            lcm[k] = max(lcm.get(k, 0), v)
        x, y = self.raise_to(a, lcm), self.raise_to(b, lcm)
        if x.den or y.den:      # squares met on the way carried denominators of their own
            s = self.add(x, y)
            den = dict(s.den)
            for k, v in lcm.items():
                den[k] = den.get(k, 0) + v
            return El(s.num, den)
        return El(self.nadd(x.num, y.num), lcm)

    def el(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        self.tick()
        op = a.op
        if op == '+':
            r = self.lin(a.args[0], a.args[1])
        elif op == '*':
            r = None
            for x in a.args:
                e = self.el(x)
                r = e if r is None else self.mul(r, e)
        elif op == 'c':
            r = El({frozenset(): Sym(a.args[0], {})} if a.args[0] else {}, {})
        elif op == 'inv':
            b = self.el(a.args[0])
            r = self.invert(a.args[0], b)
        elif op in ('sqrt', 'abs') or op == 'f' and a.args[0] == 'sin':
            r = El({frozenset([a]): ONE}, {})
        else:
            r = El({frozenset(): Sym(0, {a: 1})}, {})
        self.memo[a] = r
        return r

    def invert(self, key, b):
        """1 / b; single-term divisors are split into their factors so that equal ones cancel"""
        factors = None
        if key.op == '*':
            r = El({frozenset(): ONE}, {})
            for x in key.args:
                r = self.mul(r, self.invert(x, self.el(x)))
            return r
        if key.op == 'inv':
            return self.el(key.args[0])
        if not b.num:
            raise ZeroDivisionError
        self.divisor[key] = b.num
        r = El({frozenset(): ONE}, {key: 1})
        # 1/(n/d) = d/n
        for k, v in b.den.items():
            for _ in range(v):
                r = self.mul(r, El(self.divisor[k], {}))
        return r

    def lin(self, c, items):
        r = El({frozenset(): Sym(c, {})} if c else {}, {})
        for a, k in items:
            r = self.add(r, self.scale(self.el(a), k))
        return r

    def goals(self, s):
        """polynomials whose vanishing implies that s vanishes"""
        s = Sym.of(s)
        e = self.lin(s.c, s.t.items())
        return list(e.num.values())


def has_ext(s):
    seen = set()
    st = list(s.t) if isinstance(s, Sym) else []
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        if a.op in ('inv', 'sqrt', 'abs') or a.op == 'f':
            return True
        if a.op == '+':
            st += [x for x, _ in a.args[1]]
        elif a.op == '*':
            st += list(a.args)
    return False


def size(s):
    """number of monomials the fully expanded expression has at most"""
    memo = {}

    def atom(a):
        r = memo.get(a)
        if r is None:
            if a.op == '+':
                r = 1 + sum(atom(x) for x, _ in a.args[1])
            elif a.op == '*':
                r = 1
                for x in a.args:
                    r *= atom(x)
            else:
                if a.op in ('inv', 'sqrt', 'abs'):
                    atom(a.args[0])
                r = 1
            memo[a] = r
        return r
    return sum(atom(a) for a in s.t) + 1
