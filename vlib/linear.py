"""Linearised attempt: every monomial becomes an unknown of its own, premises and
premise-times-lemma products become linear equations between them; if linear
arithmetic refutes the negated goal, the goal holds."""
from fractions import Fraction

from vlib.sym import Sym


class TooBig(Exception):
    pass


class Expander:
    def __init__(self, limit=40000):
        self.memo = {}
        self.limit = limit

    def mul(self, p, q):
        if len(p) * len(q) > self.limit:
            raise TooBig
        out = {}
        for a, x in p.items():
            for b, y in q.items():
                k = tuple(sorted(a + b))
                v = out.get(k, 0) + x * y
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
        return out

    def lin(self, c, items):
        out = {(): c} if c else {}
        for a, k in items:
            for m, v in self.atom(a).items():
                w = out.get(m, 0) + k * v
                if w:
                    out[m] = w
                else:
                    out.pop(m, None)
        return out

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            if a.op == '+':
                r = self.lin(a.args[0], a.args[1])
            elif a.op == '*':
                r = {(): 1}
                for x in a.args:
                    r = self.mul(r, self.atom(x))
            elif a.op == 'c':
                r = {(): a.args[0]}
            else:
                r = {(a.id,): 1}
            self.memo[a] = r
        return r

    def sym(self, s):
        s = Sym.of(s)
        return self.lin(s.c, s.t.items())


def linear_unsat(pairs, premises, lemmas, timeout_ms=20000):
    """premises, pairs: (a, b) Syms meant to be equal. -> True if the pairs are implied"""
    import z3
    E = Expander()
    try:
        goals = [E.sym(Sym.of(a) - Sym.of(b)) for a, b in pairs]
        base = [E.sym(Sym.of(a) - Sym.of(b)) for a, b in premises]
        mult = [E.sym(m) for m in lemmas]
        eqs = list(base)
        for p in base:
            for m in mult:
                eqs.append(E.mul(p, m))
    except TooBig:
        return False
    V = {}

    def term(p):
        out = []
        for m, k in p.items():
            f = Fraction(k)
            c = z3.Q(f.numerator, f.denominator)
            if m == ():
                out.append(c)
            else:
                if m not in V:
                    V[m] = z3.Real('m%d' % len(V))
                out.append(c * V[m])
        return z3.Sum(out) if out else z3.RealVal(0)

    s = z3.SolverFor('QF_LRA')
    s.set('timeout', timeout_ms)
    s.add([term(p) == 0 for p in eqs if p])
    for g in goals:
        if not g:
            continue
        s.push()
        s.add(z3.Or(term(g) < 0, term(g) > 0))
        r = s.check()
        s.pop()
        if r != z3.unsat:
            return False
    return True
