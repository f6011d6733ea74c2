"""Strings with symbolic characters: each unknown character is a private-use code point, so that slices, joins and concatenations are
Python's own; comparisons, hashing, iteration and splitting decide on the terms behind the placeholders (forking, see vlib/bv.py)."""
import numpy as np
import z3

from vlib.bv import BArr, Unsupported, _truth, lower

BASE = 0xE000
TERMS = {}      # placeholder -> term
VOCABULARY = ['+', '-', '0', '_']


def reset():
    TERMS.clear()


def decode(s):
    return [TERMS.get(c, ord(c)) for c in str.__str__(s)]


def symbolic(s):
    return isinstance(s, str) and any(BASE <= ord(c) < BASE + 4096 for c in str.__str__(s))


def equal(a, b):
    """formula (or bool): are two strings the same"""
    x, y = decode(a), decode(b)
    if len(x) != len(y):
        return False
    out = []
    for u, v in zip(x, y):
        if isinstance(u, int) and isinstance(v, int):
            if u != v:
                return False
            continue
        u = z3.BitVecVal(u, 8) if isinstance(u, int) else u
        v = z3.BitVecVal(v, 8) if isinstance(v, int) else v
        out.append(u == v)
    return lower(z3.And(out)) if out else True


def formula(v):
    """as an operand of E.true"""
    if isinstance(v, bool):
        return v
    a = np.empty((), dtype=object)
    a[()] = v
    return BArr(a, np.bool_)


class SStr(str):
    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return _truth(equal(self, o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if not symbolic(self):
            return str.__hash__(str.__str__(self))
        for w in VOCABULARY:
            if len(w) == len(self) and self == w:
                return hash(w)
        return 1234 + len(self)

    def __iter__(self):
        return (SStr(c) for c in str.__str__(self))

    def __getitem__(self, i):
        return SStr(str.__getitem__(self, i))

    def __add__(self, o):
        return SStr(str.__add__(self, o))

    def __radd__(self, o):
        return SStr(str.__add__(o, self))

    def __str__(self):
        return self

    def __contains__(self, o):
        return any(self[i:i + len(o)] == o for i in range(len(self) - len(o) + 1))

    def split(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) != 1 or maxsplit != -1:
            raise Unsupported('split')
        out, last = [], 0
        for i, c in enumerate(self):
            if c == sep:
                out.append(self[last:i])
                last = i + 1
        return out + [self[last:]]

    def startswith(self, p, *a):
        if a or not isinstance(p, str):
            raise Unsupported('startswith')
        return self[:len(p)] == p

    def find(self, o, *a):
        if a:
            raise Unsupported('find')
        return next((i for i in range(len(self) - len(o) + 1) if self[i:i + len(o)] == o), -1)

    def index(self, o, *a):
        i = self.find(o, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i


for _n in ('replace', 'strip', 'rstrip', 'lstrip', 'partition', 'rsplit', 'count', 'isalpha', 'isdigit', 'translate', 'lower', 'upper', 'endswith', 'rfind'):
    def _f(self, *a, _n=_n, **k):
        raise Unsupported('str.' + _n)
    setattr(SStr, _n, _f)


def string(E, name, n, alphabet=None):
    """a string of n unknown printable characters; alphabet: the characters it may have"""
    if not E.symbolic:
        vals = [int(E.values.get('%s%d' % (name, i), 97 + i)) for i in range(n)]
        if alphabet:
            vals = [v if chr(v) in alphabet else ord(alphabet[i % len(alphabet)]) for i, v in enumerate(vals)]
        return ''.join(map(chr, vals))
    out = ''
    for i in range(n):
        t = z3.BitVec('%s%d' % (name, i), 8)
        E.run.solver.add(z3.Or([t == ord(c) for c in alphabet]) if alphabet else z3.And(z3.UGE(t, 33), z3.ULE(t, 126)))
        ph = chr(BASE + len(TERMS))
        TERMS[ph] = t
        out += ph
    return SStr(out)


def same(E, a, b):
    return formula(equal(a, b)) if E.symbolic else a == b


def lifted(f):
    """f with plain strings that hold placeholders lifted to SStr first"""
    return lambda *a, **k: f(*[SStr(x) if type(x) is str and symbolic(x) else x for x in a], **k)
