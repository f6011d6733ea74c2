"""Blade level symbolic execution: numpy arrays of machine integers over bit-vector terms.

BArr stands in for an ndarray of blades (or of what is computed from them). Ufuncs follow numpy's own type resolution
(asked from numpy on dummy operands) and wrap at the width of the type. A boolean that the code branches on, masks with,
sorts by or hashes by forks the execution; every path is explored, infeasible ones are cut off by the solver.
"""
import contextlib
import functools
import itertools
import operator
import time
import traceback

from vlib import boot
import numpy as np
import z3

from vlib.sym import Unsupported


def bits(dt):
    return np.dtype(dt).itemsize * 8


def const(t):
    return isinstance(t, (int, bool, np.integer, np.bool_))


def wrapint(v, dt):
    dt = np.dtype(dt)
    if dt.kind == 'b':
        return bool(v)
    b = bits(dt)
    v = int(v) & ((1 << b) - 1)
    return v - (1 << b) if dt.kind == 'i' and v >> (b - 1) else v


def lower(t):
    """python value of a constant term"""
    if const(t):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def cast(t, src, dst):
    """value-preserving or wrapping conversion of a term"""
    src, dst = np.dtype(src), np.dtype(dst)
    if src == dst:
        return t
    if dst.kind not in 'iub':
        raise Unsupported('conversion of blades to %s' % dst)
    if const(t):
        return wrapint(t, dst) if dst.kind != 'b' else bool(t)
    if dst.kind == 'b':
        return t if src.kind == 'b' else t != 0
    b = bits(dst)
    if src.kind == 'b':
        return z3.If(t, z3.BitVecVal(1, b), z3.BitVecVal(0, b))
    n = t.size()
    if n > b:
        return z3.Extract(b - 1, 0, t)
    if n < b:
        return z3.SignExt(b - n, t) if src.kind == 'i' else z3.ZeroExt(b - n, t)
    return t


def term(t, dt):
    """z3 term of a value of this dtype"""
    if not const(t):
        return t
    return z3.BoolVal(bool(t)) if np.dtype(dt).kind == 'b' else z3.BitVecVal(int(t), bits(dt))


def flagged(f):
    return lambda a, b, signed: f(a, b)


def _fdiv(a, b, signed):
    return (a - a % b) / b if signed else z3.UDiv(a, b)


BIN = dict(bitwise_and=flagged(operator.and_), bitwise_or=flagged(operator.or_), bitwise_xor=flagged(operator.xor), add=flagged(operator.add),
           subtract=flagged(operator.sub), multiply=flagged(operator.mul), left_shift=flagged(operator.lshift),
           right_shift=lambda a, b, s: a >> b if s else z3.LShR(a, b),
           remainder=lambda a, b, s: a % b if s else z3.URem(a, b), floor_divide=_fdiv,
           minimum=lambda a, b, s: z3.If(a <= b if s else z3.ULE(a, b), a, b), maximum=lambda a, b, s: z3.If(a >= b if s else z3.UGE(a, b), a, b))
CMP = dict(equal=flagged(operator.eq), not_equal=flagged(operator.ne), less=lambda a, b, s: a < b if s else z3.ULT(a, b),
           less_equal=lambda a, b, s: a <= b if s else z3.ULE(a, b), greater=lambda a, b, s: a > b if s else z3.UGT(a, b),
           greater_equal=lambda a, b, s: a >= b if s else z3.UGE(a, b))
LOGIC = dict(logical_and=z3.And, logical_or=z3.Or, logical_xor=z3.Xor, bitwise_and=z3.And, bitwise_or=z3.Or, bitwise_xor=z3.Xor)
ALIAS = {'mod': 'remainder'}


class Flags:
    writeable = True


class BArr:
    __array_priority__ = 1e9
    oracle = None       # decides symbolic booleans

    def __init__(self, t, dtype):
        self.t = t if isinstance(t, np.ndarray) else _obj(t)
        self.dtype = np.dtype(dtype)
        self.flags = Flags()

    # -- shape
    shape = property(lambda s: s.t.shape)
    ndim = property(lambda s: s.t.ndim)
    size = property(lambda s: s.t.size)
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.t.size * s.dtype.itemsize)
    data = property(lambda s: s)
    T = property(lambda s: BArr(s.t.T, s.dtype))

    @property
    def strides(self):
        return np.empty(self.shape, self.dtype).strides

    def __len__(self):
        return len(self.t)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return (self[i] for i in range(len(self.t)))

    def reshape(self, *s):
        return BArr(self.t.reshape(*s), self.dtype)

    def ravel(self):
        return BArr(self.t.ravel(), self.dtype)
    flatten = ravel

    def squeeze(self, *a):
        return BArr(_obj(self.t.squeeze(*a)), self.dtype)

    def copy(self):
        return BArr(self.t.copy(), self.dtype)

    def item(self):
        return self.reshape(())

    def tolist(self):
        return [self[i] for i in range(len(self.t))]

    def astype(self, dt, **k):
        return BArr(_map(lambda v: cast(v, self.dtype, dt), self.t), dt)

    def view(self, dt):
        if np.dtype(dt).itemsize == self.itemsize:
            return BArr(self.t, dt) if np.dtype(dt).kind == self.dtype.kind else self.astype(dt)
        if np.dtype(dt) != np.uint8:
            raise Unsupported('view')
        b = _bytes(self)
        r = b.t.reshape((self.itemsize,) + self.shape)
        r = np.moveaxis(r, 0, -1)
        return BArr(r.reshape(self.shape[:-1] + (self.shape[-1] * self.itemsize,)), np.uint8)

    # -- indexing
    def __getitem__(self, i):
        if isinstance(i, BArr):
            if i.dtype.kind == 'b':
                i = i.decide()
            else:
                i = i.concrete()
        elif isinstance(i, tuple):
            i = tuple(x.decide() if isinstance(x, BArr) and x.dtype.kind == 'b' else x.concrete() if isinstance(x, BArr) else x for x in i)
        return BArr(_obj(self.t[i]), self.dtype)

    def __setitem__(self, i, v):
        if isinstance(i, BArr):
            i = i.decide() if i.dtype.kind == 'b' else i.concrete()
        v = lift(v)
        self.t[i] = _map(lambda x: cast(x, v.dtype, self.dtype), v.t) if v.ndim else cast(v.t.item(), v.dtype, self.dtype)

    def take(self, idx, axis=None):
        return BArr(_obj(self.t.take(idx, axis=axis)), self.dtype)

    # -- truth
    def decide(self):
        """concrete boolean array, forking on each undecided element"""
        return np.array([_truth(v) for v in self.t.ravel()], dtype=bool).reshape(self.shape)

    def concrete(self):
        if all(const(v) for v in self.t.ravel()):
            return self.t.astype(self.dtype)
        raise Unsupported('a concrete value of a symbolic blade is needed')

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous')
        v = self.t.reshape(-1)[0]
        return _truth(v if self.dtype.kind == 'b' or const(v) else v != 0)

    def __int__(self):
        return int(self.concrete().reshape(-1)[0])
    __index__ = __int__

    def __hash__(self):
        if self.ndim:
            raise TypeError('unhashable type: array')
        return 77

    def tobytes(self, order=None):
        return Key(self)

    def all(self, axis=None):
        return _fold(self.astype(np.bool_), lambda a, b: _logic('logical_and', a, b), True, axis, np.bool_)

    def any(self, axis=None):
        return _fold(self.astype(np.bool_), lambda a, b: _logic('logical_or', a, b), False, axis, np.bool_)

    def sum(self, axis=None, dtype=None):
        dt = np.dtype(dtype) if dtype else np.ones((1,), self.dtype).sum().dtype
        return _fold(self.astype(dt), lambda a, b: _bin('add', a, b, dt), 0, axis, dt)

    def sort(self, axis=-1):
        self.t = self[sorted_index([self])].t

    def argsort(self, axis=-1, kind=None):
        return sorted_index([self])

    def __repr__(self):
        return 'BArr(%s, %s)' % (self.t.tolist(), self.dtype)

    # -- numpy protocols
    def __array_ufunc__(self, ufunc, method, *ins, **kw):
        name = ALIAS.get(ufunc.__name__, ufunc.__name__)
        kw = {k: v for k, v in kw.items() if not (k == 'casting' or k == 'subok')}
        if method == 'outer':
            a, b = (lift(x) for x in ins)
            return self.__array_ufunc__(ufunc, '__call__', a.reshape(a.shape + (1,) * b.ndim), b, **kw)
        if method == 'reduce':
            x = lift(ins[0])
            axis, dt = kw.get('axis', 0), kw.get('dtype') or np.dtype(getattr(ufunc, 'reduce')(np.ones(1, x.dtype)).dtype)
            if name in ('logical_and', 'logical_or'):
                return x.all(axis) if name == 'logical_and' else x.any(axis)
            if ufunc.identity is None and not x.size:
                raise ValueError('reduction of an empty array')
            return _fold(x.astype(dt), lambda a, b: _bin(name, a, b, dt), None if ufunc.identity is None else wrapint(ufunc.identity, dt), axis, dt)
        if method != '__call__' or kw.get('out') is not None:
            raise Unsupported('ufunc %s.%s' % (ufunc.__name__, method))
        forced = kw.pop('dtype', None)
        kw.pop('out', None)
        if kw:
            raise Unsupported('ufunc arguments %s' % list(kw))
        dummies = [_dummy(x) for x in ins]
        with np.errstate(all='ignore'):
            out = getattr(np, ufunc.__name__)(*dummies).dtype if forced is None else np.dtype(forced)
        ops = [lift(x, out if not isinstance(x, (BArr, np.ndarray, np.generic)) else None) for x in ins]
        shape = np.broadcast_shapes(*[o.shape for o in ops])
        if name in CMP:
            dt = np.result_type(*dummies)
            if dt.kind == 'b':
                f = {'equal': lambda a, b: _not(_logic('logical_xor', a, b)), 'not_equal': lambda a, b: _logic('logical_xor', a, b)}.get(name)
                if f is None:
                    dt, f = np.dtype(np.int8), lambda a, b: _cmp(name, a, b, np.dtype(np.int8))
            else:
                if dt.kind == 'f':
                    raise Unsupported('comparison in floating point')
                f = lambda a, b: _cmp(name, a, b, dt)
            return _zip(f, ops, shape, dt, np.bool_)
        if name in ('logical_and', 'logical_or', 'logical_xor') or out.kind == 'b' and name in LOGIC:
            return _zip(lambda a, b: _logic(name, a, b), ops, shape, np.bool_, np.bool_)
        if name == 'logical_not' or name == 'invert' and out.kind == 'b':
            return _zip(_not, ops, shape, np.bool_, np.bool_)
        if out.kind not in 'iu':
            raise Unsupported('%s of blades yields %s' % (name, out))
        if name in BIN:
            return _zip(lambda a, b: _bin(name, a, b, out), ops, shape, out, out)
        un = dict(negative=lambda v: -v, invert=lambda v: ~v, positive=lambda v: v)
        if name in un:
            return _zip(lambda v: wrapint(un[name](int(v)), out) if const(v) else un[name](v), ops, shape, out, out)
        if name in ('absolute', 'sign'):
            def f(v):
                if const(v):
                    return wrapint(abs(v) if name == 'absolute' else (v > 0) - (v < 0), out)
                if out.kind == 'u':
                    return v if name == 'absolute' else z3.If(v != 0, z3.BitVecVal(1, bits(out)), z3.BitVecVal(0, bits(out)))
                return z3.If(v < 0, -v, v) if name == 'absolute' else z3.If(v < 0, z3.BitVecVal(-1, bits(out)), z3.If(v == 0, z3.BitVecVal(0, bits(out)), z3.BitVecVal(1, bits(out))))
            return _zip(f, ops, shape, out, out)
        raise Unsupported('ufunc ' + name)

    def __array_function__(self, func, types, args, kw):
        f = FUNCS.get(func.__name__)
        if f is None:
            raise Unsupported('numpy function ' + func.__name__)
        return f(*args, **kw)

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic array')


def _install():
    for op, uf in dict(add='add', sub='subtract', mul='multiply', mod='remainder', floordiv='floor_divide', lshift='left_shift', rshift='right_shift',
                       xor='bitwise_xor', **{'and': 'bitwise_and', 'or': 'bitwise_or'}).items():
        u = getattr(np, uf)
        setattr(BArr, '__%s__' % op, lambda a, b, u=u: a.__array_ufunc__(u, '__call__', a, b))
        setattr(BArr, '__r%s__' % op, lambda a, b, u=u: a.__array_ufunc__(u, '__call__', b, a))
    for op, uf in dict(eq='equal', ne='not_equal', lt='less', le='less_equal', gt='greater', ge='greater_equal').items():
        u = getattr(np, uf)
        setattr(BArr, '__%s__' % op, lambda a, b, u=u: a.__array_ufunc__(u, '__call__', a, b) if b is not None else NotImplemented)
    BArr.__neg__ = lambda a: a.__array_ufunc__(np.negative, '__call__', a)
    BArr.__invert__ = lambda a: a.__array_ufunc__(np.invert, '__call__', a)
    BArr.__abs__ = lambda a: a.__array_ufunc__(np.absolute, '__call__', a)


_install()


def _obj(v):
    if isinstance(v, np.ndarray) and v.dtype == object:
        return v
    if isinstance(v, np.ndarray):
        o = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            o[i] = v[i].item()
        return o
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def _map(f, t):
    o = np.empty(t.shape, dtype=object)
    for i in np.ndindex(t.shape):
        o[i] = f(t[i])
    return o


def lift(x, dt=None):
    if isinstance(x, BArr):
        return x
    a = np.asarray(x)
    if a.dtype == object:
        raise Unsupported('object array among blades')
    if dt is not None and not isinstance(x, (np.ndarray, np.generic)) and np.dtype(dt).kind in 'iu':
        # a python number takes the type of the operation
        return BArr(_map(lambda v: wrapint(v, dt), _obj(a)), dt)
    return BArr(_obj(a), a.dtype)


def _dummy(x):
    if isinstance(x, BArr):
        return np.ones((1,) * x.ndim, x.dtype)
    if isinstance(x, np.ndarray) and x.ndim:
        return np.ones((1,) * x.ndim, x.dtype)
    return x


def _zip(f, ops, shape, dt, out):
    ts = [np.broadcast_to(o.t, shape) for o in ops]
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        o[i] = lower(f(*[cast(t[i], q.dtype, dt) for t, q in zip(ts, ops)]))
    r = BArr(o, out)
    for i in np.ndindex(shape):
        if z3.is_bv_value(o[i]) if not const(o[i]) else False:
            o[i] = wrapint(o[i].as_long(), out)
    return r


def _bin(name, a, b, dt):
    if const(a) and const(b):
        if name in ('remainder', 'floor_divide') and int(b) == 0:
            return 0
        if name in ('left_shift', 'right_shift') and int(b) >= bits(dt):
            return 0 if name == 'left_shift' or a >= 0 else -1
        py = dict(bitwise_and=operator.and_, bitwise_or=operator.or_, bitwise_xor=operator.xor, add=operator.add, subtract=operator.sub, multiply=operator.mul,
                  left_shift=operator.lshift, right_shift=operator.rshift, remainder=operator.mod, floor_divide=operator.floordiv, minimum=min, maximum=max)
        return wrapint(py[name](int(a), int(b)), dt)
    if name in ('remainder', 'floor_divide') and not (const(b) and int(b) != 0):
        raise Unsupported('division by a symbolic blade')
    # cheap identities keep the terms small
    if name == 'bitwise_and' and (const(a) and a == 0 or const(b) and b == 0):
        return 0
    if name in ('add', 'bitwise_xor', 'bitwise_or'):
        if const(a) and a == 0:
            return b
        if const(b) and b == 0:
            return a
    if name == 'bitwise_and' and const(a):
        a, b = b, a
    if name in ('bitwise_and', 'remainder') and const(b) and int(b) == (1 if name == 'bitwise_and' else 2) and not const(a):
        return z3.ZeroExt(a.size() - 1, lowbit(a))
    return BIN[name](term(a, dt), term(b, dt), dt.kind == 'i')


def lowbit(t, _memo=None):
    """least significant bit of a term as a one-bit term: sums become exclusive ors, which the solver's rewriter cancels"""
    memo = {} if _memo is None else _memo
    k = t.get_id()
    if k in memo:
        return memo[k][0]
    d, ch = t.decl().kind(), t.children()
    if d in (z3.Z3_OP_BADD, z3.Z3_OP_BXOR, z3.Z3_OP_BSUB):
        r = functools.reduce(operator.xor, [lowbit(c, memo) for c in ch])
    elif d in (z3.Z3_OP_BMUL, z3.Z3_OP_BAND):
        r = functools.reduce(operator.and_, [lowbit(c, memo) for c in ch])
    elif d in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        r = lowbit(ch[0], memo)
    elif d == z3.Z3_OP_CONCAT:
        r = lowbit(ch[-1], memo)
    elif d == z3.Z3_OP_BNOT:
        r = ~lowbit(ch[0], memo)
    elif d == z3.Z3_OP_EXTRACT:
        r = bitof(ch[0], t.params()[1])
    elif d == z3.Z3_OP_ITE:
        r = z3.If(ch[0], lowbit(ch[1], memo), lowbit(ch[2], memo))
    else:
        r = z3.Extract(0, 0, t) if t.size() > 1 else t
    memo[k] = (r, t)
    return r


def bitof(t, i):
    """bit i of a term, through bitwise operations and constant shifts"""
    if i == 0:
        return lowbit(t)
    d, ch = t.decl().kind(), t.children()
    if d in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
        f = {z3.Z3_OP_BAND: operator.and_, z3.Z3_OP_BOR: operator.or_, z3.Z3_OP_BXOR: operator.xor}[d]
        return functools.reduce(f, [bitof(c, i) for c in ch])
    if d == z3.Z3_OP_BNOT:
        return ~bitof(ch[0], i)
    if d == z3.Z3_OP_ZERO_EXT:
        return bitof(ch[0], i) if i < ch[0].size() else z3.BitVecVal(0, 1)
    if d == z3.Z3_OP_CONCAT:
        for c in reversed(ch):
            if i < c.size():
                return bitof(c, i)
            i -= c.size()
    if d == z3.Z3_OP_EXTRACT:
        return bitof(ch[0], i + t.params()[1])
    if d in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]):
        j = i - ch[1].as_long() if d == z3.Z3_OP_BSHL else i + ch[1].as_long()
        return bitof(ch[0], j) if 0 <= j < t.size() else z3.BitVecVal(0, 1)
    return z3.Extract(i, i, t)


def forms(*xs):
    """0 or 1 as int8: parity of the sum of products; each x is a list of (factor, bit) pairs over scalars of one kind"""
    if not any(isinstance(f, BArr) for m in xs for f, _ in m):
        return np.int8(sum(int(all((int(f) >> i) & 1 for f, i in m)) for m in xs) % 2)
    t = functools.reduce(operator.xor, [functools.reduce(operator.and_, [bitof(term(lift(f).t.item(), f.dtype), i) for f, i in m]) for m in xs], z3.BitVecVal(0, 1))
    return BArr(_obj(_low(z3.ZeroExt(7, t), np.int8)), np.int8)


def _cmp(name, a, b, dt):
    if const(a) and const(b):
        return bool(getattr(operator, dict(equal='eq', not_equal='ne', less='lt', less_equal='le', greater='gt', greater_equal='ge')[name])(int(a), int(b)))
    return CMP[name](term(a, dt), term(b, dt), dt.kind == 'i')


def _logic(name, a, b):
    if const(a) and const(b):
        return bool({'and': a and b, 'or': a or b, 'xor': bool(a) != bool(b)}[name.split('_')[1]])
    return LOGIC[name](term(a, np.bool_), term(b, np.bool_))


def _not(v):
    return not v if const(v) else z3.Not(v)


def _fold(x, f, start, axis, dt):
    if axis is None:
        vals = list(x.t.ravel())
        if start is not None:
            vals = [start] + vals
        return BArr(_obj(_low(functools.reduce(f, vals), dt)), dt)
    if isinstance(axis, tuple):
        for a in sorted((a % x.ndim for a in axis), reverse=True):
            x = _fold(x, f, start, a, dt)
        return x
    t = np.moveaxis(x.t, axis, 0)
    o = np.empty(t.shape[1:], dtype=object)
    for i in np.ndindex(o.shape):
        vals = list(t[(slice(None),) + i])
        o[i] = _low(functools.reduce(f, ([start] if start is not None else []) + vals), dt)
    return BArr(o, dt)


def _low(v, dt):
    v = lower(v)
    return wrapint(v.as_long(), dt) if not const(v) and z3.is_bv_value(v) else v


def _truth(v):
    v = lower(v)
    if const(v):
        return bool(v)
    if BArr.oracle is None:
        raise Unsupported('truth value of a symbolic condition')
    return BArr.oracle(v)


def sorted_index(keys):
    """stable sorting permutation; the last key is the primary one (lexsort); comparisons fork"""
    ks = [lift(k) for k in keys][::-1]

    def cmp(i, j):
        for k in ks:
            if bool(k[i] < k[j]):
                return -1
            if bool(k[i] > k[j]):
                return 1
        return 0
    return np.array(sorted(range(len(ks[0])), key=functools.cmp_to_key(cmp)), dtype=np.intp)


class Key:
    """bytes of a symbolic array"""

    def __init__(self, a):
        self.t = [cast(v, a.dtype, np.dtype('u%d' % a.itemsize)) for v in a.t.ravel()]
        self.size = a.itemsize

    def __hash__(self):
        return 78

    def __len__(self):
        return self.size * len(self.t)

    def __eq__(self, o):
        if not isinstance(o, Key):
            if isinstance(o, bytes):
                raise Unsupported('symbolic and concrete keys in one pool')
            return NotImplemented
        if self.size != o.size or len(self.t) != len(o.t):
            if len(self) == len(o) and len(self):
                raise Unsupported('keys of different item size')
            return len(self) == len(o)
        c = True
        for a, b in zip(self.t, o.t):
            c = _logic('logical_and', c, _cmp('equal', a, b, np.dtype('u%d' % self.size)))
        return _truth(c)


def _bytes(a):
    """[itemsize, ...] bytes, least significant first"""
    o = np.empty((a.itemsize,) + a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        for k in range(a.itemsize):
            v = a.t[i]
            o[(k,) + i] = (int(v) >> 8 * k) & 255 if const(v) else lower(z3.Extract(8 * k + 7, 8 * k, v))
    return BArr(o, np.uint8)


POP = np.array([bin(i).count('1') for i in range(256)])


def lookup(table, idx):
    """table[idx] with a symbolic index"""
    t = np.asarray(table)
    if t.ndim != 1:
        raise Unsupported('symbolic index into a table of %d axes' % t.ndim)
    w = bits(t.dtype)

    def f(v):
        if const(v):
            return int(t[int(v)])
        if len(t) == 256 and np.array_equal(t.astype(int), POP):
            return functools.reduce(operator.add, [z3.ZeroExt(w - 1, z3.Extract(i, i, v)) for i in range(min(8, v.size()))])
        if len(t) > 1024:
            raise Unsupported('symbolic index into a large table')
        r = z3.BitVecVal(int(t[-1]), w)
        for i in range(len(t) - 1):
            r = z3.If(v == i, z3.BitVecVal(int(t[i]), w), r)
        return r
    return BArr(_map(lambda v: lower(f(v)), idx.t), t.dtype)


class Table(np.ndarray):
    """a module level table that can be indexed by symbolic arrays"""

    def __getitem__(self, i):
        if isinstance(i, BArr):
            return lookup(self.view(np.ndarray), i)
        return self.view(np.ndarray)[i]

    def take(self, i, *a, **k):
        return self[i] if isinstance(i, BArr) else self.view(np.ndarray).take(i, *a, **k)


def f_where(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    dt = np.result_type(_dummy(a), _dummy(b))
    shape = np.broadcast_shapes(c.shape, a.shape, b.shape)
    q, x, y = (np.broadcast_to(v.t, shape) for v in (c, a, b))
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        cc = cast(q[i], c.dtype, np.bool_)
        u, v = cast(x[i], a.dtype, dt), cast(y[i], b.dtype, dt)
        o[i] = (u if cc else v) if const(cc) else _low(z3.If(cc, term(u, dt), term(v, dt)), dt)
    return BArr(o, dt)


def f_concatenate(xs, axis=0, **k):
    xs = [lift(x) for x in xs]
    dt = np.result_type(*[x.dtype for x in xs])
    return BArr(np.concatenate([x.astype(dt).t for x in xs], axis=axis), dt)


def f_unique(x, **k):
    if k:
        raise Unsupported('np.unique arguments')
    x = lift(x)[sorted_index([lift(x)])]
    keep = [i for i in range(len(x)) if i == 0 or not bool(x[i] == x[i - 1])]
    return x[np.array(keep, dtype=int)]


def f_isin(a, b, **k):
    a, b = lift(a), lift(b)
    return (a.reshape(a.shape + (1,)) == b.ravel()).any(-1)


def _setop(keep):
    def f(a, b, **k):
        a, b = lift(a), lift(b)
        m = f_isin(a, b)
        return keep(a, b, m)
    return f


FUNCS = dict(
    where=f_where, concatenate=f_concatenate, unique=f_unique, isin=f_isin, in1d=f_isin,
    lexsort=lambda keys, **k: sorted_index(keys), argsort=lambda a, **k: sorted_index([a]), sort=lambda a, **k: lift(a)[sorted_index([a])],
    any=lambda a, axis=None, **k: lift(a).any(axis), all=lambda a, axis=None, **k: lift(a).all(axis), sum=lambda a, axis=None, dtype=None, **k: lift(a).sum(axis, dtype),
    array_equal=lambda a, b, **k: lift(a).shape == lift(b).shape and bool((lift(a) == lift(b)).all()),
    intersect1d=_setop(lambda a, b, m: f_unique(a[m])), setdiff1d=_setop(lambda a, b, m: f_unique(a[~m])), union1d=lambda a, b: f_unique(f_concatenate([a, b])),
    ravel=lambda a, **k: lift(a).ravel(), reshape=lambda a, *s, **k: lift(a).reshape(*s), copy=lambda a, **k: lift(a).copy(), atleast_1d=lambda a: lift(a) if lift(a).ndim else lift(a).reshape((1,)),
    count_nonzero=lambda a, **k: (lift(a) != 0).sum(), expand_dims=lambda a, axis: BArr(np.expand_dims(a.t, axis), a.dtype),
    shape=lambda a: a.shape, ndim=lambda a: a.ndim, size=lambda a: a.size, flip=lambda a, **k: a[::-1], squeeze=lambda a, **k: a.squeeze(),
    rollaxis=lambda a, axis, start=0: BArr(np.rollaxis(a.t, axis, start), a.dtype), moveaxis=lambda a, s, d: BArr(np.moveaxis(a.t, s, d), a.dtype),
    stack=lambda xs, axis=0, **k: BArr(np.stack([lift(x).t for x in xs], axis), np.result_type(*[lift(x).dtype for x in xs])),
    broadcast_to=lambda a, shape, **k: BArr(np.broadcast_to(a.t, shape), a.dtype), empty_like=lambda a, **k: BArr(a.t.copy(), a.dtype),
    zeros_like=lambda a, dtype=None, **k: lift(np.zeros(a.shape, dtype or a.dtype)), ones_like=lambda a, dtype=None, **k: lift(np.ones(a.shape, dtype or a.dtype)),
    full_like=lambda a, v, dtype=None, **k: lift(np.full(a.shape, v, dtype or a.dtype)),
    bitwise_count=None)


def has(x):
    return isinstance(x, BArr) or isinstance(x, (list, tuple)) and any(has(v) for v in x)


class FakeND:
    """np.ndarray(buffer=...) reinterpretation to bytes"""

    def __new__(cls, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
        if not isinstance(buffer, BArr):
            return np.ndarray(shape, dtype, buffer, offset, strides, order)
        b = buffer
        if np.dtype(dtype) != np.uint8 or offset or tuple(shape[1:]) != b.shape or strides is not None and tuple(strides) != (1,) + tuple(b.strides):
            raise Unsupported('reinterpretation of a buffer')
        if shape[0] > b.itemsize and b.size:
            raise Unsupported('buffer overrun')
        return _bytes(b)[:shape[0]]


class NP:
    """numpy with constructors that know symbolic arrays. pool: integer arrays of this dtype are made symbolic as well"""

    def __init__(self, blade_dtype=None):
        self._dt = blade_dtype

    def __getattr__(self, n):
        return getattr(np, n)

    ndarray = FakeND

    def array(self, v, dtype=None, **k):
        if isinstance(v, BArr):
            return v.astype(dtype) if dtype is not None else v.copy()
        if isinstance(v, (list, tuple)) and has(v):
            parts = [lift(self.array(x)) if isinstance(x, (list, tuple)) else lift(x) for x in v]
            r = BArr(np.stack([p.t for p in parts]), np.result_type(*[p.dtype for p in parts]))
            return r.astype(dtype) if dtype is not None else r
        r = np.array(v, dtype=dtype, **k)
        if self._dt is not None and dtype is not None and r.dtype == self._dt and dtype is not object:
            return lift(r)
        return r

    def asarray(self, v, dtype=None, **k):
        if isinstance(v, BArr):
            return v if dtype is None or v.dtype == dtype else v.astype(dtype)
        return self.array(v, dtype=dtype) if has(v) else np.asarray(v, dtype=dtype, **k)
    ascontiguousarray = asarray

    def fromiter(self, it, dtype, count=-1):
        it = list(it)
        return self.array(it, dtype=dtype) if has(it) or self._dt == np.dtype(dtype) else np.fromiter(it, dtype, count)


class NPI:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)

    def all_unique(self, a):
        if not isinstance(a, BArr):
            return self._real.all_unique(a)
        return all(not bool(a[i] == a[j]) for i in range(len(a)) for j in range(i))

    def indices(self, space, q, **k):
        if not has(space) and not has(q):
            return self._real.indices(space, q, **k)
        space, q = lift(space), lift(q)
        out = []
        for v in q:
            for i in range(len(space)):
                if bool(space[i] == v):
                    out.append(i)
                    break
            else:
                raise KeyError('not in space')
        return np.array(out, dtype=int)


MODULES = ('numga.algebra.algebra', 'numga.algebra.bitops', 'numga.subspace.factory', 'numga.subspace.subspace')


@contextlib.contextmanager
def shims(blade_dtype=None):
    import importlib
    import numpy_indexed
    import inspect
    saved = []
    for m in MODULES:
        m = importlib.import_module(m)
        for k, v in list(vars(m).items()):
            n = None
            if v is np:
                n = NP(blade_dtype)
            elif v is numpy_indexed:
                n = NPI(v)
            elif type(v) is np.ndarray and v.dtype.kind in 'iu':
                n = v.view(Table)
            if n is not None:
                saved.append((m, k, v))
                setattr(m, k, n)
    try:
        yield
    finally:
        for m, k, v in saved:
            setattr(m, k, v)


# ---------------------------------------------------------------- environments

class Failed(Exception):
    pass


class Sym:
    symbolic = True

    def __init__(self, run):
        self.run = run

    def blades(self, name, k, alg):
        dt, n = alg.blade_dtype, alg.n_dimensions
        t = [z3.BitVec('%s%d' % (name, i), bits(dt)) for i in range(k)]
        for v in t:
            if n < bits(dt):
                self.run.solver.add(z3.ULT(v, z3.BitVecVal(1 << n, bits(dt))))
        return BArr(np.array(t + [None], dtype=object)[:-1], dt)

    def assume(self, c):
        c = lift(c)
        self.run.solver.add([term(v, np.bool_) for v in c.t.ravel()])
        if self.run.solver.check() == z3.unsat:
            raise Infeasible

    def true(self, c, label):
        self.run.claim(c, label)

    def same(self, a, b, label):
        """equality of every element; the terms go to the solver as they are"""
        a, b = lift(a), lift(b)
        dt = np.result_type(_dummy(a), _dummy(b)) if a.dtype != b.dtype else a.dtype
        shape = np.broadcast_shapes(a.shape, b.shape)
        x, y = np.broadcast_to(a.t, shape), np.broadcast_to(b.t, shape)
        c = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            u, v = cast(x[i], a.dtype, dt), cast(y[i], b.dtype, dt)
            c[i] = u == v if const(u) and const(v) else term(u, dt) == term(v, dt)
        self.run.claim(BArr(c, np.bool_), label, raw=True)


class Conc:
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.failures = []

    def blades(self, name, k, alg):
        return np.array([int(self.values.get('%s%d' % (name, i), (i * 37 + len(name)) % alg.n_blades)) for i in range(k)], dtype=alg.blade_dtype)

    def assume(self, c):
        if not np.all(c):
            raise Infeasible

    def true(self, c, label):
        if not np.all(c):
            self.failures.append(label)

    def same(self, a, b, label):
        self.true(np.asarray(a) == np.asarray(b), label)


LOGIC_NAME = 'QF_UFBV'


def opaque(E, f, name):
    """f, known to the solver only as some function of each blade (its meaning is an obligation elsewhere); as is when replaying"""
    if not E.symbolic:
        return f

    def g(a, *r, **k):
        if not isinstance(a, BArr) or a.ndim == 0 and const(a.t.item()):
            return f(a, *r, **k)
        like = f(BArr(np.zeros(a.shape, dtype=object), a.dtype), *r, **k)
        fn = z3.Function(name, z3.BitVecSort(bits(a.dtype)), z3.BitVecSort(bits(like.dtype)))
        return BArr(_map(lambda v: int(f(BArr(_obj(v), a.dtype)).t.item()) if const(v) else fn(v), a.t), like.dtype)
    return g


class Infeasible(Exception):
    pass


class Run:
    """one path"""

    def __init__(self, task, prefix, todo, timeout):
        self.task, self.prefix, self.todo = task, prefix, todo
        self.solver = z3.SolverFor(LOGIC_NAME)
        self.timeout = timeout
        self.solver.set('timeout', timeout)
        self.taken = []
        self.cex = None

    def check(self, *a):
        t = time.time()
        r = self.solver.check(*a)
        self.task.stats.add('queries')
        self.task.stats.add('solver_s', time.time() - t)
        return r

    def oracle(self, c):
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            yes, no = self.check(c), self.check(z3.Not(c))
            if yes == z3.unsat and no == z3.unsat:
                raise Infeasible
            if yes == z3.unknown or no == z3.unknown:
                raise Unsupported('solver gave no answer on a branch')
            v = yes == z3.sat
            if v and no == z3.sat:
                self.todo.append(tuple(self.taken) + (False,))
            elif not v or no == z3.unsat:
                self.taken.append(v)
                self.solver.add(c if v else z3.Not(c))
                return v
        self.taken.append(v)
        self.solver.add(c if v else z3.Not(c))
        return v

    def claim(self, c, label, raw=False):
        st = self.task.stats
        st.add('obligations')
        if isinstance(c, BArr):
            c = c.astype(np.bool_)
            ts = [v if raw else lower(v) for v in c.t.ravel()]
        else:
            ts = [bool(np.all(c))]
        st.add('components', len(ts))
        if any(not const(v) for v in ts):
            st.add('nontrivial')
        if all(const(v) and v for v in ts):
            st.add('discharged')
            return
        neg = z3.Or([z3.Not(term(v, np.bool_)) for v in ts])
        # a fresh solver: its preprocessing is not available under assumptions
        solver = z3.SolverFor(LOGIC_NAME)
        solver.set('timeout', self.timeout)
        solver.add(list(self.solver.assertions()) + [neg])
        t = time.time()
        r = solver.check()
        st.add('queries')
        st.add('solver_s', time.time() - t)
        if r == z3.unsat:
            st.add('discharged')
            if not self.task.samples:
                self.task.samples.append('%s: unsat on path of %d branches' % (label, len(self.taken)))
        elif r == z3.sat:
            self.cex = (label, solver.model())
            raise Failed(label)
        else:
            self.task.inconclusive.append('%s: solver unknown' % label)

    def values(self, m):
        return {str(d): m[d].as_long() for d in m.decls() if z3.is_bv_value(m[d])}


def replay(fn, cfg, values):
    E = Conc(values)
    try:
        fn(E, **cfg)
    except Infeasible:
        return None
    except Exception as e:
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        return 'raises %s: %s' % (type(e).__name__, str(e)[:200])
    return E.failures[0] if E.failures else None


def corners(n):
    """blades of an algebra of n dimensions, for case splits: all of them up to three dimensions, then those of four spread generators"""
    bits = range(n) if n <= 3 else sorted({0, 1, n // 2, n - 1})
    return [sum(1 << b for i, b in enumerate(bits) if m >> i & 1) for m in range(1 << len(bits))]


class Choose(Conc):
    def __init__(self, prefix, todo):
        Conc.__init__(self, {})
        self.prefix, self.todo, self.taken = prefix, todo, []

    def blades(self, name, k, alg):
        c = corners(alg.n_dimensions)
        for i in range(k):
            d = len(self.taken)
            v = self.prefix[d] if d < len(self.prefix) else 0
            if d >= len(self.prefix):
                self.todo.extend(tuple(self.taken) + (j,) for j in range(1, len(c)))
            self.taken.append(v)
            self.values['%s%d' % (name, i)] = c[v]
        return Conc.blades(self, name, k, alg)


def split(task, fn, cfg, seconds=20):
    """Code that cannot be executed on symbolic blades is not decided; it is replayed case by case, and a failing case is reported.
    Nothing is claimed if none fails"""
    import random
    todo, t0, rnd = [()], time.time(), random.Random(1)
    while todo and time.time() - t0 < seconds:
        E = Choose(todo.pop(rnd.randrange(len(todo))), todo)
        task.stats.add('cases')
        try:
            fn(E, **cfg)
        except Infeasible:
            continue
        except Exception as e:
            E.failures.append('raises %s: %s' % (type(e).__name__, str(e)[:200]))
        if E.failures:
            msg = replay(fn, cfg, E.values)
            if msg:
                task.violations.append(dict(label='case (not encodable)', message=msg, values={k: str(v) for k, v in E.values.items()}))
                return


def explore(task, fn, cfg, shim=True, limit=4000, timeout=20000, dtype=None):
    todo = [()]
    paths = 0
    while todo:
        prefix = todo.pop()
        paths += 1
        if paths > limit:
            task.inconclusive.append('more than %d paths' % limit)
            break
        run = Run(task, prefix, todo, timeout)
        BArr.oracle = run.oracle
        err = None
        try:
            with shims(dtype) if shim else contextlib.nullcontext():
                fn(Sym(run), **cfg)
        except Infeasible:
            continue
        except Failed:
            label, m = run.cex
            vals = run.values(m)
            BArr.oracle = None
            msg = replay(fn, cfg, vals)
            if msg:
                task.violations.append(dict(label=label, message=msg, values={k: str(v) for k, v in vals.items()}))
            else:
                task.inconclusive.append('%s: model did not reproduce (%s)' % (label, vals))
            if len(task.violations) + len(task.inconclusive) > 3:
                break
        except Unsupported as e:
            task.inconclusive.append('symbolic execution: %s' % e)
            task.notes.append(traceback.format_exc()[-1200:])
            split(task, fn, cfg)
            break
        except Exception as e:
            tb = traceback.format_exc()
            BArr.oracle = None
            from vlib.engine import missing_name
            if missing_name(e):
                task.inconclusive.append('the harness refers to a name that is gone: %s' % str(e)[:200])
                break
            vals = run.values(run.solver.model()) if run.check() == z3.sat else {}
            msg = replay(fn, cfg, vals)
            if msg and msg.startswith('raises %s' % type(e).__name__):
                task.violations.append(dict(label='execution', message=msg, values={k: str(v) for k, v in vals.items()}))
            else:
                task.inconclusive.append('symbolic execution: %s: %s' % (type(e).__name__, str(e)[:200]))
                task.notes.append(tb[-1500:])
                split(task, fn, cfg)
            break
        finally:
            BArr.oracle = None
    task.stats.add('paths', paths)


def blade_harness(prop, configs=None, timeout=200, pool=False, solver_ms=20000):
    """Register fn(E, **cfg): E.blades are symbolic, E.true is decided by the solver on every path. pool: all blade arrays are symbolic objects"""
    from vlib.engine import custom

    def wrap(fn):
        @functools.wraps(fn)
        def run(task, replay=None, **cfg):
            if replay is not None:
                msg = globals()['replay'](fn, cfg, {k: int(v) for k, v in replay['values'].items()})
                if msg:
                    task.violations.append(msg)
                return
            dt = None
            if pool:
                from numga.algebra.bitops import minimal_uint_type
                dt = np.dtype(minimal_uint_type(cfg['n'])[1])
            explore(task, fn, cfg, dtype=dt, timeout=solver_ms)
        custom(prop, fn.__name__, configs, timeout)(run)
        return fn
    return wrap
