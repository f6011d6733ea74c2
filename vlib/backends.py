"""Symbolic execution of the jax and torch backends.

The real backend code is traced by the framework itself (jax.make_jaxpr, torch make_fx) for the given
shapes; the resulting program is interpreted here over arrays of symbolic reals.
Pure data movement (gather, scatter, reshape, ...) is carried out by the framework's own kernels on
arrays of element numbers, so that its indexing semantics are not re-implemented here.
"""
import numpy as np

from vlib.sym import Unsupported, Sym

JAX_MOVE = {'gather', 'scatter', 'slice', 'squeeze', 'broadcast_in_dim', 'reshape', 'transpose', 'concatenate', 'rev',
            'dynamic_slice', 'dynamic_update_slice', 'pad', 'device_put', 'copy', 'copy_p', 'expand_dims', 'select_n', 'split'}
TORCH_MOVE = {'permute', 'unsqueeze', 'squeeze', 'view', '_unsafe_view', 'reshape', 'clone', 'alias', 'expand', 'select', 'cat', 'stack', 'gather',
              'index', 'index_put', 'select_scatter', 'slice_scatter', 'slice', 'copy', 'lift_fresh_copy', 'lift_fresh', 't', 'transpose', 'detach',
              'flip', 'repeat', 'unbind', 'split', 'movedim', 'where', 'take_along_dim', 'contiguous', 'diagonal', 'index_select', 'new_zeros', 'roll'}


def is_sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object


class Ids:
    """element numbering for data movement"""

    def __init__(self):
        self.store = []

    def enc(self, a):
        n = len(self.store)
        self.store += list(a.ravel())
        return np.arange(n, n + a.size, dtype=np.int32).reshape(a.shape)

    def dec(self, ids):
        ids = np.asarray(ids)
        out = np.empty(ids.shape, dtype=object)
        for i in np.ndindex(ids.shape):
            k = int(ids[i])
            if not 0 <= k < len(self.store):
                raise Unsupported('out of bounds element in data movement')
            out[i] = self.store[k]
        return out


def obj(a):
    return np.asarray(a, dtype=object)


def _box(a):
    """0-d object arithmetic hands back the bare element"""
    return a if isinstance(a, np.ndarray) and a.dtype != object else obj(a) if isinstance(a, (Sym, np.ndarray)) else a


def _elementwise(f):
    return np.frompyfunc(f, 1, 1)


def _contract(l, r, lc, rc, lb, rb):
    """dot_general over object arrays"""
    letters = iter('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
    ls = [next(letters) for _ in range(l.ndim)]
    rs = [None] * r.ndim
    for i, j in list(zip(lb, rb)) + list(zip(lc, rc)):
        rs[j] = ls[i]
    rs = [c or next(letters) for c in rs]
    out = [ls[i] for i in lb] + [ls[i] for i in range(l.ndim) if i not in lb and i not in lc] + \
          [rs[j] for j in range(r.ndim) if j not in rb and j not in rc]
    return np.einsum('%s,%s->%s' % (''.join(ls), ''.join(rs), ''.join(out)), obj(l), obj(r))


COMPARE = dict(ne='ne', eq='eq', lt='lt', le='le', gt='gt', ge='ge')


def _compare(op, a, b):
    """comparisons that are decided for all finite values: with itself, with an infinity, of constants"""
    a, b = np.broadcast_arrays(obj(a), obj(b))
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        x, y = a[i], b[i]
        if not isinstance(y, Sym) and np.isnan(y) or not isinstance(x, Sym) and np.isnan(x):
            out[i] = op == 'ne'
            continue
        if not isinstance(y, Sym) and np.isinf(y):
            d = -np.sign(float(y))
        elif not isinstance(x, Sym) and np.isinf(x):
            d = np.sign(float(x))
        else:
            e = Sym.of(x) - Sym.of(y)
            if e.t:         # forks the execution, where the harness explores
                out[i] = bool(dict(ne=lambda: not (x == y), eq=lambda: x == y, lt=lambda: x < y, le=lambda: x <= y, gt=lambda: x > y, ge=lambda: x >= y)[op]())
                continue
            d = e.c
        out[i] = dict(ne=d != 0, eq=d == 0, lt=d < 0, le=d <= 0, gt=d > 0, ge=d >= 0)[op]
    return out


def _smallest(a, axes, index=False):
    """minimum (or the position of the first minimum) over axes"""
    a = obj(a)
    axes = tuple(i % a.ndim for i in axes)
    a = np.moveaxis(a, axes, range(-len(axes), 0)).reshape([n for i, n in enumerate(a.shape) if i not in axes] + [-1])
    out = np.empty(a.shape[:-1], dtype=np.int64 if index else object)
    for i in np.ndindex(out.shape):
        k = 0
        for j in range(1, a.shape[-1]):
            if a[i][j] < a[i][k]:
                k = j
        out[i] = k if index else a[i][k]
    return out


def _pick(a, b, larger):
    a, b = np.broadcast_arrays(obj(a), obj(b))
    first = _compare('ge' if larger else 'le', a, b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = a[i] if first[i] else b[i]
    return out


# ---------------------------------------------------------------- jax

def run_jax(fn, args):
    """args: object arrays. fn: function of jax arrays"""
    import jax
    closed = jax.make_jaxpr(fn)(*[np.zeros(a.shape, dtype=np.float32) for a in args])
    return jax_eval(closed.jaxpr, closed.consts, args)


def jax_eval(jaxpr, consts, args):
    import jax
    env = {}

    def read(v):
        return v.val if isinstance(v, jax.core.Literal) else env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = np.asarray(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for q in jaxpr.eqns:
        ins = [read(v) for v in q.invars]
        name = q.primitive.name
        inner = q.params.get('jaxpr') or q.params.get('call_jaxpr')
        if inner is not None and name in ('pjit', 'closed_call', 'core_call', 'custom_jvp_call', 'custom_vjp_call', 'remat', 'checkpoint'):
            cj, cc = (inner.jaxpr, inner.consts) if hasattr(inner, 'jaxpr') else (inner, [])
            outs = jax_eval(cj, cc, ins)
        elif not any(is_sym(np.asarray(a) if not isinstance(a, np.ndarray) else a) for a in ins):
            outs = q.primitive.bind(*ins, **q.params)
            outs = list(outs) if q.primitive.multiple_results else [outs]
            outs = [np.asarray(o) for o in outs]
        else:
            outs = [_box(_jax_prim(q.primitive, name, [_box(a) if isinstance(a, Sym) else a for a in ins], q.params))]
        for v, o in zip(q.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def _jax_prim(prim, name, ins, p):
    if name in JAX_MOVE:
        ids = Ids()
        fixed = {'gather': (1,), 'scatter': (1,), 'select_n': (0,), 'dynamic_slice': range(1, 99), 'dynamic_update_slice': range(2, 99)}.get(name, ())
        enc = []
        for i, a in enumerate(ins):
            if i in fixed:
                if is_sym(a):
                    raise Unsupported('symbolic index')
                enc.append(a)
            else:
                enc.append(ids.enc(obj(a)))
        q = dict(p)
        if name == 'gather':
            q['fill_value'] = -1        # not an element number
        if name == 'scatter':
            # a scatter without combiner
            import jax
            dn = q['dimension_numbers']
            out = jax.lax.scatter(enc[0], enc[1], enc[2], dn, indices_are_sorted=q['indices_are_sorted'],
                                  unique_indices=q['unique_indices'], mode=q['mode'])
            return ids.dec(out)
        return ids.dec(prim.bind(*enc, **q))
    if name in ('add', 'add_any'):
        return obj(ins[0]) + obj(ins[1])
    if name == 'sub':
        return obj(ins[0]) - obj(ins[1])
    if name == 'mul':
        return obj(ins[0]) * obj(ins[1])
    if name == 'div':
        return obj(ins[0]) / obj(ins[1])
    if name == 'neg':
        return -obj(ins[0])
    if name == 'convert_element_type':
        if np.issubdtype(np.dtype(p['new_dtype']), np.floating):
            return ins[0]
        raise Unsupported('cast of symbolic values to %s' % p['new_dtype'])
    if name == 'reduce_sum':
        return np.asarray(obj(ins[0]).sum(axis=tuple(p['axes'])), dtype=object)
    if name == 'dot_general':
        (lc, rc), (lb, rb) = p['dimension_numbers']
        return _contract(obj(ins[0]), obj(ins[1]), lc, rc, lb, rb)
    if name == 'integer_pow':
        return obj(ins[0]) ** p['y']
    if name == 'sqrt':
        return _elementwise(lambda v: Sym.of(v) ** 0.5)(ins[0])
    if name == 'rsqrt':
        return _elementwise(lambda v: 1 / Sym.of(v) ** 0.5)(ins[0])
    if name == 'pow' and not is_sym(ins[1]) and np.size(ins[1]) == 1 and float(np.asarray(ins[1]).reshape(-1)[0]) * 2 % 1 == 0:
        e = float(np.asarray(ins[1]).reshape(-1)[0])
        return _elementwise(lambda v: Sym.of(v) ** (int(e) if e % 1 == 0 else e))(ins[0])
    if name in ('cos', 'sin', 'exp', 'log', 'abs'):
        f = (lambda v: abs(Sym.of(v))) if name == 'abs' else (lambda v: getattr(Sym.of(v), name)())
        return _elementwise(f)(ins[0])
    if name in ('scatter-add', 'scatter_add'):
        if is_sym(ins[1]):
            raise Unsupported('symbolic index')
        out, up = obj(ins[0]).copy(), obj(ins[2])
        for i in np.ndindex(up.shape):      # where does each update go?
            one = np.zeros(up.shape, dtype=np.float32)
            one[i] = 1
            to = np.asarray(prim.bind(np.zeros(out.shape, dtype=np.float32), ins[1], one, **p))
            for j in zip(*np.nonzero(to)):
                out[j] = out[j] + up[i] * int(to[j])
        return out
    if name in ('reduce_min', 'argmin'):
        return _smallest(ins[0], p['axes'], name == 'argmin')
    if name in ('reduce_max', 'argmax'):
        r = _smallest(-obj(ins[0]), p['axes'], name == 'argmax')
        return r if name == 'argmax' else -r
    if name == 'reduce_prod':
        return np.asarray(obj(ins[0]).prod(axis=tuple(p['axes'])), dtype=object)
    if name in ('cumsum', 'cumprod') and not p.get('reverse'):
        return getattr(np, name)(obj(ins[0]), axis=p['axis'])
    if name == 'square':
        return obj(ins[0]) * obj(ins[0])
    if name in ('max', 'min'):
        return _pick(ins[0], ins[1], name == 'max')
    if name in ('copy', 'copy_p', 'stop_gradient', 'reduce_precision'):
        return ins[0]
    if name == 'is_finite':
        return np.ones(ins[0].shape, dtype=bool)
    if name in COMPARE:
        return _compare(COMPARE[name], ins[0], ins[1])
    raise Unsupported('jax primitive ' + name)


# ---------------------------------------------------------------- torch

def run_torch(fn, args):
    import torch
    from torch.fx.experimental.proxy_tensor import make_fx
    ts = tuple(torch.zeros(a.shape, dtype=torch.float64) for a in args)
    gm = make_fx(torch.func.functionalize(fn))(*ts)
    env = {}
    it = iter(args)

    def val(x):
        import torch.fx
        if isinstance(x, torch.fx.Node):
            return env[x]
        if isinstance(x, (list, tuple)):
            return type(x)(val(i) for i in x)
        return x

    def raw(x):
        """concrete values for torch"""
        if isinstance(x, np.ndarray):
            return torch.from_numpy(np.array(x))
        if isinstance(x, (list, tuple)):
            return type(x)(raw(i) for i in x)
        return x

    def has_sym(x):
        return is_sym(x) or isinstance(x, (list, tuple)) and any(has_sym(i) for i in x)

    for n in gm.graph.nodes:
        if n.op == 'placeholder':
            env[n] = next(it)
        elif n.op == 'get_attr':
            env[n] = getattr(gm, n.target).detach().numpy()
        elif n.op == 'output':
            return val(n.args[0])
        else:
            a, k = val(n.args), val(n.kwargs) if isinstance(n.kwargs, (list, tuple)) else {q: val(v) for q, v in n.kwargs.items()}
            if not any(has_sym(x) for x in list(a) + list(k.values())):
                if n.target.__class__.__name__ == 'OpOverload' or callable(n.target):
                    o = n.target(*[raw(x) for x in a], **{q: raw(v) for q, v in k.items()})
                    env[n] = o.detach().numpy() if isinstance(o, torch.Tensor) else \
                        type(o)(x.detach().numpy() for x in o) if isinstance(o, (list, tuple)) and o and isinstance(o[0], torch.Tensor) else o
            else:
                name = str(n.target).split('.')
                name = name[1] if name[0] == 'aten' else name[0]
                env[n] = _box(_aten(n.target, name, a, k, raw))
    raise Unsupported('no output')


def _aten(target, name, a, k, raw):
    import torch
    if name == '<built-in function getitem>' or 'getitem' in name:
        return a[0][a[1]]
    if name in TORCH_MOVE:
        ids = Ids()
        fixed = {'gather': (2,), 'index': (1,), 'index_put': (1,), 'where': (0,), 'index_select': (2,), 'take_along_dim': (1,)}.get(name, ())

        def enc(x):
            if isinstance(x, np.ndarray):
                return torch.from_numpy(ids.enc(obj(x)).astype(np.int64))
            if isinstance(x, (list, tuple)):
                return type(x)(enc(i) for i in x)
            return x

        k = {q: v for q, v in k.items() if q not in ('dtype',)}
        o = target(*[raw(x) if i in fixed else enc(x) for i, x in enumerate(a)], **k)
        if isinstance(o, (list, tuple)):
            return [ids.dec(x.numpy()) for x in o]
        return ids.dec(o.numpy())
    if name == 'add' or name == 'sub':
        r = obj(a[1]) * k.get('alpha', 1)
        return obj(a[0]) + r if name == 'add' else obj(a[0]) - r
    if name == 'rsub':
        return obj(a[1]) - obj(a[0]) * k.get('alpha', 1)
    if name == 'mul':
        return obj(a[0]) * obj(a[1])
    if name == 'div' and not k.get('rounding_mode'):
        return obj(a[0]) / obj(a[1])
    if name == 'square':
        return obj(a[0]) * obj(a[0])
    if name in ('addcmul', 'addcdiv'):
        r = obj(a[1]) * obj(a[2]) if name == 'addcmul' else obj(a[1]) / obj(a[2])
        return obj(a[0]) + r * k.get('value', 1)
    if name in ('addmm', 'addmv', 'baddbmm') and not k:
        return obj(a[0]) + (np.einsum('bij,bjk->bik', obj(a[1]), obj(a[2])) if name == 'baddbmm' else np.dot(obj(a[1]), obj(a[2])))
    if name == 'prod':
        return np.asarray(obj(a[0]).prod(axis=a[1] if len(a) > 1 else None, keepdims=bool(a[2]) if len(a) > 2 else False), dtype=object)
    if name in ('cumsum', 'cumprod'):
        return getattr(np, name)(obj(a[0]), axis=a[1])
    if name in ('maximum', 'minimum'):
        return _pick(a[0], a[1], name == 'maximum')
    if name == 'reciprocal':
        return np.asarray(1 / obj(a[0]), dtype=object)
    if name == 'neg':
        return -obj(a[0])
    if name == 'bmm':
        return np.einsum('bij,bjk->bik', obj(a[0]), obj(a[1]))
    if name in ('mm', 'matmul', 'mv', 'dot'):
        return np.asarray(np.dot(obj(a[0]), obj(a[1])), dtype=object)
    if name in ('_to_copy', 'to'):
        dt = k.get('dtype')
        if dt is None or dt.is_floating_point:
            return a[0]
        raise Unsupported('cast of symbolic values to %s' % dt)
    if name == 'sum':
        ax = a[1] if len(a) > 1 else None
        return np.asarray(obj(a[0]).sum(axis=None if not ax else tuple(ax), keepdims=bool(a[2]) if len(a) > 2 else False), dtype=object)
    if name == 'mean':
        ax = tuple(a[1]) if len(a) > 1 and a[1] else tuple(range(obj(a[0]).ndim))
        n = int(np.prod([a[0].shape[i] for i in ax]))
        return np.asarray(obj(a[0]).sum(axis=ax, keepdims=bool(a[2]) if len(a) > 2 else False), dtype=object) / n
    if name == 'pow':
        return obj(a[0]) ** a[1]
    if name == 'sqrt':
        return _elementwise(lambda v: Sym.of(v) ** 0.5)(a[0])
    if name in ('cos', 'sin', 'exp', 'log', 'abs'):
        f = (lambda v: abs(Sym.of(v))) if name == 'abs' else (lambda v: getattr(Sym.of(v), name)())
        return _elementwise(f)(a[0])
    if name == 'rsqrt':
        return _elementwise(lambda v: 1 / Sym.of(v) ** 0.5)(a[0])
    if name in ('amax', 'argmax'):
        r = _aten(target, name.replace('max', 'min'), [-obj(a[0])] + list(a[1:]), k, raw)
        return r if name == 'argmax' else -r
    if name in ('amin', 'argmin'):
        ax = a[1] if len(a) > 1 else None
        if len(a) > 2 and a[2]:
            raise Unsupported('kept axis')
        return _smallest(a[0], range(a[0].ndim) if ax is None or ax == [] else [ax] if isinstance(ax, int) else ax, name == 'argmin')
    if name == 'min' and len(a) > 1:
        return (_smallest(a[0], [a[1]]), _smallest(a[0], [a[1]], True))
    if name == 'nan_to_num':
        return a[0]         # finite values
    if name == 'isnan':
        return np.zeros(a[0].shape, dtype=bool)
    if name in COMPARE:
        return _compare(COMPARE[name], a[0], a[1])
    raise Unsupported('torch operator ' + name)
