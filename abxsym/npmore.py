"""Further numpy functions, written in terms of those of npproxy."""
import builtins as _bi
import types

import numpy as np

from . import core, arr
from .arr import SymArray, TypeProxy, asarr, binary, lift, normal, todt
from .core import SNum, Unsupported, strip, typed
from .npproxy import T, _any_sym, _shape, _un, export, lower, passthrough


def _conc_or(name, f, nargs=None):
    """f when an argument is symbolic, else the real function"""
    real = getattr(np, name)

    def call(*a, **k):
        if not _any_sym(a) and not _any_sym(list(k.values())):
            return lift(real(*[lower(v) for v in a],
                             **{q: lower(v) for q, v in k.items()}))
        return f(*a, **k)
    call.__name__ = name
    T[name] = call
    return call


# ---- indices ----------------------------------------------------------------

def _ravel_multi_index(multi, dims, mode='raise', order='C'):
    dims = [v for v in dims] if isinstance(dims, (tuple, list, SymArray)) \
        else [dims]
    ix = [arr._operand(v) for v in multi]
    if mode != 'raise':
        raise Unsupported('ravel_multi_index mode')
    for i, d in zip(ix, dims):
        bad = asarr((asarr(i) < 0) | (asarr(i) >= d)).any()
        if bool(bad):
            raise ValueError('invalid entry in coordinates array')
    acc = 0
    pairs = list(zip(ix, dims))
    for i, d in (pairs if order == 'C' else reversed(pairs)):
        acc = acc * d + i
    return acc


def _unravel_index(indices, shape, order='C'):
    dims = list(shape) if isinstance(shape, (tuple, list, SymArray)) \
        else [shape]
    x = arr._operand(indices)
    total = 1
    for d in dims:
        total = total * d
    if bool(asarr((asarr(x) < 0) | (asarr(x) >= total)).any()):
        raise ValueError('index is out of bounds for array with size')
    out = []
    for d in (reversed(dims) if order == 'C' else dims):
        out.append(x % d)
        x = x // d
    return tuple(reversed(out) if order == 'C' else out)


_conc_or('ravel_multi_index', _ravel_multi_index)
_conc_or('unravel_index', _unravel_index)


@export('broadcast_arrays')
def np_broadcast_arrays(*xs, **k):
    xs = [asarr(x) for x in xs]
    return [SymArray(r, x.dt, x.sym) for r, x in zip(
        np.broadcast_arrays(*[x.a for x in xs]), xs)]


@export('eye')
def np_eye(N, M=None, k=0, dtype=float, order='C'):
    return SymArray(np.eye(*[v if v is None else v.__index__() for v in
                             (N, M, k)], dtype=todt(dtype)))


@export('identity')
def np_identity(n, dtype=None):
    return SymArray(np.identity(n.__index__(), todt(dtype)))


@export('block')
def np_block(x):
    def depth(v):
        return 1 + max(map(depth, v)) if isinstance(v, list) else 0
    nd = [depth(x)]

    def leaves(v):
        if isinstance(v, list):
            for u in v:
                leaves(u)
        else:
            nd.append(asarr(v).ndim)
    leaves(x)
    ndim = max(nd)

    def go(v, d):
        if not isinstance(v, list):
            v = asarr(v)
            return v.reshape((1,) * (ndim - v.ndim) + v.shape)
        return T['concatenate']([go(u, d - 1) for u in v], -d)
    if not _any_sym(x):
        return lift(np.block(lower(x)))
    return go(x, depth(x))


@export('insert')
def np_insert(x, obj, values, axis=None):
    x, values = asarr(x), asarr(values)
    if not x.sym and not values.sym:
        return lift(np.insert(x.a, lower(obj), values.a, axis))
    d = x.dt
    return normal(np.insert(x.obj(), lower(obj), arr._map1(
        values.obj(), lambda e: arr.cast_elem(e, d)), axis), d)


@export('put')
def np_put(x, ind, v, mode='raise'):
    ind, v = asarr(ind).ravel(), asarr(v).ravel()
    flat = x.ravel()
    ixs = [i.__index__() for i in ind]
    for n, i in enumerate(ixs):
        flat[i] = v[n % len(v)]
    x[...] = flat.reshape(x.shape)


@export('place', 'putmask')
def np_place(x, mask, vals):
    vals = asarr(vals).ravel()
    if len(vals) == 1:
        x[...] = T['where'](mask, vals[0], x)
        return
    raise Unsupported('np.place with several values')


@export('copyto')
def np_copyto(dst, src, casting='same_kind', where=True):
    d = asarr(src).dt
    if isinstance(src, (_bi.int, _bi.float)):
        d = np.min_scalar_type(src)
    if not np.can_cast(d, dst.dt, casting):
        raise TypeError('Cannot cast array data from %r to %r according to '
                        'the rule %r' % (d, dst.dt, casting))
    if where is True:
        dst[...] = src
    else:
        dst[...] = T['where'](where, src, dst)


# ---- choices ----------------------------------------------------------------

def _select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = T['where'](c, v, r)
    return asarr(r)


def _choose(a, choices, out=None, mode='raise'):
    a = asarr(a)
    choices = list(choices)
    if mode != 'raise':
        raise Unsupported('choose mode')
    if bool(((a < 0) | (a >= len(choices))).any()):
        raise ValueError('invalid entry in choice array')
    r = choices[-1]
    for i in range(len(choices) - 2, -1, -1):
        r = T['where'](a == i, choices[i], r)
    return r


def _piecewise(x, condlist, funclist, *a, **k):
    x = asarr(x)
    if not isinstance(condlist, (list, tuple)):
        condlist = [condlist]
    funcs = list(funclist)
    default = funcs.pop() if len(funcs) == len(condlist) + 1 else 0
    val = lambda f: f(x, *a, **k) if callable(f) else f
    r = val(default)
    for c, f in zip(condlist, funcs):
        r = T['where'](c, val(f), r)
    return asarr(r).astype(x.dt)


_conc_or('select', _select)
_conc_or('choose', _choose)
_conc_or('piecewise', _piecewise)


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = arr._operand(x)
    big = np.finfo(arr._sdt(x)).max if arr._sdt(x).kind == 'f' else 0
    W = T['where']
    r = W(T['isnan'](x), nan, x)
    inf = T['isinf'](x)
    r = W(inf & (x > 0), big if posinf is None else posinf, r)
    r = W(inf & (x < 0), -big if neginf is None else neginf, r)
    if not copy:
        x[...] = r
    return r


_conc_or('nan_to_num', _nan_to_num)


# ---- arithmetic -------------------------------------------------------------

_un('positive', lambda x: x)
_un('reciprocal', lambda x: core.raw_truediv(1.0, x), True)
_un('log1p', lambda x: core.raw_uf('log', lambda v: _bi.float(np.log(v)))(
    core.raw_add(1.0, x)), True)
_un('expm1', lambda x: core.raw_sub(core.raw_uf(
    'exp', lambda v: _bi.float(np.exp(v)))(x), 1.0), True)
_un('deg2rad', lambda x: core.raw_mul(x, _bi.float(np.pi / 180)), True)
T['radians'] = T['deg2rad']
_un('rad2deg', lambda x: core.raw_mul(x, _bi.float(180 / np.pi)), True)
T['degrees'] = T['rad2deg']
_un('signbit', lambda x: core.mk_bool(core.z3.fpIsNegative(x.e))
    if core.is_sym(x) and x.k == 'd' else core.raw_lt(x, 0), rd=arr.BOOL)


@export('invert', 'bitwise_not')
def np_invert(x):
    return ~arr._operand(x) if isinstance(arr._operand(x), (SymArray, SNum)) \
        else lift(np.invert(lower(x)))


@export('left_shift')
def np_lshift(x, y):
    y = lower(y)
    return binary(x, lift(np.left_shift(1, y)), 'mul')


@export('right_shift')
def np_rshift(x, y):
    y = lower(y)
    return binary(x, lift(np.left_shift(1, y)), 'floordiv')


SymArray.__lshift__ = np_lshift
SymArray.__rshift__ = np_rshift


def _iset(f):
    def g(self, y):
        self[...] = f(self, y)
        return self
    return g


SymArray.__ilshift__, SymArray.__irshift__ = _iset(np_lshift), _iset(np_rshift)
T['fmod'] = T['fmod'] if 'fmod' in T else passthrough('fmod', np.fmod)


@export('hypot')
def np_hypot(x, y):
    if not _any_sym([x, y]):
        return lift(np.hypot(lower(x), lower(y)))
    x, y = [T['multiply'](v, 1.0) for v in (x, y)]
    return T['sqrt'](binary(binary(x, x, 'mul'), binary(y, y, 'mul'), 'add'))


@export('vdot')
def np_vdot(x, y):
    return arr.dot(asarr(x).ravel(), asarr(y).ravel())


@export('trace')
def np_trace(x, offset=0, axis1=0, axis2=1, dtype=None):
    x = asarr(x)
    return T['diag'](x, offset).sum(dtype=dtype)


@export('tensordot')
def np_tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if not a.sym and not b.sym:
        return lift(np.tensordot(a.a, b.a, lower(axes)))
    if isinstance(axes, (_bi.int, np.integer)):
        axa, axb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        axa, axb = [[v] if isinstance(v, _bi.int) else list(v) for v in axes]
    axa, axb = [v % a.ndim for v in axa], [v % b.ndim for v in axb]
    la, lb = 'abcdefgh'[:a.ndim], list('ABCDEFGH'[:b.ndim])
    for i, j in zip(axa, axb):
        lb[j] = la[i]
    lb = ''.join(lb)
    out = ''.join(c for i, c in enumerate(la) if i not in axa) + ''.join(
        c for j, c in enumerate(lb) if j not in axb)
    return np_einsum('%s,%s->%s' % (la, lb, out), a, b)


@export('einsum')
def np_einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported('einsum')
    ops = [asarr(v) for v in ops]
    if all(not v.sym for v in ops):
        return lift(np.einsum(spec, *[v.a for v in ops]))
    spec = spec.replace(' ', '')
    if '...' in spec:
        free = [c for c in 'ZYXWVUTS']
        extra = max(v.ndim - len(s.replace('...', '')) for v, s in zip(
            ops, spec.split('->')[0].split(',')) if '...' in s)
        parts = spec.split('->')
        ins = [s.replace('...', ''.join(reversed(free[:v.ndim - len(
            s.replace('...', ''))]))) for v, s in zip(
                ops, parts[0].split(','))]
        spec = ','.join(ins)
        if len(parts) == 2:
            spec += '->' + parts[1].replace(
                '...', ''.join(reversed(free[:extra])))
    if '->' not in spec:
        cs = spec.replace(',', '')
        spec += '->' + ''.join(sorted(c for c in set(cs)
                                      if cs.count(c) == 1))
    ins, out = spec.split('->')
    ins = ins.split(',')
    size = {}
    for s, v in zip(ins, ops):
        if len(s) != v.ndim:
            raise ValueError('einstein sum subscripts string')
        for c, n in zip(s, v.shape):
            if size.setdefault(c, n) not in (n, 1) and n != 1:
                raise ValueError('operands could not be broadcast together')
            size[c] = max(size[c], n)
    d = np.result_type(*[v.dt for v in ops])
    objs = [v.obj() for v in ops]
    summed = sorted(set(''.join(ins)) - set(out))
    res = np.empty(tuple(size[c] for c in out), dtype=object)
    for ix in np.ndindex(*res.shape):
        at = dict(zip(out, ix))
        acc = None
        for jx in np.ndindex(*[size[c] for c in summed]):
            at.update(zip(summed, jx))
            p = None
            for s, o in zip(ins, objs):
                e = o[tuple(at[c] if n > 1 else 0
                            for c, n in zip(s, o.shape))]
                e = arr.cast_elem(e, d)
                p = e if p is None else core.raw_mul(p, e)
            acc = p if acc is None else core.raw_add(acc, p)
        res[ix] = arr.cast_elem(0, d) if acc is None else acc
    if res.ndim == 0:
        return typed(res[()], d)
    return normal(res, d)


# ---- reductions -------------------------------------------------------------

def _axes_n(x, axis):
    if axis is None:
        return x.size
    if isinstance(axis, tuple):
        return _bi.int(np.prod([x.shape[v] for v in axis]))
    return x.shape[axis]


@export('ptp')
def np_ptp(x, axis=None, **k):
    x = asarr(x)
    return T['max'](x, axis, **k) - T['min'](x, axis, **k)


def _var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    x = asarr(x)
    if x.dt.kind != 'f':
        x = x.astype(arr.F8)
    n = _axes_n(x, axis)
    m = T['sum'](x, axis, keepdims=True) / n
    d = x - m
    return T['sum'](d * d, axis, keepdims=keepdims) / (n - ddof)


_conc_or('var', _var)
_conc_or('std', lambda *a, **k: T['sqrt'](_var(*a, **k)))


def _median(x, axis=None, **k):
    if k:
        raise Unsupported('median options')
    x = asarr(x)
    if axis is None:
        x, axis = x.ravel(), 0
    x = T['sort'](x, axis)
    n = x.shape[axis]
    mid = T['take'](x, list(range((n - 1) // 2, n // 2 + 1)), axis)
    return mid.mean(axis)


_conc_or('median', _median)


def _nanzero(x, fill):
    x = asarr(x)
    return T['where'](T['isnan'](x), fill, x) if x.dt.kind == 'f' else x


_conc_or('nansum', lambda x, axis=None, dtype=None, **k: T['sum'](
    _nanzero(x, 0), axis, dtype, **k))
_conc_or('nanprod', lambda x, axis=None, dtype=None, **k: T['prod'](
    _nanzero(x, 1), axis, dtype, **k))


def _nanmean(x, axis=None, dtype=None, **k):
    x = asarr(x)
    n = T['sum'](T['logical_not'](T['isnan'](x)).astype(arr.I64), axis)
    return T['sum'](_nanzero(x, 0), axis) / n


_conc_or('nanmean', _nanmean)


def _average(x, axis=None, weights=None, returned=False, **k):
    if weights is None:
        r = T['mean'](x, axis)
        return (r, _axes_n(asarr(x), axis) * 1.0) if returned else r
    x, w = asarr(x), asarr(weights)
    if w.ndim == 1 and x.ndim > 1:
        sh = [1] * x.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
        w = T['broadcast_to'](w, x.shape)
    s = T['sum'](w, axis)
    if bool(asarr(s == 0).any()):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = T['sum'](x * w, axis) / s
    return (r, s) if returned else r


_conc_or('average', _average)


# ---- order ------------------------------------------------------------------

@export('partition')
def np_partition(x, kth, axis=-1, **k):
    # a sorted array is partitioned
    return T['sort'](x, axis)


@export('argpartition')
def np_argpartition(x, kth, axis=-1, **k):
    return T['argsort'](x, axis)


@export('setxor1d')
def np_setxor1d(x, y, assume_unique=False):
    x, y = asarr(x).ravel(), asarr(y).ravel()
    if not assume_unique:
        x, y = T['unique'](x), T['unique'](y)
    return T['sort'](T['concatenate']([
        x[T['isin'](x, y, invert=True)], y[T['isin'](y, x, invert=True)]]))


_intersect = T['intersect1d']


@export('intersect1d')
def np_intersect1d(x, y, assume_unique=False, return_indices=False):
    if not return_indices or not _any_sym([x, y]):
        return _intersect(x, y, assume_unique, return_indices)
    x, y = asarr(x).ravel(), asarr(y).ravel()
    ux, ix = T['unique'](x, return_index=True)
    uy, iy = T['unique'](y, return_index=True)
    m = T['isin'](ux, uy)
    n = T['isin'](uy, ux)
    return ux[m], ix[m], iy[n]


# ---- types ------------------------------------------------------------------

def _ty(x):
    if isinstance(x, (SymArray, SNum)):
        return x.dt if x.dt is not None else lower(x)
    if x is None or isinstance(x, (str, np.dtype, type)):
        return todt(x) if x is not None else x
    try:
        return todt(x)
    except Exception:
        return lower(x)


@export('can_cast')
def np_can_cast(a, b, casting='safe'):
    if isinstance(a, SNum) and a.dt is None or isinstance(
            a, (_bi.int, _bi.float)) and not isinstance(a, bool):
        return np.can_cast(T['min_scalar_type'](a), _ty(b), casting)
    return np.can_cast(_ty(a), _ty(b), casting)


@export('promote_types')
def np_promote_types(a, b):
    return np.promote_types(_ty(a), _ty(b))


@export('issubdtype')
def np_issubdtype(a, b):
    a = getattr(a, 'real', a) if isinstance(a, type) else a
    b = getattr(b, 'real', b) if isinstance(b, type) and hasattr(
        b, 'real') and isinstance(getattr(b, 'real'), type) else b
    f = lambda v: v if isinstance(v, type) and issubclass(
        v, np.generic) else np.dtype(todt(v)).type
    return np.issubdtype(f(a), f(b))


# ---- linear algebra ---------------------------------------------------------

class LinalgProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy.linalg')

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = asarr(x)
        if not x.sym:
            return lift(np.linalg.norm(x.a, ord, axis, keepdims))
        if x.dt.kind != 'f':
            x = x.astype(arr.F8)
        if ord is not None and ord != 2 and axis is None and x.ndim != 1 or \
                isinstance(axis, tuple) and len(axis) > 1 and \
                ord not in (None, 'fro') or ord == 2 and axis is None and \
                x.ndim != 1:
            raise Unsupported('matrix norm')
        if ord in (None, 2, 'fro'):
            return T['sqrt'](T['sum'](x * x, axis, keepdims=keepdims))
        if ord == 1:
            return T['sum'](abs(x), axis, keepdims=keepdims)
        if ord == np.inf:
            return T['max'](abs(x), axis, keepdims=keepdims)
        if ord == -np.inf:
            return T['min'](abs(x), axis, keepdims=keepdims)
        raise Unsupported('norm')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        r = getattr(np.linalg, n)
        return passthrough('linalg.' + n, r) if callable(r) and \
            not isinstance(r, type) else r
