"""Stand-in for the numpy module, given to the code under test."""
import builtins as _bi
import fractions
import math as _math
import types

import numpy as np

from . import core, arr
from .arr import (SymArray, TypeProxy, ScaledDtype, asarr, binary, unary,
                  reduce_, lift, todt, normal, dtview, BUILTIN_TYPES, cast_elem)
from .core import SNum, Unsupported, is_sym, typed, strip, z3


# ---- int / float / bool as seen by the code --------------------------------

class _IntMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymArray):
                x = x._one()
            if isinstance(x, SNum):
                return core.raw_trunc(strip(x))
            if isinstance(x, fractions.Fraction):
                return _bi.int(x)
            return _bi.int(x)
        return _bi.int(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, _bi.int) or (
            isinstance(x, SNum) and x.k in 'ib' and x.dt is None)

    def __subclasscheck__(cls, c):
        return issubclass(c, _bi.int)


class PInt(_bi.int, metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymArray):
                x = x._one()
            if isinstance(x, SNum):
                if x.k == 'd':
                    return strip(x)
                return core.mk_real(core.zreal(strip(x)))
        return _bi.float(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, _bi.float) or (
            isinstance(x, SNum) and x.k in 'fd')

    def __subclasscheck__(cls, c):
        return issubclass(c, _bi.float)


class PFloat(_bi.float, metaclass=_FloatMeta):
    pass


PInt.__name__ = PInt.__qualname__ = 'int'
PFloat.__name__ = PFloat.__qualname__ = 'float'
BUILTIN_TYPES[PInt] = _bi.int
BUILTIN_TYPES[PFloat] = _bi.float


def p_min(*args, **kw):
    return _ext(core.raw_lt, core.raw_min, _bi.min, args, kw)


def p_max(*args, **kw):
    return _ext(core.raw_gt, core.raw_max, _bi.max, args, kw)


def _ext(better, merge, real, args, kw):
    if kw:
        return real(*args, **kw)
    vals = list(args[0]) if len(args) == 1 else list(args)
    if len(vals) > 1 and any(isinstance(v, SNum) for v in vals) and all(
            core._ok_operand(v) for v in vals):
        acc = vals[0]
        for v in vals[1:]:
            # min/max keep the first of equal values: the value is the same
            dx, dy = core._scalar_dt(acc), core._scalar_dt(v)
            r = core.raw_ite(better(strip(v), strip(acc)), strip(v),
                             strip(acc))
            dt = dx if dx == dy else (dx or dy)
            acc = typed(r, dt) if is_sym(r) and dt is not None else r
        return acc
    return real(vals)


# ---- lowering to the real numpy ---------------------------------------------

def lower(x):
    if isinstance(x, SymArray):
        return x.concrete()
    if isinstance(x, SNum):
        core.ENGINE.degrade('concretised scalar')
        v = core.ENGINE.concretise(x.e)
        if isinstance(v, fractions.Fraction):
            v = _bi.float(v)
        return x.dt.type(v) if x.dt is not None else v
    if isinstance(x, TypeProxy):
        return x.t
    if isinstance(x, ScaledDtype):
        return x.dt
    if isinstance(x, fractions.Fraction):
        return _bi.float(x)
    if isinstance(x, type) and x in BUILTIN_TYPES:
        return BUILTIN_TYPES[x]
    if isinstance(x, list):
        return [lower(v) for v in x]
    if type(x) is tuple:
        return tuple(lower(v) for v in x)
    if type(x) is dict:
        return {k: lower(v) for k, v in x.items()}
    if hasattr(x, '_fake_dataset'):
        return lower(x[...])
    return x


def _any_sym(x):
    if isinstance(x, SNum):
        return True
    if isinstance(x, SymArray):
        return x.sym
    if isinstance(x, (list, tuple)):
        return any(_any_sym(v) for v in x)
    return False


def passthrough(name, f):
    def call(*a, **k):
        if any(_any_sym(v) for v in a) or any(
                _any_sym(v) for v in k.values()):
            core.ENGINE.degrade('np.' + name)
        r = f(*[lower(v) for v in a], **{q: lower(v) for q, v in k.items()})
        return lift(r)
    call.__name__ = name
    return call


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, SymArray))


class PNdarray(metaclass=_NdMeta):
    def __new__(cls, shape, dtype=float):
        return np_empty(shape, dtype)


class _NumMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SNum) and x.dt is not None:
            return issubclass(x.dt.type, cls.real)
        return isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        c = c.t if isinstance(c, TypeProxy) else c
        return issubclass(c, cls.real)


def _abstract(real):
    return _NumMeta(real.__name__, (), {'real': real})


T = {}


def export(f=None, *names):
    if f is None or isinstance(f, str):
        nm = ((f,) if f else ()) + names

        def deco(g):
            for n in nm:
                T[n] = g
            return g
        return deco
    T[f.__name__] = f
    return f


# ---- construction -----------------------------------------------------------

@export('array')
def np_array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False,
             **kw):
    r = asarr(_listify(x), todt(dtype), copy=True)
    if isinstance(r, SymArray) and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _listify(x):
    if isinstance(x, types.GeneratorType):
        return x
    return x


@export('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray',
        'require')
def np_asarray(x, dtype=None, *a, **k):
    return asarr(x, todt(dtype))


@export('atleast_1d')
def np_atleast_1d(x):
    x = asarr(x)
    return x.reshape(1) if x.ndim == 0 else x


@export('atleast_2d')
def np_atleast_2d(x):
    x = asarr(x)
    if x.ndim == 0:
        return x.reshape(1, 1)
    return x.reshape((1,) + x.shape) if x.ndim == 1 else x


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(_bi.int(v) for v in s)
    if isinstance(s, SymArray):
        return tuple(_bi.int(v) for v in s)
    return (s.__index__(),)


@export('zeros')
def np_zeros(shape, dtype=float, order='C', **k):
    return SymArray(np.zeros(_shape(shape), todt(dtype)))


@export('ones')
def np_ones(shape, dtype=float, order='C', **k):
    return SymArray(np.ones(_shape(shape), todt(dtype)))


@export('empty')
def np_empty(shape, dtype=float, order='C', **k):
    d = todt(dtype)
    a = np.zeros(_shape(shape), d)
    # uninitialised memory: a recognisable value that is never a result
    if d.kind in 'iu':
        a[...] = 93 if d.itemsize == 1 else 23130
    elif d.kind == 'f':
        a[...] = -7.25e11
    return SymArray(a)


@export('full')
def np_full(shape, v, dtype=None, order='C', **k):
    d = todt(dtype) or arr._elem_dt(v)
    r = SymArray(np.zeros(_shape(shape), d))
    r[...] = v
    return r


@export('zeros_like')
def np_zeros_like(x, dtype=None, *a, **k):
    x = asarr(x)
    return np_zeros(k.get('shape', x.shape) or x.shape, dtype or x.dt)


@export('ones_like')
def np_ones_like(x, dtype=None, *a, **k):
    x = asarr(x)
    return np_ones(x.shape, dtype or x.dt)


@export('empty_like')
def np_empty_like(x, dtype=None, *a, **k):
    x = asarr(x)
    return np_empty(x.shape, dtype or x.dt)


@export('full_like')
def np_full_like(x, v, dtype=None, *a, **k):
    x = asarr(x)
    return np_full(x.shape, v, dtype or x.dt)


@export('arange')
def np_arange(*a, **k):
    a = list(a)
    d = k.pop('dtype', None)
    if len(a) == 4:
        d = a.pop()
    a = [v._one() if isinstance(v, SymArray) else v for v in a]
    a = [v.__index__() if isinstance(v, SNum) and v.k in 'ib' else lower(v)
         for v in a]
    return SymArray(np.arange(*a, dtype=todt(d), **lower(k)))


@export('fromiter')
def np_fromiter(it, dtype, count=-1):
    return asarr(list(it), todt(dtype))


@export('copy')
def np_copy(x, *a, **k):
    return asarr(x).copy()


# ---- structure --------------------------------------------------------------

def _joined(seq):
    parts = [asarr(v) for v in seq]
    d = None
    if all(not p.sym for p in parts):
        return [p.a for p in parts], None
    nz = [p.dt for p in parts]
    d = np.result_type(*nz)
    objs = [arr._map1(p.obj(), lambda e: cast_elem(e, d)) for p in parts]
    return objs, d


def _join_fn(name):
    real = getattr(np, name)

    def f(seq, *a, **k):
        dtype = k.pop('dtype', None)
        seq = list(seq)
        objs, d = _joined(seq)
        r = real(objs, *lower(a), **lower(k))
        r = lift(r) if d is None else normal(r, d)
        return r.astype(dtype) if dtype is not None else r
    f.__name__ = name
    T[name] = f


for _n in ('concatenate', 'hstack', 'vstack', 'column_stack', 'stack',
           'row_stack', 'dstack'):
    _join_fn(_n)


def _struct_fn(name, method=None):
    real = getattr(np, name)

    def f(x, *a, **k):
        x = asarr(x)
        r = real(x.a, *lower(list(a)), **lower(k))
        if isinstance(r, list):
            return [SymArray(v, x.dt, x.sym) for v in r]
        if isinstance(r, tuple):
            return tuple(SymArray(v, x.dt, x.sym) for v in r)
        if not isinstance(r, np.ndarray):
            return typed(r, x.dt)
        return SymArray(r, x.dt, x.sym)
    f.__name__ = name
    T[name] = f


for _n in ('tile', 'repeat', 'flip', 'flipud', 'fliplr', 'roll', 'expand_dims',
           'moveaxis', 'swapaxes', 'broadcast_to', 'rot90', 'array_split',
           'split', 'hsplit', 'vsplit', 'diag', 'triu', 'tril', 'delete',
           'trim_zeros', 'rollaxis'):
    _struct_fn(_n)


@export('reshape')
def np_reshape(x, s, *a, **k):
    x = asarr(x)
    return x.reshape(_shape(s))


@export('ravel')
def np_ravel(x, *a, **k):
    return asarr(x).ravel()


@export('transpose')
def np_transpose(x, axes=None):
    x = asarr(x)
    return x.T if axes is None else x.transpose(axes)


@export('squeeze')
def np_squeeze(x, axis=None):
    return asarr(x).squeeze(axis)


@export('size')
def np_size(x, axis=None):
    x = asarr(x)
    return x.size if axis is None else x.shape[axis]


@export('shape')
def np_shape(x):
    return asarr(x).shape


@export('ndim')
def np_ndim(x):
    return asarr(x).ndim


@export('append')
def np_append(x, v, axis=None):
    x, v = asarr(x), asarr(v)
    if axis is None:
        x, v = x.ravel(), v.ravel()
        axis = 0
    return T['concatenate']([x, v], axis)


@export('meshgrid')
def np_meshgrid(*xs, **k):
    xs = [asarr(x) for x in xs]
    rs = np.meshgrid(*[x.a for x in xs], **lower(k))
    return [SymArray(r, x.dt, x.sym) for r, x in zip(rs, xs)]


@export('take')
def np_take(x, idx, axis=None, **k):
    return asarr(x).take(idx, axis)


@export('take_along_axis')
def np_take_along(x, idx, axis):
    x = asarr(x)
    return SymArray(np.take_along_axis(x.a, lower(idx), axis), x.dt, x.sym)


@export('compress')
def np_compress(c, x, axis=None):
    x = asarr(x)
    m = arr.decide_mask(asarr(c))
    return SymArray(np.compress(m, x.a, axis), x.dt, x.sym)


@export('extract')
def np_extract(c, x):
    return asarr(x).ravel()[asarr(c).ravel()]


# ---- elementwise ------------------------------------------------------------

def _bin(op, *names):
    def f(x, y, out=None, **k):
        if 'where' in k or k.get('dtype') is not None:
            r = binary(x, y, op)
            if k.get('dtype') is not None:
                r = asarr(r).astype(k['dtype'])
            if 'where' in k:
                base = asarr(out).copy() if out is not None else asarr(r)
                r = np_where(k['where'], r, base)
        else:
            r = binary(x, y, op)
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            out[...] = r
            return out
        return r
    for n in names:
        T[n] = f
    _uf(f, op)


def _uf(f, op):
    def reduce(x, axis=0, dtype=None, out=None, keepdims=False, **k):
        how = {'add': 'sum', 'mul': 'prod', 'max': 'max', 'min': 'min',
               'land': 'all', 'lor': 'any'}.get(op)
        if how is None:
            return passthrough(op + '.reduce', getattr(
                arr._OPS[op][1], 'reduce'))(x, axis, dtype)
        return reduce_(asarr(x), how, axis, dtype, keepdims, **k)

    def accumulate(x, axis=0, dtype=None):
        how = {'add': 'sum', 'mul': 'prod'}.get(op)
        if how is None:
            return passthrough(op + '.accumulate', getattr(
                arr._OPS[op][1], 'accumulate'))(x, axis, dtype)
        return arr.cumul(asarr(x), how, axis, dtype)

    def outer(x, y):
        x, y = asarr(x), asarr(y)
        return binary(x.reshape(x.shape + (1,) * y.ndim), y, op)

    def reduceat(x, ix, axis=0, dtype=None):
        x = asarr(x)
        ix = [_bi.int(i) for i in asarr(ix)]
        if axis != 0:
            raise Unsupported('reduceat axis')
        n = x.shape[0]
        out = []
        for i, s in enumerate(ix):
            e = ix[i + 1] if i + 1 < len(ix) else n
            seg = x[s:e] if e > s else x[s:s + 1]
            out.append(reduce(seg, 0, dtype))
        return asarr(out)

    def at(x, ix, v):
        ixs = [i for i in asarr(ix)]
        v = asarr(v)
        for n, i in enumerate(ixs):
            i = i.__index__()
            x[i] = binary(x[i], v if v.ndim == 0 else v[n], op)
    f.reduce = reduce
    f.accumulate = accumulate
    f.outer = outer
    f.reduceat = reduceat
    f.at = at


for _op, _names in (
        ('add', ('add',)), ('sub', ('subtract',)), ('mul', ('multiply',)),
        ('floordiv', ('floor_divide',)), ('mod', ('mod', 'remainder')),
        ('div', ('divide', 'true_divide')), ('pow', ('power',)),
        ('lt', ('less',)), ('le', ('less_equal',)), ('gt', ('greater',)),
        ('ge', ('greater_equal',)), ('eq', ('equal',)), ('ne', ('not_equal',)),
        ('land', ('logical_and',)), ('lor', ('logical_or',)),
        ('lxor', ('logical_xor',)),
        ('min', ('minimum', 'fmin')), ('max', ('maximum', 'fmax'))):
    _bin(_op, *_names)


@export('bitwise_and')
def np_bitand(x, y):
    return asarr(x) & y


@export('bitwise_or')
def np_bitor(x, y):
    return asarr(x) | y


@export('bitwise_xor')
def np_bitxor(x, y):
    return asarr(x) ^ y


@export('divmod')
def np_divmod(x, y):
    return binary(x, y, 'floordiv'), binary(x, y, 'mod')


def _float_dt(x):
    d = arr._sdt(x) if isinstance(x, (SymArray, SNum)) else arr._elem_dt(x)
    return d if d.kind == 'f' else arr.F8


def _un(name, rawf, floaty=False, rd=None):
    real = getattr(np, name)

    def f(x, out=None, **k):
        x = arr._operand(x)
        if not isinstance(x, (SymArray, SNum)) or (
                isinstance(x, SymArray) and not x.sym):
            r = lift(real(lower(x)))
        else:
            d = rd or (_float_dt(x) if floaty else None)
            r = unary(x, rawf, d)
        if out is not None:
            out[...] = r
            return out
        return r
    f.__name__ = name
    T[name] = f
    return f


_un('sqrt', core.raw_sqrt, True)
_un('log', core.raw_uf('log', lambda v: _bi.float(np.log(v))), True)
_un('exp', core.raw_uf('exp', lambda v: _bi.float(np.exp(v))), True)
_un('arccos', core.raw_arccos, True)
_un('cos', core.raw_uf('cos', lambda v: _bi.float(np.cos(v))), True)
_un('sin', core.raw_uf('sin', lambda v: _bi.float(np.sin(v))), True)
_un('log2', core.raw_uf('log2', lambda v: _bi.float(np.log2(v))), True)
_un('log10', core.raw_uf('log10', lambda v: _bi.float(np.log10(v))), True)
_un('floor', core.raw_floor, True)
_un('ceil', core.raw_ceil, True)
_un('rint', core.raw_rint, True)
_un('trunc', lambda x: core.mk_real(core.zreal(core.raw_trunc(x)))
    if is_sym(x) else _bi.float(_math.trunc(x)), True)
T['fix'] = T['trunc']
_un('absolute', core.raw_abs)
T['abs'] = T['absolute']
T['fabs'] = T['absolute']
_un('square', lambda x: core.raw_mul(x, x))
_un('logical_not', core.raw_not, rd=arr.BOOL)
_un('negative', core.raw_neg)


def _sign(x):
    if not is_sym(x):
        return (x > 0) - (x < 0) if x == x else x
    if x.k == 'd':
        e = x.e
        one, m1 = core.fpval(1.0), core.fpval(-1.0)
        return core.mk_fp(z3.If(z3.fpIsNaN(e), e, z3.If(
            z3.fpIsZero(e), core.fpval(0.0),
            z3.If(z3.fpIsNegative(e), m1, one))))
    return core.raw_ite(core.raw_gt(x, 0), 1, core.raw_ite(
        core.raw_lt(x, 0), -1, 0))


_un('sign', _sign)


def _isnan(x):
    if not is_sym(x):
        return x != x
    return core.mk_bool(z3.fpIsNaN(x.e)) if x.k == 'd' else False


def _isinf(x):
    if not is_sym(x):
        return x in (_bi.float('inf'), _bi.float('-inf'))
    return core.mk_bool(z3.fpIsInf(x.e)) if x.k == 'd' else False


_un('isnan', _isnan, rd=arr.BOOL)
_un('isinf', _isinf, rd=arr.BOOL)
_un('isfinite', lambda x: core.raw_not(core.raw_or(_isnan(x), _isinf(x))),
    rd=arr.BOOL)


@export('round', 'around', 'round_')
def np_round(x, decimals=0, out=None):
    x = arr._operand(x)
    if _any_sym(x):
        if decimals < 0 and arr._sdt(x).kind != 'f':
            raise Unsupported('round')
        return arr.sym_round(x, decimals) if arr._sdt(x).kind == 'f' else x
    return lift(np.round(lower(x), decimals))


@export('clip')
def np_clip(x, lo, hi, **k):
    return asarr(x).clip(lo, hi)


@export('where')
def np_where(c, *xy):
    c = asarr(c) if not isinstance(c, SNum) else c
    if not xy:
        return asarr(c).nonzero()
    x, y = [arr._operand(v) for v in xy]
    if isinstance(c, SymArray) and not c.sym and arr._is_conc(x) \
            and arr._is_conc(y):
        return lift(np.where(c.a, arr._real_operand(x), arr._real_operand(y)))
    rd = arr.result_dt(x, y)
    oc = c.obj() if isinstance(c, SymArray) else arr._box(c)
    ox = x.obj() if isinstance(x, SymArray) else arr._box(x)
    oy = y.obj() if isinstance(y, SymArray) else arr._box(y)
    bc, bx, by = np.broadcast_arrays(oc, ox, oy)
    out = np.empty(bc.shape, dtype=object)
    for ix in np.ndindex(*bc.shape):
        out[ix] = core.raw_ite(core.y_bool(bc[ix]), cast_elem(bx[ix], rd),
                               cast_elem(by[ix], rd))
    return normal(out, rd)


@export('nonzero')
def np_nonzero(x):
    return asarr(x).nonzero()


@export('flatnonzero')
def np_flatnonzero(x):
    return asarr(x).ravel().nonzero()[0]


@export('argwhere')
def np_argwhere(x):
    return lift(np.argwhere(arr.decide_mask(asarr(x))))


@export('count_nonzero')
def np_count_nonzero(x, axis=None, **k):
    x = asarr(x)
    if not x.sym:
        return lift(np.count_nonzero(x.a, axis=axis))
    m = x if x.dt.kind == 'b' else x != 0
    return reduce_(m.astype(arr.I64), 'sum', axis)


# ---- reductions -------------------------------------------------------------

def _red(name, *aliases):
    def f(x, axis=None, *a, **k):
        if isinstance(x, types.GeneratorType):
            x = list(x)
        if type(x).__module__.startswith('pandas'):
            return lift(getattr(np, name)(x, axis=axis, *lower(a), **lower(k)))
        x = asarr(x)
        if a:
            k['dtype'] = a[0]
        k.pop('out', None)
        dt = k.pop('dtype', None)
        kd = k.pop('keepdims', False)
        return reduce_(x, {'amax': 'max', 'amin': 'min', 'alltrue': 'all',
                           'sometrue': 'any', 'product': 'prod'}.get(
                               name, name), axis, dt, kd, **k)
    for n in (name,) + aliases:
        T[n] = f


_red('sum')
_red('prod', 'product')
_red('max', 'amax', 'nanmax')
_red('min', 'amin', 'nanmin')
_red('any')
_red('all')


@export('mean')
def np_mean(x, axis=None, dtype=None, **k):
    if k:
        return passthrough('mean', np.mean)(x, axis, dtype, **k)
    return asarr(x).mean(axis, dtype)


@export('argmin')
def np_argmin(x, axis=None, **k):
    return asarr(x).argmin(axis)


@export('argmax')
def np_argmax(x, axis=None, **k):
    return asarr(x).argmax(axis)


@export('cumsum')
def np_cumsum(x, axis=None, dtype=None, **k):
    return asarr(x).cumsum(axis, dtype)


@export('cumprod')
def np_cumprod(x, axis=None, dtype=None, **k):
    return asarr(x).cumprod(axis, dtype)


@export('diff')
def np_diff(x, n=1, axis=-1, prepend=None, append=None):
    x = asarr(x)
    parts = ([asarr(prepend).reshape(-1)] if prepend is not None else []) + \
        [x] + ([asarr(append).reshape(-1)] if append is not None else [])
    if len(parts) > 1:
        x = T['concatenate'](parts)
    for _ in range(n):
        axis %= x.ndim
        a = [slice(None)] * x.ndim
        b = [slice(None)] * x.ndim
        a[axis], b[axis] = slice(1, None), slice(None, -1)
        p, q = x[tuple(a)], x[tuple(b)]
        x = (p != q) if x.dt.kind == 'b' else p - q
    return x


@export('ediff1d')
def np_ediff1d(x):
    return np_diff(asarr(x).ravel())


@export('dot', 'matmul')
def np_dot(x, y, out=None):
    return arr.dot(x, y)


@export('inner')
def np_inner(x, y):
    return arr.dot(x, asarr(y).T)


@export('outer')
def np_outer(x, y):
    x, y = asarr(x).ravel(), asarr(y).ravel()
    return binary(x.reshape(-1, 1), y.reshape(1, -1), 'mul')


# ---- sorting, sets ----------------------------------------------------------

@export('argsort')
def np_argsort(x, axis=-1, kind=None, order=None):
    return arr.argsort(asarr(x), axis)


@export('sort')
def np_sort(x, axis=-1, kind=None, order=None):
    x = asarr(x).copy()
    if axis is None:
        x = x.ravel()
        axis = -1
    x.sort(axis)
    return x


@export('msort')
def np_msort(x):
    return np_sort(x, 0)


@export('lexsort')
def np_lexsort(keys, axis=-1):
    ks = [asarr(k) for k in keys]
    if all(not k.sym for k in ks):
        return lift(np.lexsort([k.a for k in ks], axis))
    ix = list(range(ks[0].shape[0]))
    for k in ks:
        vals = list(k.obj())
        sub = [vals[i] for i in ix]
        ix = [ix[j] for j in arr._sort_idx(sub)]
    return SymArray(np.array(ix, dtype=np.int64))


@export('unique')
def np_unique(x, return_index=False, return_inverse=False,
              return_counts=False, axis=None, **k):
    if isinstance(x, arr.VoidRows):
        r = np_unique(x.arr, axis=0)
        return arr.VoidRows(r)
    x = asarr(x)
    if not x.sym or (x.dt.kind == 'O' and not arr._has_sym(x.a)):
        return lift(np.unique(x.a, return_index, return_inverse,
                              return_counts, axis))
    if axis is not None:
        if axis != 0 or x.ndim != 2:
            raise Unsupported('unique axis')
        o = x.obj()
        ix = np_lexsort([SymArray(o[:, j], x.dt, True)
                         for j in range(o.shape[1] - 1, -1, -1)]).a
        same = lambda i, j: all(bool(core.raw_eq(o[i, c], o[j, c]))
                                for c in range(o.shape[1]))
        take = lambda l: normal(o[l], x.dt)
    else:
        o = x.obj().reshape(-1)
        ix = arr._sort_idx(list(o))
        same = lambda i, j: bool(core.raw_eq(o[i], o[j]))
        take = lambda l: normal(o[l].copy(), x.dt) if l else SymArray(
            np.empty(0, x.dt))
    first, inv, counts = [], [0] * len(ix), []
    prev = None
    for i in ix:
        if prev is not None and same(prev, i):
            counts[-1] += 1
        else:
            first.append(i)
            counts.append(1)
        inv[i] = len(first) - 1
        prev = i
    r = [take(first)]
    if return_index:
        r.append(SymArray(np.array(first, dtype=np.int64)))
    if return_inverse:
        r.append(SymArray(np.array(inv, dtype=np.int64)))
    if return_counts:
        r.append(SymArray(np.array(counts, dtype=np.int64)))
    return r[0] if len(r) == 1 else tuple(r)


@export('searchsorted')
def np_searchsorted(a, v, side='left', sorter=None):
    if sorter is not None:
        a = asarr(a)[sorter]
    return arr.searchsorted(a, v, side)


@export('digitize')
def np_digitize(x, bins, right=False):
    return arr.searchsorted(bins, x, 'left' if right else 'right')


@export('union1d')
def np_union1d(x, y):
    return np_unique(T['concatenate']((asarr(x).ravel(), asarr(y).ravel())))


@export('in1d', 'isin')
def np_isin(x, y, assume_unique=False, invert=False, **k):
    x = asarr(x)
    if isinstance(y, (set, frozenset)):
        y = list(y)
    y = asarr(y)
    if not x.sym and not y.sym:
        return lift(np.isin(x.a, y.a, invert=invert))
    yo = list(y.obj().flat)

    def f(e):
        acc = False
        for v in yo:
            acc = core.raw_or(acc, core.raw_eq(e, v))
        return core.raw_not(acc) if invert else acc
    return normal(arr._map1(x.obj(), f), arr.BOOL)


@export('setdiff1d')
def np_setdiff1d(x, y, assume_unique=False):
    x = asarr(x).ravel()
    if not assume_unique:
        x = np_unique(x)
    return x[np_isin(x, y, invert=True)]


@export('intersect1d')
def np_intersect1d(x, y, assume_unique=False, return_indices=False):
    if return_indices:
        return passthrough('intersect1d', np.intersect1d)(
            x, y, assume_unique, return_indices)
    x = np_unique(asarr(x))
    return x[np_isin(x, y)]


@export('bincount')
def np_bincount(x, weights=None, minlength=0):
    x = asarr(x)
    if not x.sym and (weights is None or not asarr(weights).sym):
        return lift(np.bincount(x.a, lower(weights), minlength))
    vals = [v.__index__() for v in x.obj().flat]
    n = max([minlength] + [v + 1 for v in vals])
    if weights is None:
        out = np.zeros(n, dtype=np.int64)
        for v in vals:
            out[v] += 1
        return SymArray(out)
    w = list(asarr(weights).obj().flat)
    out = [0.0] * n
    for v, q in zip(vals, w):
        out[v] = core.raw_add(out[v], q)
    return asarr(out, arr.F8)


@export('array_equal')
def np_array_equal(x, y, **k):
    x, y = asarr(x), asarr(y)
    if x.shape != y.shape:
        return False
    return bool((x == y).all())


@export('ix_')
def np_ix(*a):
    return np.ix_(*[lower(asarr(v)) for v in a])


# ---- types ------------------------------------------------------------------

@export('dtype')
def np_dtype(d, *a, **k):
    if isinstance(d, ScaledDtype):
        return d
    if isinstance(d, tuple) and d and lower(d[0]) is np.void:
        return np.dtype((np.void, _bi.int(d[1])))
    return dtview(todt(d))


@export('finfo')
def np_finfo(d):
    return np.finfo(todt(d) if not isinstance(d, (SNum, SymArray)) else d.dt)


@export('iinfo')
def np_iinfo(d):
    return np.iinfo(todt(d) if not isinstance(d, (SNum, SymArray)) else d.dt)


@export('result_type')
def np_result_type(*a):
    return np.result_type(*[
        v.dt if isinstance(v, SymArray) else
        (todt(v) if isinstance(v, (TypeProxy, ScaledDtype)) else lower(v))
        for v in a])


@export('min_scalar_type')
def np_min_scalar_type(x):
    if isinstance(x, SymArray) and x.ndim:
        return x.dt
    if isinstance(x, SymArray):
        x = x._one()
    if isinstance(x, SNum) and x.k == 'i':
        for d in (np.uint8, np.uint16, np.uint32, np.uint64):
            if bool(core.raw_and(core.raw_ge(strip(x), 0), core.raw_le(
                    strip(x), _bi.int(np.iinfo(d).max)))):
                return np.dtype(d)
        return np.min_scalar_type(lower(x))
    return np.min_scalar_type(lower(x))


@export('isscalar')
def np_isscalar(x):
    return isinstance(x, SNum) or np.isscalar(x)


@export('vectorize')
def np_vectorize(f, *a, **k):
    def call(*xs):
        xs = [asarr(x) for x in xs]
        b = np.broadcast_arrays(*[x.obj() for x in xs])
        vals = [f(*[typed(v[ix], x.dt) for v, x in zip(b, xs)])
                for ix in np.ndindex(*b[0].shape)]
        return asarr(vals).reshape(b[0].shape)
    return call


@export('apply_along_axis')
def np_apply(f, axis, x, *a, **k):
    x = asarr(x)
    if x.ndim == 1:
        return asarr(f(x, *a, **k))
    if x.ndim == 2:
        rows = x if axis % 2 == 1 else x.T
        r = asarr([f(rows[i], *a, **k) for i in range(rows.shape[0])])
        return r if r.ndim == 1 or axis % 2 == 1 else r.T
    raise Unsupported('apply_along_axis')


@export('ndenumerate')
def np_ndenumerate(x):
    x = asarr(x)
    for ix in np.ndindex(*x.shape):
        yield ix, x[ix]


@export('isclose')
def np_isclose(x, y, rtol=1e-5, atol=1e-8, equal_nan=False):
    x, y = arr._operand(x), arr._operand(y)
    return abs(x - y) <= atol + rtol * abs(asarr(y))


@export('allclose')
def np_allclose(x, y, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(asarr(np_isclose(x, y, rtol, atol)).all())


class _RClass(object):
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                parts.append(np_arange(k.start or 0, k.stop, k.step or 1))
            else:
                parts.append(np_atleast_1d(asarr(k)))
        return T['concatenate'](parts)


class _CClass(object):
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        return T['column_stack']([asarr(k) for k in key])


T['r_'] = _RClass()
T['c_'] = _CClass()


# ---- random -----------------------------------------------------------------

class RandomProxy(types.ModuleType):
    """np.random: every draw is an arbitrary value allowed by its contract."""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy.random')
        self.parent = self          # shares its settings
        self.draws = 0
        self.int_domain = None      # restricts integer draws to a few values
        self.max_draws = None
        self.streams = None         # {position: variable} of seeded draws
        self.key = self.key0 = None
        self.pos = 0
        self.children = []          # the generators made by RandomState
        self.made = []              # the integers drawn
        self.fed = None             # integers to draw again
        self.misfit = []            # those that are out of the range asked

    def start(self):
        self.draws, self.int_domain, self.max_draws = 0, None, None
        self.made, self.fed, self.misfit = [], None, []
        self.streams, self.key, self.pos = None, None, 0
        for r in self.children:     # as when their module was imported
            r.key, r.pos = r.key0, 0

    def _var(self, prefix, make, *dom):
        """the variable of the next draw.  With streams, draws that follow
        seed(s) are a function of s and of their position."""
        E = core.ENGINE
        streams = self.parent.streams
        if streams is not None and self.key is not None:
            k = (self.key, self.pos, prefix) + tuple(map(str, dom))
            self.pos += 1
            if k in streams:
                return streams[k]
        else:
            k = None
        n = E.fresh(prefix)
        v = make(n)
        E.inputs[n] = v
        if k is not None:
            streams[k] = (n, v)
        return n, v

    def _count(self):
        p = self.parent
        p.draws += 1
        if p.max_draws is not None and p.draws > p.max_draws:
            core.ENGINE.assume(False)

    def _real(self, lo=0, hi=1):
        E = core.ENGINE
        self._count()
        n, v = self._var('u', z3.Real)
        E.assume(z3.And(v > 0, v < 1))
        E.notes.setdefault('rng', []).append(('rand', n))
        return SNum('f', v, arr.F8)

    def rand(self, *shape):
        if not shape:
            return self._real()
        k = int(np.prod(shape))
        return asarr([self._real() for _ in range(k)], arr.F8).reshape(shape)

    def random_sample(self, size=None):
        if size is None:
            return self._real()
        return self.rand(*(_shape(size)))

    random = ranf = sample = random_sample

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        E = core.ENGINE

        def one():
            self._count()
            p = self.parent
            if p.fed:
                v = p.fed.pop(0)
                p.misfit += [v < low, v >= high]
                p.made.append(v)
                return v
            n, v = self._var('r', z3.Int, low, high)
            E.assume(z3.And(v >= core.zint(strip(low)),
                            v < core.zint(strip(high))))
            dom = self.parent.int_domain
            if dom:
                E.assume(z3.Or([v == int(d) for d in dom]))
            E.notes.setdefault('rng', []).append(('randint', n))
            if dom:
                return int(E.concretise(v))
            lo = low if not is_sym(low) else low.lo
            hi = high if not is_sym(high) else high.hi
            r = SNum('i', v, None, lo, None if hi is None else hi - 1)
            p.made.append(r)
            return r
        if size is None:
            return typed(one(), todt(dtype))
        sh = _shape(size)
        return asarr([one() for _ in range(int(np.prod(sh)))],
                     todt(dtype)).reshape(sh) if np.prod(sh) else \
            SymArray(np.empty(sh, todt(dtype)))

    def seed(self, s=None):
        if core.ENGINE is not None:
            core.ENGINE.notes.setdefault('rng', []).append(('seed', s))
        self.key = None if s is None else str(strip(s).e) if isinstance(
            s, SNum) else str(_bi.int(s))
        self.pos = 0

    def RandomState(self, seed=None):
        """a generator of its own"""
        r = RandomProxy()
        r.parent = self.parent
        r.seed(seed)
        r.key0 = r.key
        self.parent.children.append(r)
        return r

    def default_rng(self, seed=None):
        return self.RandomState(seed)

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + 1 if endpoint else high, size, dtype)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.random_sample(size)

    def permutation(self, x):
        E = core.ENGINE
        a = np_arange(x) if isinstance(x, (_bi.int, np.integer)) else asarr(
            x).copy()
        n = len(a)
        left = list(range(n))
        order = []
        for i in range(n):
            nm, v = self._var('p', z3.Int, len(left))
            E.assume(z3.And(v >= 0, v < len(left)))
            E.notes.setdefault('rng', []).append(('perm', nm))
            j = E.concretise(v)
            order.append(left.pop(j))
        return a[order]

    def shuffle(self, x):
        p = self.permutation(len(x))
        x[...] = x[p]

    def choice(self, a, size=None, replace=True, p=None):
        pool = np_arange(a) if not isinstance(
            a, (list, tuple, SymArray, np.ndarray)) else asarr(a)
        if size is None:
            return pool[self.randint(0, len(pool))]
        if replace:
            return pool[self.randint(0, len(pool), size)]
        k = _bi.int(size)
        if k > len(pool):
            raise ValueError('Cannot take a larger sample than population '
                             "when 'replace=False'")
        return self.permutation(pool)[:k]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        core.ENGINE and core.ENGINE.degrade('np.random.' + n)
        return passthrough('random.' + n, getattr(np.random, n))


class _Scimath(object):
    def __getattr__(self, n):
        real = getattr(np.lib.scimath, n)

        def f(x, *a, **k):
            v = asarr(x)
            if n in T and v.sym:
                return T[n](x, *a, **k)
            return passthrough(n, real)(x, *a, **k)
        return f


class _Lib(object):
    scimath = _Scimath()

    def __getattr__(self, n):
        return getattr(np.lib, n)


class NumpyProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        from . import npmore
        d = self.__dict__
        d.update(T)
        d['linalg'] = npmore.LinalgProxy()
        d['random'] = RandomProxy()
        d['lib'] = _Lib()
        d['ndarray'] = PNdarray
        d['pi'], d['e'] = np.pi, np.e
        d['inf'], d['nan'], d['newaxis'] = np.inf, np.nan, None
        d['float'], d['int'], d['bool'] = PFloat, PInt, bool
        d['float_'], d['int_'] = TypeProxy.of(float), TypeProxy.of(int)
        for n in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
                  'uint32', 'uint64', 'float16', 'float32', 'float64',
                  'bool_', 'intp', 'uintp', 'longlong', 'ulonglong',
                  'double', 'single', 'intc', 'uintc', 'short', 'ushort',
                  'byte', 'ubyte', 'uint', 'bool8', 'bool_'):
            d[n] = TypeProxy.of(getattr(np, n))
        for n in ('integer', 'floating', 'generic', 'number', 'signedinteger',
                  'unsignedinteger', 'inexact'):
            d[n] = _abstract(getattr(np, n))
        d['__path__'] = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        r = getattr(np, n)
        if callable(r) and not isinstance(r, type):
            return passthrough(n, r)
        return r


class MathProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')

    def __getattr__(self, n):
        real = getattr(_math, n)
        if not callable(real):
            return real
        if n in ('floor', 'ceil', 'trunc'):
            return real
        if n == 'prod':
            return real
        uf = {'lgamma': 'lgamma', 'log': 'log', 'exp': 'exp', 'cos': 'cos',
              'sin': 'sin', 'acos': 'arccos', 'log2': 'log2'}

        def call(*a):
            a = [v._one() if isinstance(v, SymArray) else v for v in a]
            if any(isinstance(v, (SNum, fractions.Fraction)) for v in a):
                if n == 'lgamma' and isinstance(a[0], SNum) and \
                        a[0].k == 'i':
                    return real(_bi.int(a[0]))
                if n in uf and len(a) == 1:
                    return (core.raw_arccos if n == 'acos' else
                            core.raw_uf(uf[n], real))(strip(a[0]))
                if n == 'sqrt':
                    return core.raw_sqrt(strip(a[0]))
                if n in ('isnan', 'isinf', 'isfinite'):
                    return bool({'isnan': _isnan, 'isinf': _isinf,
                                 'isfinite': lambda x: core.raw_not(
                                     core.raw_or(_isnan(x), _isinf(x)))}[n](
                                         strip(a[0])))
                a = [lower(v) for v in a]
            return real(*a)
        return call
