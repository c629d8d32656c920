"""SymArray: the part of numpy.ndarray (1.23 semantics) the code under test
uses, over elements that may be symbolic.

An array is in concrete mode (`sym` False: `a` is a real typed ndarray, and the
real numpy does the work) or in symbolic mode (`a` is an object ndarray of
Python numbers and SNum).  `dt` is its numpy dtype in both cases.
"""
import builtins as _bi
import fractions
import functools
import weakref

import numpy as np

from . import core
from .core import (SNum, Unsupported, is_sym, raw_add, raw_sub, raw_mul,
                   raw_floordiv, raw_mod, raw_truediv, raw_pow, raw_lt,
                   raw_le, raw_gt, raw_ge, raw_eq, raw_ne, raw_and, raw_or,
                   raw_not, raw_ite, raw_min, raw_max, raw_neg, raw_abs,
                   raw_trunc, raw_floor, raw_ceil, raw_rint, raw_sqrt,
                   wrap_raw, typed, strip, z3)

BOOL = np.dtype(bool)
I64 = np.dtype(np.int64)
F8 = np.dtype(np.float64)
GATHER_LIMIT = 3000


class ScaledDtype(object):
    """A dtype that pretends its items are `scale` times bigger (used to make
    the code's byte-sized buffers hold few rows)."""
    scale = None

    def __init__(self, dt):
        self.__dict__['dt'] = dt

    @property
    def itemsize(self):
        return self.dt.itemsize * (ScaledDtype.scale or 1)

    @property
    def type(self):
        return TypeProxy.of(self.dt)

    def __getattr__(self, n):
        return getattr(self.__dict__['dt'], n)

    def __eq__(self, o):
        return self.dt == todt(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.dt)

    def __repr__(self):
        return repr(self.dt)

    __str__ = lambda self: str(self.dt)


def dtview(dt):
    return dt if ScaledDtype.scale is None else ScaledDtype(dt)


class TypeProxy(object):
    """np.int64 & co: usable as a dtype and as a conversion function."""
    cache = {}

    def __init__(self, t):
        self.t = t
        self.dtype = np.dtype(t)
        self.__name__ = t.__name__

    @classmethod
    def of(cls, dt):
        t = np.dtype(dt).type
        if t not in cls.cache:
            cls.cache[t] = cls(t)
        return cls.cache[t]

    def __call__(self, x=0, *a):
        return convert_scalar(x, self.dtype)

    def __getattr__(self, n):
        if n.startswith('__array'):
            raise AttributeError(n)
        return getattr(self.__dict__['t'], n)

    def __eq__(self, o):
        if isinstance(o, TypeProxy):
            return self.t is o.t
        if isinstance(o, (np.dtype, ScaledDtype)):
            return o == self.dtype
        return self.t is o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return repr(self.t)

    def __instancecheck__(self, x):
        return isinstance(x, self.t) or (isinstance(x, SNum)
                                         and x.dt == self.dtype)


BUILTIN_TYPES = {}      # proxies of int/float/bool -> real ones (npproxy)


def todt(d):
    if d is None:
        return None
    if isinstance(d, ScaledDtype):
        return d.dt
    if isinstance(d, TypeProxy):
        return d.dtype
    if isinstance(d, np.dtype):
        return d
    try:
        if d in BUILTIN_TYPES:
            d = BUILTIN_TYPES[d]
    except TypeError:
        pass
    if isinstance(d, tuple):
        d = tuple(lower_type(x) for x in d)
    return np.dtype(d)


def lower_type(x):
    if isinstance(x, TypeProxy):
        return x.t
    if isinstance(x, ScaledDtype):
        return x.dt
    try:
        return BUILTIN_TYPES.get(x, x)
    except TypeError:
        return x


def cast_elem(x, dt):
    k = dt.kind
    if not is_sym(x):
        if isinstance(x, np.generic):
            x = x.item()
        if k in 'iu':
            if isinstance(x, (_bi.float, fractions.Fraction)):
                x = _bi.int(x)
            return wrap_raw(x, dt)
        if k == 'f':
            if isinstance(x, (_bi.int, bool)):
                x = _bi.float(x)
            if dt.itemsize < 8 and isinstance(x, (_bi.float,
                                                  fractions.Fraction)):
                return _bi.float(dt.type(_bi.float(x)))
            return x
        if k == 'b':
            return bool(x)
        return x
    if k in 'iu':
        if x.k in 'fd':
            x = raw_trunc(x)
        return wrap_raw(x, dt)
    if k == 'f':
        if dt.itemsize < 8:
            return core.raw_narrow(x, dt)
        if x.k in 'ib':
            return core.mk_real(core.zreal(x))
        return strip(x)
    if k == 'b':
        return core.y_bool(x)
    return strip(x) if x.dt is not None else x


def convert_scalar(x, dt):
    dt = todt(dt)
    if isinstance(x, SNum):
        return typed(cast_elem(strip(x), dt), dt)
    if isinstance(x, SymArray):
        r = x.astype(dt)
        return r[()] if r.ndim == 0 else r
    if isinstance(x, (list, tuple)):
        return asarr(x).astype(dt)
    if isinstance(x, np.ndarray):
        return lift(dt.type(x))
    if isinstance(x, fractions.Fraction):
        x = _bi.float(x)
    return dt.type(x)


def _objarr(a):
    """object copy of a concrete ndarray holding Python scalars"""
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    flat = a.ravel().tolist()
    if a.ndim == 0:
        out[()] = flat[0]
    else:
        of = out.reshape(-1)
        for i, v in enumerate(flat):
            of[i] = v
        out = of.reshape(a.shape)
    return out


def _fromlist(lst, shape):
    out = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        out[i] = v
    return out.reshape(shape)


def _has_sym(o):
    for v in o.flat:
        if isinstance(v, SNum):
            return True
    return False


def normal(o, dt):
    """SymArray from an object array; concrete mode when possible"""
    if dt.kind in 'OV' or _has_sym(o):
        return SymArray(o, dt, dt.kind not in 'OV' or _has_sym(o))
    for v in o.flat:
        if isinstance(v, fractions.Fraction):
            return SymArray(o, dt, True)
    c = np.empty(o.shape, dtype=dt)
    if o.ndim == 0:
        c[()] = o[()]
    else:
        c[...] = o
    return SymArray(c, dt, False)


def lift(x):
    """results of real numpy calls -> our world"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return normal(x, x.dtype)
        return SymArray(x, x.dtype, False)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(lift(v) for v in x)
    if isinstance(x, list):
        return [lift(v) for v in x]
    return x


class SymArray(object):
    __array_ufunc__ = None
    __array_priority__ = 1e10
    _sym_array = True
    __slots__ = ('a', 'dt', 'sym', '_parent', '_mk', '_views', '__weakref__')

    def __init__(self, a, dt=None, sym=False, parent=None, mk=None):
        self.a = a
        self.dt = a.dtype if dt is None else dt
        self.sym = sym
        self._parent = parent
        self._mk = mk
        self._views = None
        if parent is not None:
            if parent._views is None:
                parent._views = []
            parent._views.append(weakref.ref(self))

    __hash__ = None

    # -- storage ---------------------------------------------------------
    def _view(self, mk):
        return SymArray(mk(self.a), self.dt, self.sym, self, mk)

    def promote(self):
        """switch this array, and everything that shares its memory, to
        symbolic mode"""
        if self.sym:
            return
        root = self
        while root._parent is not None:
            root = root._parent
        root.a = _objarr(root.a)
        root.sym = True
        root._refresh()

    def _refresh(self):
        for w in self._views or ():
            v = w()
            if v is not None:
                v.a = v._mk(self.a)
                v.sym = True
                v._refresh()

    def obj(self):
        return self.a if self.sym else _objarr(self.a)

    def concrete(self):
        """real ndarray; forks on symbolic elements"""
        if not self.sym:
            return self.a
        if self.dt.kind in 'OV':
            return self.a
        if _has_sym(self.a):
            core.ENGINE.degrade('concretised array')
        out = np.empty(self.a.shape, dtype=self.dt)
        for ix in np.ndindex(*self.a.shape):
            v = self.a[ix]
            if is_sym(v):
                v = core.ENGINE.concretise(v.e)
            if isinstance(v, fractions.Fraction):
                v = _bi.float(v)
            out[ix] = v
        return out

    def __array__(self, dtype=None, *a, **k):
        c = self.concrete()
        return c if dtype is None else c.astype(dtype)

    # -- attributes ------------------------------------------------------
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a = self.a.reshape(s)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        return dtview(self.dt)

    @property
    def itemsize(self):
        return dtview(self.dt).itemsize

    @property
    def nbytes(self):
        return self.itemsize * self.a.size

    @property
    def T(self):
        return self._view(lambda a: a.T)

    @property
    def flat(self):
        return self.ravel()

    @property
    def base(self):
        return self._parent

    @property
    def real(self):
        return self

    @property
    def flags(self):
        return np.empty(self.shape).flags

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self.a)):
            yield self[i]

    def __bool__(self):
        if self.a.size == 1:
            v = self.a.reshape(-1)[0]
            return bool(v) if not isinstance(v, fractions.Fraction) \
                else v != 0
        if self.a.size == 0:
            return False
        raise ValueError(
            'The truth value of an array with more than one element is '
            'ambiguous. Use a.any() or a.all()')

    def _one(self):
        if self.a.size != 1:
            raise TypeError(
                'only size-1 arrays can be converted to Python scalars')
        return self.a.reshape(-1)[0]

    def __int__(self):
        return _bi.int(self._one())

    def __float__(self):
        return _bi.float(self._one())

    def __index__(self):
        if self.dt.kind not in 'iub' or self.a.size != 1:
            raise TypeError('only integer scalar arrays can be converted to '
                            'a scalar index')
        v = self._one()
        return v.__index__()

    def __contains__(self, x):
        return bool((self == x).any())

    def __repr__(self):
        return 'SymArray(%s, %s)' % (self.a.tolist() if self.a.size < 50
                                     else self.a.shape, self.dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling an array')

    # -- indexing --------------------------------------------------------
    def __getitem__(self, key):
        kind, key = norm_key(self, key)
        if kind == 'sym':
            return gather(self, key)
        r = self.a[key]
        if kind == 'basic':
            if isinstance(r, np.ndarray) and (r.ndim or not _full(key, self)):
                return SymArray(r, self.dt, self.sym, self,
                                lambda a: a[key])
            if isinstance(r, np.ndarray) and r.ndim == 0 and key == ():
                r = r[()]
            if isinstance(r, np.ndarray):
                return SymArray(r, self.dt, self.sym, self,
                                lambda a: a[key])
            return typed(r, self.dt) if self.sym else _conc_scalar(r)
        if not isinstance(r, np.ndarray) or (r.ndim == 0 and self.sym
                                             and r.dtype != object):
            return typed(r, self.dt) if self.sym else r
        if self.sym:
            return normal(r.copy(), self.dt) if self.dt.kind not in 'OV' \
                else SymArray(r.copy(), self.dt, True)
        return SymArray(r, self.dt, False)

    def __setitem__(self, key, val):
        kind, k2 = norm_key(self, key, store=True)
        if kind == 'mask_ite':
            self.promote()
            mask, rest = k2
            v = strip_scalar(val)
            v = cast_elem(v, self.dt)
            it = np.ndindex(*mask.a.shape)
            for ix in it:
                c = mask.a[ix]
                sub = ix + rest
                cur = self.a[sub]
                if isinstance(cur, np.ndarray):
                    for jx in np.ndindex(*cur.shape):
                        cur[jx] = raw_ite(c, v, cur[jx])
                else:
                    self.a[sub] = raw_ite(c, v, cur)
            return
        if isinstance(val, (list, tuple)):
            val = asarr(val)
        if isinstance(val, SymArray):
            if not val.sym and not self.sym:
                self.a[k2] = val.a
                return
            if val.sym and not self.sym and not _has_sym(val.a):
                self.a[k2] = val.concrete()
                return
            self.promote()
            self.a[k2] = _map1(val.obj(), lambda e: cast_elem(e, self.dt))
            return
        if isinstance(val, SNum):
            self.promote()
            v = cast_elem(strip(val), self.dt)
            t = self.a[k2]
            if isinstance(t, np.ndarray):
                o = np.empty((), dtype=object)
                o[()] = v
                self.a[k2] = o
            else:
                self.a[k2] = v
            return
        if isinstance(val, fractions.Fraction):
            if not self.sym:
                self.promote()
        if self.sym:
            if isinstance(val, np.ndarray):
                self.a[k2] = _map1(_objarr(val),
                                   lambda e: cast_elem(e, self.dt))
            else:
                self.a[k2] = cast_elem(strip(val), self.dt)
        else:
            self.a[k2] = val

    # -- conversions -----------------------------------------------------
    def astype(self, dtype, order='K', casting='unsafe', subok=True,
               copy=True):
        dt = todt(dtype)
        if not self.sym:
            return SymArray(self.a.astype(dt, casting=casting), dt, False)
        if dt.kind in 'OUSV' and dt.kind != 'O':
            return SymArray(self.concrete().astype(dt), None, False)
        if not np.can_cast(self.dt, dt, casting=casting):
            raise TypeError('Cannot cast array data from %r to %r according '
                            'to the rule %r' % (self.dt, dt, casting))
        if not copy and dt == self.dt:
            return self
        return normal(_map1(self.a, lambda e: cast_elem(e, dt)), dt)

    def copy(self, order='C'):
        return SymArray(self.a.copy(), self.dt, self.sym)

    def tolist(self):
        if not self.sym:
            return self.a.tolist()
        return self.a.tolist()

    def item(self, *args):
        if args:
            v = self.a.item(*args) if not self.sym else \
                (self.a[args] if len(args) > 1 else
                 self.a.reshape(-1)[args[0]])
            return v
        v = self._one()
        return v.item() if isinstance(v, np.generic) else v

    def view(self, dtype=None, type=None):
        if dtype is None:
            return self._view(lambda a: a[...])
        dt = dtype if not isinstance(dtype, (TypeProxy, ScaledDtype)) \
            else todt(dtype)
        dt = np.dtype(dt)
        if not self.sym:
            return SymArray(self.a.view(dt), None, False)
        if dt == self.dt:
            return self._view(lambda a: a[...])
        if dt.kind == 'V':
            return VoidRows(self)
        raise Unsupported('view as %s' % dt)

    # -- shape -----------------------------------------------------------
    def reshape(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = tuple(_bi.int(v) for v in s)
        return self._view(lambda a: a.reshape(s))

    def ravel(self, *a, **k):
        return self.reshape(-1)

    def flatten(self, *a, **k):
        return self.reshape(-1).copy()

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        return self._view(lambda a: a.transpose(*ax))

    def squeeze(self, axis=None):
        return self._view(lambda a: a.squeeze(axis))

    def swapaxes(self, i, j):
        return self._view(lambda a: a.swapaxes(i, j))

    def repeat(self, n, axis=None):
        if isinstance(n, SymArray):
            n = n.concrete()
        return SymArray(self.a.repeat(n, axis), self.dt, self.sym)

    def resize(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        c = self.a.copy()
        c.resize(s, refcheck=False)
        self.a = c

    def fill(self, v):
        self[...] = v

    # -- reductions ------------------------------------------------------
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_(self, 'sum', axis, dtype, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_(self, 'prod', axis, dtype, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, 'max', axis, None, keepdims, **kw)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, 'min', axis, None, keepdims, **kw)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, 'any', axis, None, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, 'all', axis, None, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if not self.sym:
            return lift(self.a.mean(axis=axis, dtype=todt(dtype),
                                    keepdims=keepdims))
        n = self.a.size if axis is None else self.a.shape[axis]
        s = reduce_(self.astype(F8) if self.dt.kind in 'iub' else self,
                    'sum', axis, None, keepdims)
        if n == 0:
            return s / np.float64(0)
        return s / np.float64(n)

    def argmin(self, axis=None, out=None):
        return arg_ext(self, axis, raw_lt)

    def argmax(self, axis=None, out=None):
        return arg_ext(self, axis, raw_gt)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumul(self, 'sum', axis, dtype)

    def cumprod(self, axis=None, dtype=None, out=None):
        return cumul(self, 'prod', axis, dtype)

    def nonzero(self):
        if not self.sym:
            return lift(self.a.nonzero())
        return lift(decide_mask(self).nonzero())

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        if not self.sym:
            self.a.sort(axis=axis)
            return
        ix = argsort(self, axis)
        self.a[...] = np.take_along_axis(
            self.a, ix.a, axis if axis is not None else 0)

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side)

    def take(self, idx, axis=None, mode='raise', out=None):
        if axis is None:
            return self.reshape(-1)[idx]
        return self[(slice(None),) * (axis % self.ndim) + (idx,)]

    def dot(self, o):
        return dot(self, o)

    def round(self, decimals=0, out=None):
        if not self.sym:
            return lift(self.a.round(decimals))
        return sym_round(self, decimals)

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = binary(r, lo, 'max')
        if hi is not None:
            r = binary(r, hi, 'min')
        return r

    def diagonal(self, *a):
        return SymArray(self.a.diagonal(*a), self.dt, self.sym)

    def tobytes(self, *a):
        return self.concrete().tobytes()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(np.ndarray, n):
            r = getattr(self.concrete(), n)
            if callable(r):
                def call(*a, **k):
                    from . import npproxy
                    a = [npproxy.lower(v) for v in a]
                    k = {q: npproxy.lower(v) for q, v in k.items()}
                    return lift(r(*a, **k))
                return call
            return lift(r)
        raise AttributeError("'numpy.ndarray' object has no attribute %r" % n)


def _conc_scalar(r):
    return r


def _full(key, arr):
    return False


class VoidRows(object):
    """result of viewing rows as opaque bytes"""
    _sym_void = True

    def __init__(self, arr):
        self.arr = arr
        self.shape = (arr.shape[0], 1)

    def view(self, dt):
        return self.arr

    def __len__(self):
        return self.arr.shape[0]


def _map1(o, f):
    out = np.empty(o.shape, dtype=object)
    if o.ndim == 0:
        out[()] = f(o[()])
        return out
    of = out.reshape(-1)
    for i, v in enumerate(o.flat):
        of[i] = f(v)
    return out


def strip_scalar(x):
    if isinstance(x, SymArray):
        if x.size != 1:
            raise Unsupported('array value for a symbolic mask')
        return strip(x.obj().reshape(-1)[0])
    return strip(x)


# ---- index normalisation ---------------------------------------------------

def _is_basic(k):
    return (k is None or k is Ellipsis or isinstance(
        k, (slice, _bi.int, np.integer)) and not isinstance(k, (bool,)))


def norm_key(arr, key, store=False):
    tup = key if isinstance(key, tuple) else (key,)
    out = []
    adv = False
    symidx = False
    for pos, k in enumerate(tup):
        if isinstance(k, slice):
            out.append(slice(*[None if v is None else v.__index__()
                               for v in (k.start, k.stop, k.step)]))
        elif isinstance(k, (list, tuple)):
            k = asarr(k)
            if k.size == 0:
                k = SymArray(np.empty(k.shape, dtype=np.intp))
            adv = True
            out.append(k)
            symidx = symidx or k.sym
        elif isinstance(k, SymArray):
            if k.ndim == 0 and k.dt.kind in 'iu':
                v = k.obj()[()]
                if is_sym(v):
                    symidx = True
                    out.append(v)
                else:
                    out.append(_bi.int(v))
                continue
            adv = True
            out.append(k)
            symidx = symidx or k.sym
        elif isinstance(k, SNum):
            if k.k == 'b':
                out.append(bool(k))
                adv = True
            else:
                if k.k in 'fd':
                    raise IndexError('only integers, slices (`:`), ellipsis '
                                     '(`...`), numpy.newaxis (`None`) and '
                                     'integer or boolean arrays are valid '
                                     'indices')
                out.append(k)
                symidx = True
        elif isinstance(k, np.ndarray):
            adv = True
            out.append(SymArray(k))
        else:
            if not _is_basic(k):
                adv = True
            out.append(k)
    if not symidx:
        out = tuple(v.a if isinstance(v, SymArray) else v for v in out)
        if isinstance(key, tuple):
            return ('adv' if adv else 'basic'), out
        return ('adv' if adv else 'basic'), out[0]
    # symbolic index somewhere
    masks = [i for i, v in enumerate(out)
             if isinstance(v, SymArray) and v.dt.kind == 'b' and v.sym]
    if store:
        if len(masks) == 1 and masks[0] == 0 and len(out) in (1, 2) and (
                len(out) == 1 or (isinstance(out[1], slice)
                                  and out[1] == slice(None))):
            return 'mask_ite', (out[0], ())
        if len(masks) == 1 and masks[0] == 1 and len(out) == 2 and \
                isinstance(out[0], (_bi.int, np.integer)):
            m = out[1]
            return 'store2', None if False else _conc_key(out, key)
        return 'adv', _conc_key(out, key)
    if masks:
        out = [SymArray(decide_mask(v)) if i in masks else v
               for i, v in enumerate(out)]
        if not any(isinstance(v, SNum) or (isinstance(v, SymArray) and v.sym)
                   for v in out):
            out = tuple(v.a if isinstance(v, SymArray) else v for v in out)
            return 'adv', out if isinstance(key, tuple) else out[0]
    return 'sym', tuple(out)


def _conc_key(out, key):
    r = []
    for v in out:
        if isinstance(v, SNum):
            r.append(v.__index__())
        elif isinstance(v, SymArray):
            if v.dt.kind == 'b':
                r.append(decide_mask(v))
            else:
                r.append(v.concrete())
        else:
            r.append(v)
    return tuple(r) if isinstance(key, tuple) else r[0]


def decide_mask(m):
    """fork on every symbolic truth value of m"""
    if not m.sym:
        return m.a if m.dt.kind == 'b' else m.a != 0
    out = np.empty(m.a.shape, dtype=bool)
    for ix in np.ndindex(*m.a.shape):
        v = m.a[ix]
        out[ix] = bool(v) if not isinstance(v, fractions.Fraction) else v != 0
    return out


def gather(arr, key):
    """read with a symbolic integer index: if-then-else over the axis"""
    nsym = [i for i, v in enumerate(key)
            if isinstance(v, SNum) or (isinstance(v, SymArray))]
    if len(nsym) != 1 or any(v is None or v is Ellipsis for v in key):
        k = _conc_key(key, key)
        return arr[k]
    p = nsym[0]
    rest_ok = all(isinstance(v, (slice, _bi.int, np.integer))
                  for i, v in enumerate(key) if i != p)
    n = arr.a.shape[p]
    idx = key[p]
    m = 1 if isinstance(idx, SNum) else idx.size
    if not rest_ok or n * m * max(1, arr.a.size // max(n, 1)) > GATHER_LIMIT \
            or n == 0:
        return arr[_conc_key(key, key)]
    o = arr.obj()
    # apply the other keys first
    other = list(key)
    other[p] = slice(None)
    sub = o[tuple(other)]
    axis = sum(1 for v in key[:p] if isinstance(v, slice))
    sub = np.moveaxis(sub, axis, 0)       # (n, ...)

    def one(ix):
        if not is_sym(ix):
            return sub[_bi.int(ix)]
        lo, hi = ix.lo, ix.hi
        if lo is None or hi is None or lo < 0 or hi >= n:
            bad = z3.Or(ix.e < -n, ix.e >= n)
            if core.ENGINE.branch(bad):
                raise IndexError('index out of bounds for axis with size %d'
                                 % n)
            if (lo is None or lo < 0) and core.ENGINE.branch(ix.e < 0):
                ix = core.mk_int(ix.e + n, 0, n - 1)
                lo, hi = 0, n - 1
        lo = 0 if lo is None else max(lo, 0)
        hi = n - 1 if hi is None else min(hi, n - 1)
        acc = sub[hi]
        for j in range(hi - 1, lo - 1, -1):
            c = core.mk_bool(z3.simplify(ix.e == j))
            if isinstance(acc, np.ndarray):
                row = np.empty(acc.shape, dtype=object)
                for t in np.ndindex(*acc.shape):
                    row[t] = raw_ite(c, sub[j][t], acc[t])
                acc = row
            else:
                acc = raw_ite(c, sub[j], acc)
        return acc
    if isinstance(idx, SNum):
        r = one(idx)
        if isinstance(r, np.ndarray):
            return normal(r.copy(), arr.dt)
        return typed(r, arr.dt)
    io = idx.obj()
    rows = [one(v) for v in io.flat]
    if rows and isinstance(rows[0], np.ndarray):
        out = np.empty((len(rows),) + rows[0].shape, dtype=object)
        for i, r in enumerate(rows):
            out[i] = r
        out = out.reshape(io.shape + rows[0].shape)
    else:
        out = _fromlist(rows, io.shape)
        if not rows:
            out = np.empty(io.shape + sub.shape[1:], dtype=object)
    if axis:
        for _ in range(io.ndim):
            out = np.moveaxis(out, 0, axis + io.ndim - 1)
    return normal(out, arr.dt)


# ---- construction ----------------------------------------------------------

def _elem_dt(x):
    if isinstance(x, SNum):
        return x.dt if x.dt is not None else core._DEF[x.k]
    if isinstance(x, fractions.Fraction):
        return F8
    if isinstance(x, (bool, np.bool_)):
        return BOOL
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, _bi.int):
        return np.array(x).dtype
    if isinstance(x, _bi.float):
        return F8
    return np.array(x).dtype if isinstance(x, (str, bytes)) else \
        np.dtype(object)


def _contains_sym(x):
    if isinstance(x, (SNum, SymArray)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_contains_sym(v) for v in x)
    return False


def asarr(x, dt=None, copy=False, ndmin=0):
    if isinstance(x, SymArray):
        if dt is not None and dt != x.dt:
            return x.astype(dt)
        return x.copy() if copy else x
    if isinstance(x, SNum):
        o = np.empty((), dtype=object)
        o[()] = cast_elem(strip(x), dt) if dt is not None else strip(x)
        return SymArray(o, dt or _elem_dt(x), True)
    if isinstance(x, np.ndarray):
        if x.dtype == object and _has_sym(x):
            dts = [_elem_dt(v) for v in x.flat]
            d = dt or np.result_type(*dts)
            return normal(_map1(x, lambda e: cast_elem(e, d)), d)
        a = np.array(x, dtype=dt) if (copy or dt is not None) else x
        if a.dtype == object:
            return SymArray(a, a.dtype, True)
        return SymArray(a)
    if isinstance(x, VoidRows):
        return x
    if not isinstance(x, (list, tuple)):
        if hasattr(x, '_fake_dataset'):
            r = x[...]
            return asarr(r, dt, copy)
        if isinstance(x, (range, set, frozenset, dict)) or \
                isinstance(x, (str, bytes, _bi.int, _bi.float, bool,
                               np.generic)) or x is None:
            return lift(np.array(x, dtype=dt))
        if hasattr(x, 'values') or hasattr(x, '__array__'):
            v = x.values if hasattr(x, 'values') and not callable(
                x.values) else np.asarray(x)
            if not isinstance(v, np.ndarray):
                v = np.asarray(v)
            return asarr(v, dt, True)
        return lift(np.array(x, dtype=dt))
    if not _contains_sym(x):
        from . import npproxy
        return lift(np.array([npproxy.lower(v) for v in x]
                             if isinstance(x, list) else
                             tuple(npproxy.lower(v) for v in x), dtype=dt))
    parts = [v if isinstance(v, (SNum, SymArray)) else
             (asarr(v) if isinstance(v, (list, tuple, np.ndarray)) else v)
             for v in x]
    dts, objs = [], []
    for v in parts:
        if isinstance(v, SymArray):
            if v.size or not dts:
                dts.append(v.dt)
            objs.append(v.obj())
        else:
            dts.append(_elem_dt(v))
            o = np.empty((), dtype=object)
            o[()] = strip(v)
            objs.append(o)
    shapes = {o.shape for o in objs}
    if len(shapes) != 1:
        raise ValueError('setting an array element with a sequence. The '
                         'requested array has an inhomogeneous shape')
    d = dt or np.result_type(*dts)
    out = np.empty((len(objs),) + objs[0].shape, dtype=object)
    for i, o in enumerate(objs):
        if o.ndim == 0:
            out[i] = o[()]
        else:
            out[i] = o
    return normal(_map1(out, lambda e: cast_elem(e, d)), d)


# ---- elementwise operations ------------------------------------------------

_INT_BREAKS = sorted({s * (1 << p) + o for p in (7, 8, 15, 16, 31, 32, 63, 64)
                      for s in (1,) for o in (0,)} |
                     {0} | {-(1 << p) for p in (7, 15, 31, 63)})


def result_dt(x, y):
    """numpy 1.23 result type, with value-based casting of scalars; x, y are
    SymArray or scalars"""
    xa = isinstance(x, SymArray) and x.ndim > 0
    ya = isinstance(y, SymArray) and y.ndim > 0
    if xa and ya:
        return np.result_type(x.dt, y.dt)
    if not xa and not ya:
        return np.result_type(_sdt(x), _sdt(y))
    if ya:
        return result_dt(y, x)
    # x array, y scalar
    rep = np.empty((1,), x.dt)
    if isinstance(y, SymArray):
        y = y.obj()[()] if y.sym else y.a[()]
    if not isinstance(y, SNum):
        if isinstance(y, fractions.Fraction):
            y = _bi.float(y)
        return np.result_type(rep, y)
    if y.k == 'b':
        return np.result_type(rep, True)
    if y.k in 'fd':
        return np.result_type(rep, np.float64(1.5) if y.dt is None
                              else y.dt.type(1.5))
    lo, hi = y.lo, y.hi
    # intervals [b_i, b_{i+1}) on which the minimal scalar type is constant
    pts = [b for b in _INT_BREAKS
           if (lo is None or b > lo) and (hi is None or b <= hi)]
    edges = [lo if lo is not None else (pts[0] - 1 if pts else 0)] + pts

    def rt(v):
        if v >= 1 << 64 or v < -(1 << 63):
            return np.dtype(object)
        return np.result_type(rep, v)
    classes = []
    for b in edges:
        d = rt(b)
        if classes and classes[-1][1] == d:
            continue
        classes.append((b, d))
    # classes: (start, dtype)
    for i in range(len(classes) - 1):
        if core.ENGINE.branch(z3.simplify(y.e < classes[i + 1][0])):
            return classes[i][1]
    return classes[-1][1]


def _sdt(x):
    if isinstance(x, SymArray):
        return x.dt
    return _elem_dt(x)


def _operand(x):
    """SymArray or scalar"""
    if isinstance(x, (SymArray, SNum, fractions.Fraction)):
        return x
    if isinstance(x, (list, tuple, np.ndarray)):
        return asarr(x)
    if hasattr(x, '_fake_dataset'):
        return x[...]
    if hasattr(x, 'values') and hasattr(x, 'index'):
        return asarr(x)
    if isinstance(x, (range,)):
        return asarr(x)
    return x


_OPS = {
    'add': (raw_add, np.add), 'sub': (raw_sub, np.subtract),
    'mul': (raw_mul, np.multiply),
    'floordiv': (lambda a, b: raw_floordiv(a, b, True) if (
        is_sym(a) or is_sym(b)) else (0 if b == 0 and isinstance(
            b, _bi.int) else a // b), np.floor_divide),
    'mod': (lambda a, b: raw_mod(a, b, True) if (
        is_sym(a) or is_sym(b)) else (0 if b == 0 and isinstance(
            b, _bi.int) else a % b), np.mod),
    'div': (lambda a, b: raw_truediv(a, b, True) if (
        is_sym(a) or is_sym(b)) else _npdiv(a, b), np.true_divide),
    'pow': (raw_pow, np.power),
    'lt': (raw_lt, np.less), 'le': (raw_le, np.less_equal),
    'gt': (raw_gt, np.greater), 'ge': (raw_ge, np.greater_equal),
    'eq': (raw_eq, np.equal), 'ne': (raw_ne, np.not_equal),
    'land': (raw_and, np.logical_and), 'lor': (raw_or, np.logical_or),
    'min': (raw_min, np.minimum), 'max': (raw_max, np.maximum),
    'lxor': (lambda a, b: raw_ne(core.y_bool(a), core.y_bool(b)),
             np.logical_xor),
}


def _npdiv(a, b):
    if isinstance(a, fractions.Fraction) or isinstance(b, fractions.Fraction):
        if b != 0:
            return fractions.Fraction(a) / fractions.Fraction(b)
        a, b = _bi.float(a), _bi.float(b)
    return np.float64(a) / np.float64(b)


def _real_operand(x):
    if isinstance(x, SymArray):
        return x.a
    return x


def _is_conc(x):
    if isinstance(x, SymArray):
        return not x.sym
    return not isinstance(x, (SNum, fractions.Fraction))


def binary(x, y, op):
    x, y = _operand(x), _operand(y)
    rawf, ufn = _OPS[op]
    if _is_conc(x) and _is_conc(y):
        return lift(ufn(_real_operand(x), _real_operand(y)))
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'land', 'lor', 'lxor'):
        rd = BOOL
    else:
        rd = result_dt(x, y)
        if op == 'div' and rd.kind in 'iub':
            rd = F8
        if op in ('add', 'sub', 'mul', 'pow', 'floordiv', 'mod') and \
                rd.kind == 'b':
            if op in ('floordiv', 'mod', 'pow'):
                rd = np.dtype(np.int8)
            elif op == 'sub':
                raise TypeError('numpy boolean subtract, the `-` operator, '
                                'is not supported')
    ox = x.obj() if isinstance(x, SymArray) else _box(x)
    oy = y.obj() if isinstance(y, SymArray) else _box(y)
    if rd.kind in 'iu':
        # numpy converts the operands to rd first
        def f(a, b):
            return wrap_raw(rawf(a, b), rd)
        if op in ('floordiv', 'mod', 'min', 'max'):
            def f(a, b):
                return wrap_raw(rawf(wrap_raw(a, rd), wrap_raw(b, rd)), rd)
    elif rd.kind == 'b':
        if op in ('add',):
            f = raw_or
        elif op == 'mul':
            f = raw_and
        else:
            f = rawf
    elif rd.kind == 'f':
        def f(a, b):
            return cast_elem(rawf(a, b), rd)
    else:
        f = rawf
    bx, by = np.broadcast_arrays(ox, oy)
    out = np.empty(bx.shape, dtype=object)
    if bx.ndim == 0:
        r = f(bx[()], by[()])
        return typed(r, rd)
    of = out.reshape(-1)
    for i, (a, b) in enumerate(zip(bx.flat, by.flat)):
        of[i] = f(a, b)
    return normal(of.reshape(bx.shape), rd)


def _box(x):
    o = np.empty((), dtype=object)
    o[()] = strip(x)
    return o


def sym_round(x, decimals=0):
    """as numpy does: scales, rounds to the next integer, scales back"""
    d = int(decimals)
    if d == 0:
        return unary(x, raw_rint)
    p = float(10 ** abs(d))
    return (unary(x * p, raw_rint) / p if d > 0 else
            unary(x / p, raw_rint) * p)


def unary(x, rawf, rd=None, ufn=None):
    x = _operand(x)
    if isinstance(x, SNum):
        d = rd or (x.dt if x.dt is not None else core._DEF[x.k])
        return typed(rawf(strip(x)), d)
    if not isinstance(x, SymArray):
        x = asarr(x)
    if not x.sym and ufn is not None:
        return lift(ufn(x.a))
    d = rd or x.dt
    r = _map1(x.obj(), rawf)
    if r.ndim == 0:
        return typed(r[()], d)
    return normal(r, d)


def _mkop(op, swap=False):
    def f(self, other):
        if other is None or isinstance(other, str):
            if self.dt.kind in 'OUS':
                r = np.array([v == other for v in self.a.flat],
                             dtype=bool).reshape(self.shape)
                if op in ('eq', 'ne'):
                    return SymArray(r if op == 'eq' else ~r)
            if op == 'eq':
                return SymArray(np.zeros(self.shape, bool))
            if op == 'ne':
                return SymArray(np.ones(self.shape, bool))
        if type(other).__module__.startswith('pandas'):
            if not isinstance(other, SymArray):
                other = asarr(other)
        return binary(other, self, op) if swap else binary(self, other, op)
    return f


def _bitop(op, swap=False):
    lop = {'and': 'land', 'or': 'lor', 'xor': 'lxor'}[op]
    real = {'and': np.bitwise_and, 'or': np.bitwise_or,
            'xor': np.bitwise_xor}[op]

    def f(self, other):
        o = _operand(other)
        if _is_conc(o) and not self.sym:
            return lift(real(self.a, _real_operand(o)))
        ok = self.dt.kind == 'b' and _sdt(o).kind == 'b'
        if ok:
            return binary(self, o, lop)
        a = self.concrete()
        b = o.concrete() if isinstance(o, SymArray) else (
            o.__index__() if isinstance(o, SNum) else o)
        return lift(real(a, b))
    return f


def _inplace(op):
    def f(self, other):
        r = binary(self, other, op)
        r = asarr(r)
        if r.dt != self.dt:
            if not np.can_cast(r.dt, self.dt, casting='same_kind'):
                raise TypeError(
                    'Cannot cast ufunc output from %r to %r with casting '
                    "rule 'same_kind'" % (r.dt, self.dt))
        if r.shape != self.shape:
            raise ValueError('non-broadcastable output operand')
        self[...] = r
        return self
    return f


for _n, _o in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'),
               ('floordiv', 'floordiv'), ('mod', 'mod'), ('truediv', 'div'),
               ('pow', 'pow')):
    setattr(SymArray, '__%s__' % _n, _mkop(_o))
    setattr(SymArray, '__r%s__' % _n, _mkop(_o, True))
    setattr(SymArray, '__i%s__' % _n, _inplace(_o))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(SymArray, '__%s__' % _n, _mkop(_n))
for _n in ('and', 'or', 'xor'):
    setattr(SymArray, '__%s__' % _n, _bitop(_n))
    setattr(SymArray, '__r%s__' % _n, _bitop(_n))

    def _ib(self, other, _f=_bitop(_n)):
        self[...] = _f(self, other)
        return self
    setattr(SymArray, '__i%s__' % _n, _ib)


def _inv(self):
    if not self.sym:
        return lift(~self.a)
    if self.dt.kind == 'b':
        return unary(self, raw_not)
    return lift(~self.concrete())


SymArray.__invert__ = _inv
SymArray.__neg__ = lambda s: lift(-s.a) if not s.sym else unary(
    s, lambda e: wrap_raw(raw_neg(e), s.dt))
SymArray.__pos__ = lambda s: s.copy()
SymArray.__abs__ = lambda s: lift(abs(s.a)) if not s.sym else unary(s, raw_abs)
SymArray.__matmul__ = lambda s, o: dot(s, o)
SymArray.__divmod__ = lambda s, o: (s // o, s % o)


# ---- reductions ------------------------------------------------------------

def reduce_(x, how, axis=None, dtype=None, keepdims=False, **kw):
    dtype = todt(dtype)
    if not x.sym:
        f = {'sum': np.sum, 'prod': np.prod, 'max': np.max, 'min': np.min,
             'any': np.any, 'all': np.all}[how]
        k = {}
        if dtype is not None:
            k['dtype'] = dtype
        if keepdims:
            k['keepdims'] = True
        k.update(kw)
        return lift(f(x.a, axis=axis, **k))
    if isinstance(axis, tuple):
        if len(axis) == 1:
            axis = axis[0]
        elif len(axis) == x.ndim:
            axis = None
        else:
            r = x
            for a in sorted((v % x.ndim for v in axis), reverse=True):
                r = reduce_(r, how, a, dtype, keepdims)
            return r
    d = x.dt
    if how in ('sum', 'prod'):
        if dtype is not None:
            d = dtype
        elif d.kind in 'ib' and d.itemsize < 8:
            d = I64
        elif d.kind == 'u' and d.itemsize < 8:
            d = np.dtype(np.uint64)
        raw = raw_add if how == 'sum' else raw_mul
        init = 0 if how == 'sum' else 1

        def f(vals):
            acc = cast_elem(init, d)
            for i, v in enumerate(vals):
                v = cast_elem(v, d)
                acc = v if i == 0 else raw(acc, v)
            return wrap_raw(acc, d) if d.kind in 'iu' else acc
    elif how in ('max', 'min'):
        raw = raw_max if how == 'max' else raw_min

        def f(vals):
            vals = list(vals)
            if not vals:
                if 'initial' in kw:
                    return kw['initial']
                raise ValueError(
                    'zero-size array to reduction operation %simum which has '
                    'no identity' % how)
            return functools.reduce(raw, vals)
    else:
        d = BOOL
        raw = raw_or if how == 'any' else raw_and

        def f(vals):
            acc = how == 'all'
            for v in vals:
                acc = raw(acc, core.y_bool(v))
            return acc
    o = x.obj()
    if axis is None:
        r = f(o.flat)
        if keepdims:
            return normal(_fromlist([r], (1,) * o.ndim), d)
        return typed(r, d)
    axis = axis % o.ndim
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        out[ix] = f(m[ix])
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return typed(out[()], d)
    return normal(out, d)


def cumul(x, how, axis=None, dtype=None):
    dtype = todt(dtype)
    if not x.sym:
        f = np.cumsum if how == 'sum' else np.cumprod
        return lift(f(x.a, axis=axis, dtype=dtype))
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    d = dtype or x.dt
    if dtype is None:
        if d.kind in 'ib' and d.itemsize < 8:
            d = I64
        elif d.kind == 'u' and d.itemsize < 8:
            d = np.dtype(np.uint64)
    raw = raw_add if how == 'sum' else raw_mul
    m = np.moveaxis(x.obj(), axis, -1).copy()
    for ix in np.ndindex(*m.shape[:-1]):
        acc = None
        row = m[ix]
        for j in range(m.shape[-1]):
            v = cast_elem(row[j], d)
            acc = v if acc is None else wrap_raw(raw(acc, v), d)
            row[j] = acc
        m[ix] = row
    return normal(np.moveaxis(m, -1, axis), d)


def arg_ext(x, axis, better):
    if not x.sym:
        f = np.argmin if better is raw_lt else np.argmax
        return lift(f(x.a, axis=axis))
    if axis is None:
        vals = list(x.obj().flat)
        if not vals:
            raise ValueError('attempt to get argmin of an empty sequence')
        best, bi = vals[0], 0
        for i, v in enumerate(vals[1:], 1):
            c = better(v, best)
            bi = raw_ite(c, i, bi)
            best = raw_ite(c, v, best)
        return typed(bi, I64)
    axis %= x.ndim
    m = np.moveaxis(x.obj(), axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        r = arg_ext(SymArray(m[ix], x.dt, True), None, better)
        out[ix] = strip(r)
    return normal(out, I64)


def _cmp_key(a, b):
    """three-way comparison by forking"""
    if bool(raw_lt(a, b)):
        return -1
    if bool(raw_eq(a, b)):
        return 0
    return 1


def _sort_idx(vals):
    """stable argsort by binary insertion, forking on comparisons"""
    if not any(is_sym(v) for v in vals):
        return sorted(range(len(vals)), key=lambda i: vals[i])
    return _msort(list(range(len(vals))), vals)


def _msort(ix, vals):
    if len(ix) <= 1:
        return ix
    h = len(ix) // 2
    l, r = _msort(ix[:h], vals), _msort(ix[h:], vals)
    out = []
    i = j = 0
    while i < len(l) and j < len(r):
        if bool(raw_lt(vals[r[j]], vals[l[i]])):
            out.append(r[j])
            j += 1
        else:
            out.append(l[i])
            i += 1
    return out + l[i:] + r[j:]


def argsort(x, axis=-1):
    if not x.sym:
        # ties: any order is allowed; stable is one of them
        return lift(np.argsort(x.a, axis=axis, kind='stable'))
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    axis %= x.ndim
    m = np.moveaxis(x.obj(), axis, -1)
    out = np.empty(m.shape, dtype=np.int64)
    for ix in np.ndindex(*m.shape[:-1]):
        out[ix] = _sort_idx(list(m[ix]))
    return SymArray(np.ascontiguousarray(np.moveaxis(out, -1, axis)))


def searchsorted(a, v, side='left'):
    a = asarr(a)
    vo = _operand(v)
    if _is_conc(a) and _is_conc(vo):
        return lift(np.searchsorted(a.a, _real_operand(vo), side=side))
    av = list(a.obj().flat)
    better = raw_lt if side == 'left' else raw_le
    n = len(av)

    def one(x):
        # number of leading elements < x  (a is sorted: equals the count)
        # binary search semantics on possibly unsorted data is not modelled
        acc = 0
        lo = 0
        for e in av:
            c = better(e, x)
            if c is True:
                acc = raw_add(acc, 1)
                lo += 1
            elif c is False:
                continue
            else:
                acc = raw_add(acc, core.mk_int(
                    z3.If(core.as_bool(c), z3.IntVal(1), z3.IntVal(0)), 0, 1))
        return acc
    if isinstance(vo, SymArray):
        o = _map1(vo.obj(), one)
        if o.ndim == 0:
            return typed(o[()], I64)
        return normal(o, I64)
    return typed(one(strip(vo)), I64)


def dot(x, y):
    x, y = asarr(x), asarr(y)
    if not x.sym and not y.sym:
        return lift(np.dot(x.a, y.a))
    d = np.result_type(x.dt, y.dt)
    a, b = x.obj(), y.obj()
    if a.ndim == 1 and b.ndim == 1:
        return reduce_(binary(x, y, 'mul'), 'sum', None, d)
    if a.ndim == 2 and b.ndim == 2:
        if a.shape[1] != b.shape[0]:
            raise ValueError('shapes not aligned')
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                acc = cast_elem(0, d)
                for k in range(a.shape[1]):
                    p = raw_mul(a[i, k], b[k, j])
                    acc = p if k == 0 else raw_add(acc, p)
                out[i, j] = wrap_raw(acc, d) if d.kind in 'iu' else acc
        return normal(out, d)
    if a.ndim == 2 and b.ndim == 1:
        return dot(x, y.reshape(-1, 1)).reshape(-1)
    if a.ndim == 1 and b.ndim == 2:
        return dot(x.reshape(1, -1), y).reshape(-1)
    raise Unsupported('dot of these shapes')
