"""In-memory h5py (2.10) and pandas.HDFStore stand-ins.

Files have a real placeholder on disk holding a token, so that os.path.exists,
os.remove, tempfile and friends in the code under test keep working; the
contents live in `Disk`, a per-path dictionary.
"""
import os
import types

import numpy as np
import pandas

from . import core, arr
from .arr import SymArray, asarr, todt, dtview
from .core import SNum, Unsupported, is_sym, strip, raw_ite, raw_gt, raw_lt


class Disk(object):
    def __init__(self):
        self.files = {}
        self.n = 0
        self.open = {}          # token -> list of File
        self.trace = []         # (what, file, dataset, ...) accesses
        self.on_access = None   # callback(file, op, path)

    def token(self, path):
        with open(path, 'rb') as f:
            t = f.read(200).decode('latin1')
        return t

    def new(self, path):
        self.n += 1
        t = 'FAKEH5 %d %d' % (id(self) & 0xffffff, self.n)
        with open(path, 'wb') as f:
            f.write(t.encode('latin1'))
        self.files[t] = GroupNode()
        return t

    def lookup(self, path):
        """token of an existing file; None when empty or missing"""
        if not os.path.exists(path):
            return None
        if os.path.isdir(path):
            raise OSError('Unable to open file (is a directory)')
        t = self.token(path)
        if t == '':
            return ''
        if t not in self.files:
            raise OSError('Unable to open file (file signature not found)')
        return t


DISK = Disk()


def reset():
    global DISK
    DISK = Disk()
    return DISK


class GroupNode(object):
    def __init__(self):
        self.ch = {}
        self.attrs = {}
        self.df = None


class DataNode(object):
    def __init__(self, data, maxshape, chunks, strs):
        self.data = data
        self.maxshape = maxshape
        self.chunks = chunks
        self.strs = strs
        self.attrs = {}


def store_elem(x, dt):
    """HDF5 conversion: out of range integers are clipped"""
    k = dt.kind
    if k not in 'iu':
        return arr.cast_elem(x, dt)
    if is_sym(x):
        if x.k in 'fd':
            x = core.raw_trunc(x)
        n = dt.itemsize * 8
        mn, mx = (0, (1 << n) - 1) if k == 'u' else (
            -(1 << (n - 1)), (1 << (n - 1)) - 1)
        lo, hi = (0, 1) if x.k == 'b' else (x.lo, x.hi)
        if hi is None or hi > mx:
            c = raw_gt(x, mx)
            if core.ENGINE.possible(core.as_bool(c)):
                x = raw_ite(c, mx, x)
        if is_sym(x) and (lo is None or lo < mn):
            c = raw_lt(x, mn)
            if core.ENGINE.possible(core.as_bool(c)):
                x = raw_ite(c, mn, x)
        return arr.cast_elem(x, dt) if is_sym(x) else x
    i = np.iinfo(dt)
    if isinstance(x, float) and x != x:
        return 0
    return min(max(int(x), int(i.min)), int(i.max))


def h5cast(v, dt):
    if v.dt == dt:
        return v
    if dt.kind in 'iu' and v.dt.kind in 'iuf':
        if not v.sym:
            i = np.iinfo(dt)
            a = v.a
            if a.size and a.dtype.kind in 'iu' and (
                    int(a.max()) > int(i.max) or int(a.min()) < int(i.min)):
                o = np.array([min(max(int(e), int(i.min)), int(i.max))
                              for e in a.ravel()], dtype=dt)
                return SymArray(o.reshape(a.shape))
            return SymArray(a.astype(dt))
        return arr.normal(arr._map1(v.obj(), lambda e: store_elem(e, dt)), dt)
    if dt.kind == 'f' and dt.itemsize < 8 and v.sym:
        raise Unsupported('single precision storage of a symbolic value')
    return v.astype(dt)


class Attrs(object):
    def __init__(self, node, file):
        self.node, self.file = node, file

    def _w(self, name, v):
        self.file._check(True)
        if isinstance(v, (tuple, list, np.ndarray, SymArray)):
            v = asarr(v).copy()
        elif isinstance(v, (bool, np.bool_)):
            v = np.bool_(v)
        elif isinstance(v, int) and not isinstance(v, np.generic):
            v = np.int64(v)
        elif isinstance(v, float):
            v = np.float64(v)
        elif isinstance(v, SNum):
            v = core.typed(v, v.dt or core._DEF[v.k])
        self.node.attrs[name] = v

    def __setitem__(self, n, v):
        self._w(n, v)

    def create(self, name, data, shape=None, dtype=None):
        if dtype is not None:
            data = asarr(data).astype(dtype)
        self._w(name, data)

    def modify(self, name, v):
        self._w(name, v)

    def __getitem__(self, n):
        self.file._check()
        if n not in self.node.attrs:
            raise KeyError("Can't open attribute (can't locate attribute: "
                           "%r)" % n)
        v = self.node.attrs[n]
        return v.copy() if isinstance(v, SymArray) else v

    def get(self, n, d=None):
        return self[n] if n in self.node.attrs else d

    def __contains__(self, n):
        return n in self.node.attrs

    def __delitem__(self, n):
        del self.node.attrs[n]

    def keys(self):
        return sorted(self.node.attrs)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.node.attrs)

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]


def _split(p):
    return [x for x in p.split('/') if x and x != '.']


class Group(object):
    def __init__(self, node, file, name):
        self.node, self._file, self.name = node, file, name

    @property
    def file(self):
        return self._file

    @property
    def attrs(self):
        return Attrs(self.node, self._file)

    @property
    def parent(self):
        return self._file[self.name.rsplit('/', 1)[0] or '/']

    def _base(self, p):
        if isinstance(p, bytes):
            p = p.decode()
        if not isinstance(p, str):
            raise TypeError('Accessing a group is done with bytes or str, not '
                            '%s' % type(p))
        return (self._file.node, '') if p.startswith('/') else (
            self.node, self.name.rstrip('/'))

    def _find(self, p):
        n, nm = self._base(p)
        for x in _split(p):
            if not isinstance(n, GroupNode) or x not in n.ch:
                return None, None
            n = n.ch[x]
            nm += '/' + x
        return n, nm or '/'

    def _wrap(self, n, nm):
        return Group(n, self._file, nm) if isinstance(n, GroupNode) else \
            Dataset(n, self._file, nm)

    def __getitem__(self, p):
        self._file._check()
        n, nm = self._find(p)
        if n is None:
            raise KeyError("Unable to open object (object '%s' doesn't exist)"
                           % p)
        return self._wrap(n, nm)

    def get(self, p, default=None):
        return self[p] if p in self else default

    def __contains__(self, p):
        self._file._check()
        return self._find(p)[0] is not None

    def keys(self):
        self._file._check()
        return sorted(self.node.ch)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.node.ch)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    iterkeys, itervalues, iteritems = keys, values, items

    def visit(self, f):
        def rec(n, pre):
            for k in sorted(n.ch):
                r = f(pre + k)
                if r is not None:
                    return r
                if isinstance(n.ch[k], GroupNode):
                    r = rec(n.ch[k], pre + k + '/')
                    if r is not None:
                        return r
        return rec(self.node, '')

    def _mk(self, p):
        n, nm = self._base(p)
        parts = _split(p)
        for x in parts[:-1]:
            if x not in n.ch:
                n.ch[x] = GroupNode()
            n = n.ch[x]
            nm += '/' + x
            if not isinstance(n, GroupNode):
                raise ValueError('Unable to create (not a group)')
        return n, nm, parts[-1] if parts else ''

    def create_group(self, p, **k):
        self._file._check(True)
        n, nm, last = self._mk(p)
        if not last or last in n.ch:
            raise ValueError('Unable to create group (name already exists)')
        n.ch[last] = GroupNode()
        return Group(n.ch[last], self._file, nm + '/' + last)

    def require_group(self, p):
        return self[p] if p in self else self.create_group(p)

    def create_dataset(self, name, shape=None, dtype=None, data=None,
                       chunks=None, maxshape=None, **kw):
        self._file._check(True)
        n, nm, last = self._mk(name)
        if last in n.ch:
            raise RuntimeError('Unable to create link (name already exists)')
        strs = isinstance(dtype, np.dtype) and dtype.kind == 'O'
        if data is not None:
            if hasattr(data, '_fake_dataset'):
                data = data[...]
            if strs:
                if isinstance(data, (np.ndarray, SymArray)) and \
                        asarr(data).dt.kind == 'U':
                    raise TypeError('No conversion path for dtype: %r'
                                    % asarr(data).dt)
                d = asarr(np.array(_vlen(data, dtype), dtype=object))
                d = SymArray(d.a, np.dtype(object), True)
            else:
                d = asarr(data, copy=True)
            if dtype is not None and not strs:
                d = h5cast(d, todt(dtype))
            if d.dt.kind == 'U':
                raise TypeError('No conversion path for dtype: %r' % d.dt)
            if shape is not None:
                shape = _shape(shape)
                if int(np.prod(shape)) != d.size:
                    raise ValueError(
                        'Shape tuple is incompatible with data')
                d = d.reshape(shape)
            else:
                shape = d.shape
            d = d.copy()
            if d.dt.kind == 'O':
                strs = True
        else:
            if shape is None:
                raise TypeError('One of data, shape or dtype must be '
                                'specified')
            shape = _shape(shape)
            if strs:
                a = np.empty(shape, dtype=object)
                a[...] = ''
                d = SymArray(a, np.dtype(object), True)
            else:
                d = SymArray(np.zeros(shape, todt(
                    dtype if dtype is not None else 'f4')))
        if maxshape is not None:
            if isinstance(maxshape, int):
                maxshape = (maxshape,)
            maxshape = tuple(None if m is None else int(m) for m in maxshape)
            if len(maxshape) != len(shape):
                raise ValueError('"maxshape" must have same rank as dataset '
                                 'shape')
        if chunks not in (None, True, False):
            ch = _shape(chunks)
            if any(c < 1 for c in ch):
                raise ValueError('All chunk dimensions must be positive')
            if maxshape is None and any(
                    c > s for c, s in zip(ch, shape)):
                raise ValueError('Chunk shape must not be greater than data '
                                 'shape')
        n.ch[last] = DataNode(d, maxshape, chunks, (
            dtype if dtype is not None and strs else np.dtype('O'))
            if strs else None)
        return Dataset(n.ch[last], self._file, nm + '/' + last)

    def require_dataset(self, name, shape, dtype, exact=False, **kw):
        if name in self:
            return self[name]
        return self.create_dataset(name, shape, dtype, **kw)

    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)

    def __delitem__(self, p):
        self._file._check(True)
        n, nm, last = self._mk(p)
        if last not in n.ch:
            raise KeyError("Couldn't delete link (name doesn't exist)")
        del n.ch[last]

    def move(self, a, b):
        n, _, la = self._mk(a)
        m, _, lb = self._mk(b)
        m.ch[lb] = n.ch.pop(la)

    def copy(self, src, dest, name=None):
        raise Unsupported('Group.copy')


def _shape(s):
    if isinstance(s, (tuple, list, SymArray)):
        out = []
        for v in s:
            out.append(_dim(v))
        return tuple(out)
    return (_dim(s),)


def _dim(v):
    if isinstance(v, SymArray):
        v = v._one()
    if isinstance(v, (float, np.floating)) or (is_sym(v) and v.k in 'fd'):
        raise TypeError('Expected an integer dimension, got a float')
    v = v.__index__()
    if v < 0:
        raise ValueError('negative dimension')
    return v


class Dataset(object):
    _fake_dataset = True

    def __init__(self, node, file, name):
        self.node, self._file, self.name = node, file, name

    @property
    def file(self):
        return self._file

    @property
    def attrs(self):
        return Attrs(self.node, self._file)

    @property
    def shape(self):
        self._file._check()
        return self.node.data.shape

    @property
    def dtype(self):
        return dtview(self.node.data.dt)

    @property
    def size(self):
        return self.node.data.size

    @property
    def ndim(self):
        return self.node.data.ndim

    @property
    def maxshape(self):
        return self.node.maxshape or self.node.data.shape

    @property
    def chunks(self):
        return self.node.chunks

    @property
    def value(self):
        return self[()]

    @property
    def parent(self):
        return self._file[self.name.rsplit('/', 1)[0] or '/']

    def __len__(self):
        return self.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def _key(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        out = []
        nfancy = 0
        dims = list(self.node.data.shape)
        axis = 0
        for x in ks:
            if x is Ellipsis:
                out.append(x)
                axis = len(dims) - (len(ks) - len(out))
                continue
            if isinstance(x, slice):
                st = []
                for v in (x.start, x.stop, x.step):
                    if isinstance(v, SymArray):
                        v = v._one()
                    if isinstance(v, (float, np.floating)) or (
                            is_sym(v) and v.k in 'fd'):
                        raise TypeError('slice indices must be integers')
                    st.append(None if v is None else v.__index__())
                if st[2] is not None and st[2] <= 0:
                    raise ValueError('Step must be >= 1 (got %d)' % st[2])
                out.append(slice(*st))
            elif isinstance(x, (list, np.ndarray, SymArray)):
                x = asarr(x)
                if x.dt.kind == 'b':
                    x = SymArray(np.nonzero(arr.decide_mask(x))[0]) \
                        if x.ndim == 1 else x
                    out.append(x)
                    axis += 1
                    continue
                if x.dt.kind == 'f':
                    raise TypeError('Indexing elements must be integers')
                vals = x.concrete().reshape(-1)
                if x.ndim:
                    nfancy += 1
                    if nfancy > 1:
                        raise TypeError(
                            'Only one indexing vector or array is currently '
                            'allowed for selection')
                    if len(vals) > 1 and (np.diff(
                            vals.astype(object)) <= 0).any():
                        raise TypeError('Indexing elements must be in '
                                        'increasing order')
                    out.append(SymArray(vals))
                else:
                    out.append(int(vals[0]))
            else:
                if isinstance(x, (float, np.floating)) or (
                        is_sym(x) and x.k in 'fd'):
                    raise TypeError('Indexing elements must be integers')
                i = x.__index__()
                if axis < len(dims) and not -dims[axis] <= i < dims[axis]:
                    raise ValueError('Index (%s) out of range (0-%s)' % (
                        i, dims[axis] - 1))
                out.append(i)
            axis += 1
        if len(out) > len(dims) + (1 if Ellipsis in out else 0):
            raise TypeError('%d indexing arguments for %d dimensions' % (
                len(out), len(dims)))
        return tuple(out)

    def __getitem__(self, key):
        self._file._check()
        if DISK.on_access:
            DISK.on_access(self._file, 'read', self.name, key)
        key = self._key(key)
        d = self.node.data
        r = d[key]
        if isinstance(r, SymArray):
            if r.ndim == 0:
                return r[()] if key == () or Ellipsis not in key else r.copy()
            return r.copy()
        return r

    def __setitem__(self, key, v):
        self._file._check(True)
        if DISK.on_access:
            DISK.on_access(self._file, 'write', self.name, key)
        key = self._key(key)
        d = self.node.data
        if hasattr(v, '_fake_dataset'):
            v = v[...]
        if self.node.strs:
            v = _vlen(v, self.node.strs)
            d.a[key] = np.array(v, dtype=object) \
                if isinstance(v, list) else v
            return
        if isinstance(v, (SymArray, np.ndarray)):
            v = h5cast(asarr(v), d.dt)
        else:
            v = asarr(v)
            if v.dt != d.dt:
                v = h5cast(v, d.dt) if v.dt.kind in 'iufb' else v.astype(d.dt)
        tgt = d[key]
        if isinstance(tgt, SymArray) and tgt.shape != v.shape and v.size > 1:
            try:
                ok = np.broadcast_shapes(tgt.shape, v.shape) == tgt.shape
            except ValueError:
                ok = False
            if not ok:
                # HDF5 drops length-1 dimensions on both sides
                a = tuple(s for s in tgt.shape if s != 1)
                b = tuple(s for s in v.shape if s != 1)
                if a != b:
                    raise TypeError("Can't broadcast %s -> %s" % (
                        v.shape, tgt.shape))
                v = v.reshape(tgt.shape)
        elif isinstance(tgt, SymArray) and v.size == 0 and tgt.size > 0:
            raise TypeError("Can't broadcast %s -> %s" % (v.shape, tgt.shape))
        elif isinstance(tgt, SymArray) and v.size == 1 and v.ndim:
            v = v.reshape(())
        if not isinstance(tgt, SymArray):
            v = v.reshape(())[()] if isinstance(v, SymArray) else v
        d[key] = v

    def resize(self, size, axis=None):
        self._file._check(True)
        d = self.node.data
        if axis is not None:
            s = list(d.shape)
            s[axis] = _dim(size)
            size = tuple(s)
        size = _shape(size)
        if self.node.chunks in (None, False) and self.node.maxshape is None:
            raise TypeError('Only chunked datasets can be resized')
        mx = self.node.maxshape or d.shape
        for s, m in zip(size, mx):
            if m is not None and s > m:
                raise ValueError('unable to set extend dataset (dimension '
                                 'cannot exceed the existing maximal size)')
        if d.dt.kind == 'O':
            a = np.empty(size, dtype=object)
            a[...] = ''
            new = SymArray(a, d.dt, True)
        else:
            new = SymArray(np.zeros(size, d.dt))
        sl = tuple(slice(0, min(a, b)) for a, b in zip(size, d.shape))
        new[sl] = d[sl]
        self.node.data = new

    def flush(self):
        pass

    def __array__(self, dtype=None):
        return np.asarray(self[...].concrete(), dtype=dtype)

    def astype(self, t):
        return self[...].astype(t)

    def __eq__(self, o):
        return self[...] == o if not isinstance(o, Dataset) else \
            self.node is o.node

    __hash__ = None


class File(Group):
    def __init__(self, name, mode=None, driver=None, **kw):
        if isinstance(name, bytes):
            name = name.decode()
        name = os.fspath(name)
        path = os.path.abspath(name)
        if mode is None:
            mode = 'a'
        t = DISK.lookup(path)
        opened = [f for f in DISK.open.get(t, ()) if f._open] if t else []
        if mode in ('r', 'r+'):
            if t is None:
                raise OSError("Unable to open file (unable to open file: name "
                              "= '%s', errno = 2, error message = 'No such "
                              "file or directory')" % name)
            if t == '':
                raise OSError('Unable to open file (file signature not '
                              'found)')
        elif mode == 'w':
            if opened:
                raise OSError('Unable to create file (unable to truncate a '
                              'file which is already open)')
            t = DISK.new(path)
        elif mode in ('w-', 'x'):
            if t is not None:
                raise OSError('Unable to create file (file exists)')
            t = DISK.new(path)
        elif mode == 'a':
            if not t:
                t = DISK.new(path)
        else:
            raise ValueError('Invalid mode; must be one of r, r+, w, w-, x, a')
        self.rw = mode != 'r'
        if self.rw and any(not f.rw for f in opened):
            raise OSError('Unable to open file (file is already open for '
                          'read-only)')
        self.token = t
        self.filename = name
        self.mode = 'r' if mode == 'r' else 'r+'
        self._open = True
        DISK.open.setdefault(t, []).append(self)
        Group.__init__(self, DISK.files[t], self, '/')
        if DISK.on_access:
            DISK.on_access(self, 'open', mode, None)

    @property
    def file(self):
        return self

    def _check(self, write=False):
        if not self._open:
            raise ValueError('Not a location (invalid object ID)')
        if write and not self.rw:
            raise OSError('Unable to write (no write intent on file)')

    def close(self):
        if self._open:
            self._open = False
            DISK.open[self.token].remove(self)
            if DISK.on_access:
                DISK.on_access(self, 'close', None, None)

    def flush(self):
        self._check()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __bool__(self):
        return self._open


def _vlen(v, dt):
    """what a variable length string dataset returns for v"""
    if isinstance(v, SymArray):
        v = v.a
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [_vlen(e, dt) for e in v]
    as_bytes = (getattr(dt, 'metadata', None) or {}).get('vlen') is bytes
    if isinstance(v, bytes) and not as_bytes:
        return v.decode('utf-8')
    if isinstance(v, str) and as_bytes:
        return v.encode('utf-8')
    return v


def special_dtype(**k):
    if 'vlen' in k:
        t = k['vlen']
        if t in (str, bytes):
            return np.dtype('O', metadata={'vlen': t})
        raise Unsupported('special_dtype %r' % (k,))
    raise Unsupported('special_dtype %r' % (k,))


class H5pyProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'h5py')
        self.File, self.Group, self.Dataset = File, Group, Dataset
        self.special_dtype = special_dtype
        self.string_dtype = lambda *a, **k: special_dtype(vlen=str)
        self.__version__ = '2.10.0'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('h5py.' + n)


class HDFStore(object):
    """pandas.HDFStore on the same fake files"""

    def __init__(self, path, mode='a', **kw):
        self.f = File(path, mode)

    def _n(self, key):
        return '/' + '/'.join(_split(key))

    def append(self, key, df, **kw):
        g = self.f.require_group(self._n(key))
        df = df.copy()
        g.node.df = df if g.node.df is None else pandas.concat(
            [g.node.df, df])

    def put(self, key, df, **kw):
        g = self.f.require_group(self._n(key))
        g.node.df = df.copy()

    def __setitem__(self, k, v):
        self.put(k, v)

    def get(self, k):
        return self[k]

    def select(self, k, **kw):
        if kw:
            raise Unsupported('HDFStore.select arguments')
        return self[k]

    def __getitem__(self, k):
        n = self.f.get(self._n(k))
        if n is None or not isinstance(n, Group) or n.node.df is None:
            raise KeyError('No object named %s in the file' % k)
        return n.node.df.copy()

    def __contains__(self, k):
        n = self.f.get(self._n(k))
        return n is not None and getattr(n.node, 'df', None) is not None

    def keys(self):
        out = []

        def rec(n, p):
            for k in sorted(n.ch):
                if isinstance(n.ch[k], GroupNode):
                    if n.ch[k].df is not None:
                        out.append(p + '/' + k)
                    rec(n.ch[k], p + '/' + k)
        rec(self.f.node, '')
        return out

    def close(self):
        self.f.close()

    def flush(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
