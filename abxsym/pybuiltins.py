"""range, set and frozenset as seen by the code under test: the bounds of a
range and the elements of a set may be symbolic integers."""
import builtins as _bi

from .arr import SymArray
from .core import SNum


def _sym(v):
    return isinstance(v, SNum)


def _unbox(v):
    return v._one() if isinstance(v, SymArray) and v.ndim == 0 else v


class SRange(object):
    """a range with symbolic bounds: its values are found one by one"""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        if step == 0:
            raise ValueError('range() arg 3 must not be zero')
        self.up = _bi.bool(step > 0)

    def __iter__(self):
        i = self.start
        while (i < self.stop) if self.up else (i > self.stop):
            yield i
            i = i + self.step

    def __len__(self):
        d = self.stop - self.start if self.up else self.start - self.stop
        s = self.step if self.up else -self.step
        n = (d + s - 1) // s
        return n.__index__() if n > 0 else 0

    def __bool__(self):
        return _bi.bool((self.start < self.stop) if self.up else
                        (self.start > self.stop))

    def _real(self):
        return _bi.range(*[v.__index__() for v in (self.start, self.stop,
                                                   self.step)])

    def __reversed__(self):
        return reversed(self._real())

    def __getitem__(self, i):
        if isinstance(i, slice) or i < 0:
            return self._real()[i]
        v = self.start + i * self.step
        if not ((v < self.stop) if self.up else (v > self.stop)):
            raise IndexError('range object index out of range')
        return v

    def __contains__(self, v):
        inside = (v >= self.start) & (v < self.stop) if self.up else \
            (v <= self.start) & (v > self.stop)
        return _bi.bool(inside) and _bi.bool((v - self.start) % self.step == 0)

    def index(self, v):
        if v not in self:
            raise ValueError('%r is not in range' % (v,))
        return (v - self.start) // self.step

    def count(self, v):
        return 1 if v in self else 0

    def __eq__(self, o):
        return self._real() == (o._real() if isinstance(o, SRange) else o)

    def __hash__(self):
        return hash(self._real())


class _RangeMeta(type):
    def __call__(cls, *a):
        a = [_unbox(v) for v in a]
        if 0 < len(a) < 4 and any(map(_sym, a)):
            for v in a:
                if _sym(v) and v.k not in 'ib':
                    return _bi.range(*a)            # raises
            start, stop, step = (a + [1] if len(a) == 2 else
                                 [0, a[0], 1] if len(a) == 1 else a)
            return SRange(start, stop, step)
        return _bi.range(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, (_bi.range, SRange))

    def __subclasscheck__(cls, c):
        return issubclass(c, (_bi.range, SRange))


class PRange(metaclass=_RangeMeta):
    pass


PRange.__name__ = PRange.__qualname__ = 'range'


# ---- sets --------------------------------------------------------------------

def _own(v):
    """symbolic integers are kept aside; labels are hashed as they are"""
    return isinstance(v, SNum) and not v.label


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.base)


def _els(x):
    return list(x)


def _make(base, name):
    ns = {'base': base}

    def __new__(cls, it=()):
        if base is _bi.set:
            s = base.__new__(cls)
            s.__dict__['_x'] = []
            return s
        it = list(it)
        s = base.__new__(cls, [v for v in it if not _own(v)])
        s.__dict__['_x'] = []
        for v in it:
            if _own(v) and v not in s:
                s._x.append(v)
        return s
    ns['__new__'] = __new__

    def __init__(self, it=()):
        if base is _bi.set:
            base.__init__(self)
            self.update(it)
    ns['__init__'] = __init__

    def __iter__(self):
        yield from list(base.__iter__(self))
        yield from list(self._x)
    ns['__iter__'] = __iter__
    ns['__len__'] = lambda self: base.__len__(self) + len(self._x)
    ns['__bool__'] = lambda self: len(self) > 0

    def __contains__(self, v):
        v = _unbox(v)
        if _own(v):
            return any(v is u for u in self._x) or any(
                v == u for u in self._x) or any(
                    v == u for u in base.__iter__(self)
                    if not isinstance(u, (str, bytes, tuple)))
        if base.__contains__(self, v):
            return True
        return isinstance(v, (_bi.int, _bi.float)) and any(
            u == v for u in self._x)
    ns['__contains__'] = __contains__
    ns['__hash__'] = None if base is _bi.set else (
        lambda self: base.__hash__(self) if not self._x else
        hash(base(v.__index__() for v in self)))

    def fresh(self, els):
        return cls(els)
    ns['copy'] = lambda self: fresh(self, self)
    ns['__reduce__'] = lambda self: (base, (list(self),))

    def union(self, *os):
        return fresh(self, [v for s in (self,) + os for v in s])
    ns['union'] = union

    def _in(v, o):
        return v in o if isinstance(o, (_bi.set, frozenset)) else \
            v in cls(o)

    def intersection(self, *os):
        os = [o if isinstance(o, cls) else cls(o) for o in os]
        return fresh(self, [v for v in self if all(v in o for o in os)])
    ns['intersection'] = intersection

    def difference(self, *os):
        os = [o if isinstance(o, cls) else cls(o) for o in os]
        return fresh(self, [v for v in self if not any(v in o for o in os)])
    ns['difference'] = difference

    def symmetric_difference(self, o):
        o = cls(o)
        return fresh(self, [v for v in self if v not in o] +
                     [v for v in o if v not in self])
    ns['symmetric_difference'] = symmetric_difference

    def op(f, rev=False):
        def g(self, o):
            if not isinstance(o, (_bi.set, frozenset)):
                return NotImplemented
            return f(cls(o), self) if rev else f(self, o)
        return g
    for nm, f in (('or', union), ('and', intersection), ('sub', difference),
                  ('xor', symmetric_difference)):
        ns['__%s__' % nm] = op(f)
        ns['__r%s__' % nm] = op(f, True)

    def issubset(self, o):
        o = o if isinstance(o, cls) else cls(o)
        return all(v in o for v in self)

    def issuperset(self, o):
        return all(v in self for v in o)
    ns['issubset'], ns['issuperset'] = issubset, issuperset
    ns['isdisjoint'] = lambda self, o: not any(v in self for v in o)

    def cmp(f):
        def g(self, o):
            if not isinstance(o, (_bi.set, frozenset)):
                return NotImplemented
            return f(self, o)
        return g
    ns['__le__'] = cmp(issubset)
    ns['__ge__'] = cmp(issuperset)
    ns['__eq__'] = cmp(lambda s, o: len(s) == len(o) and issubset(s, o))
    ns['__ne__'] = cmp(lambda s, o: not (len(s) == len(o) and
                                         issubset(s, o)))
    ns['__lt__'] = cmp(lambda s, o: len(s) < len(o) and issubset(s, o))
    ns['__gt__'] = cmp(lambda s, o: len(s) > len(o) and issuperset(s, o))
    ns['__repr__'] = lambda self: '{%s}' % ', '.join(map(repr, self))

    if base is _bi.set:
        def add(self, v):
            v = _unbox(v)
            if _own(v):
                if v not in self:
                    self._x.append(v)
            elif not self._x or v not in self:
                base.add(self, v)

        def update(self, *os):
            for o in os:
                for v in list(o):
                    add(self, v)

        def discard(self, v):
            v = _unbox(v)
            for i, u in enumerate(self._x):
                if u is v or u == v:
                    del self._x[i]
                    return
            if _own(v):
                for u in list(base.__iter__(self)):
                    if u == v:
                        base.discard(self, u)
                        return
            else:
                base.discard(self, v)

        def remove(self, v):
            n = len(self)
            discard(self, v)
            if len(self) == n:
                raise KeyError(v)

        def pop(self):
            return self._x.pop() if self._x else base.pop(self)

        def clear(self):
            base.clear(self)
            del self._x[:]

        def replace(self, els):
            els = list(els)
            clear(self)
            update(self, els)
            return self
        ns.update(add=add, update=update, discard=discard, remove=remove,
                  pop=pop, clear=clear)
        for nm, f in (('difference_update', difference),
                      ('intersection_update', intersection),
                      ('symmetric_difference_update', symmetric_difference)):
            ns[nm] = lambda self, *o, f=f: replace(self, f(self, *o)) and None
        for nm, f in (('or', union), ('and', intersection),
                      ('sub', difference), ('xor', symmetric_difference)):
            ns['__i%s__' % nm] = lambda self, o, f=f: replace(self, f(self, o))
    cls = _SetMeta(name, (base,), ns)
    return cls


SSet = _make(_bi.set, 'set')
SFrozenSet = _make(_bi.frozenset, 'frozenset')

BUILTINS = {'range': PRange, 'set': SSet, 'frozenset': SFrozenSet}
