"""Sets whose iteration order is an input.

The iteration order of a Python set of strings depends on the hash seed of the
process.  `OSet` takes the place of set and frozenset in the code under test:
sets that contain strings are iterated in the order given by `ORDER`, a
function of the elements (sorted).  Other sets keep their own order, which is
the same in every process."""
import ast
import builtins

ORDER = None          # f(sorted elements) -> ordered elements


def has_str(v):
    if isinstance(v, (str, bytes)):
        return True
    return isinstance(v, (tuple, frozenset)) and any(map(has_str, v))


def order(s, base):
    els = list(base.__iter__(s))
    if ORDER is None or len(els) < 2 or not any(map(has_str, els)):
        return els
    try:
        els.sort()
    except TypeError:
        els.sort(key=repr)
    return ORDER(els)


class _Meta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, cls.base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.base)


def _make(base, name):
    ns = {'base': base}

    def __iter__(self):
        return iter(order(self, base))

    def elements(self):
        return base.__iter__(self)
    ns['__iter__'] = __iter__
    ns['__reduce__'] = lambda self: (base, (list(base.__iter__(self)),))

    def wrap(op):
        f = getattr(base, op)

        def g(self, *a):
            r = f(self, *[plain(v) for v in a])
            return r if r is NotImplemented else cls(r)
        return g
    for op in ('union', 'intersection', 'difference', 'symmetric_difference',
               'copy', '__or__', '__and__', '__sub__', '__xor__', '__ror__',
               '__rand__', '__rsub__', '__rxor__'):
        ns[op] = wrap(op)
    if base is set:
        def pop(self):
            els = order(self, base)
            if not els:
                raise KeyError('pop from an empty set')
            self.discard(els[0])
            return els[0]
        ns['pop'] = pop
    cls = _Meta(name, (base,), ns)
    return cls


def plain(v):
    """argument of a set operation: its order does not matter"""
    return v


OSet = _make(set, 'set')
OFrozenSet = _make(frozenset, 'frozenset')


def ordered(v):
    if type(v) is set:
        return OSet(v)
    if type(v) is frozenset:
        return OFrozenSet(v)
    return v


class Sets(ast.NodeTransformer):
    """sets made by literals, comprehensions and operators are OSets"""

    def _call(self, n):
        return ast.copy_location(ast.Call(
            ast.Name('__ordered__', ast.Load()), [n], []), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return self._call(n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._call(n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return self._call(n)
        return n


BUILTINS = {'set': OSet, 'frozenset': OFrozenSet, '__ordered__': ordered}


def tree(src):
    return ast.fix_missing_locations(Sets().visit(ast.parse(src)))
