"""Makes one access to the HDF5 files fail, or all of those that follow too.

The same wrappers are put on the classes of the in-memory model and on those
of h5py and pandas, so that an access has the same number in both."""
import contextlib


class Fault(OSError):
    pass


class Injector(object):
    def __init__(self, ctx, at, lasting):
        self.ctx, self.at, self.lasting = ctx, at, lasting
        self.n = 0
        self.fired = None
        self.depth = 0

    def hit(self, op):
        n = self.n
        self.n += 1
        if self.fired is None:
            if self.ctx.decide(self.at == n):
                self.fired = op
                raise Fault('injected fault (%s)' % op)
        elif self.lasting and op in ('write', 'create', 'resize', 'append'):
            raise Fault('injected fault (%s)' % op)

    def wrap(self, f, op):
        def g(*a, **k):
            if self.depth:
                return f(*a, **k)
            self.hit(op)
            self.depth += 1
            try:
                return f(*a, **k)
            finally:
                self.depth -= 1
        return g


@contextlib.contextmanager
def inject(ctx, at, lasting, classes):
    """classes: File, Group, Dataset, HDFStore, h5features"""
    File, Group, Dataset, Store, Features = classes
    inj = Injector(ctx, at, lasting)
    points = [(File, '__init__', 'open'), (Group, 'create_dataset', 'create'),
              (Dataset, '__getitem__', 'read'), (Dataset, '__array__', 'read'),
              (Dataset, '__setitem__', 'write'), (Dataset, 'resize', 'resize'),
              (Store, '__init__', 'open'), (Store, 'append', 'append'),
              (Store, '__getitem__', 'read'), (Features, 'read', 'read'),
              (Features, 'write', 'write')]
    saved = []
    for c, m, op in points:
        f = getattr(c, m, None)
        if f is None:
            continue
        saved.append((c, m, vars(c).get(m)))
        setattr(c, m, inj.wrap(f, op))
    try:
        yield inj
    finally:
        for c, m, f in saved:
            if f is None:
                delattr(c, m)
            else:
                setattr(c, m, f)
