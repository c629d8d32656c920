"""multiprocessing and h5features stand-ins.

A pool runs its tasks as threads of which exactly one runs at a time.  The
running task may change whenever one asks for a lock (and wherever a harness
says so); which one goes on is an input of the harness, in both modes.
"""
import ctypes
import os
import threading
import types

import numpy as np

from . import core


class _Stop(BaseException):
    pass


class Lock(object):
    def __init__(self, mp):
        self.mp = mp
        self.owner = None
        mp.locks.append(self)

    def acquire(self, block=True, timeout=None):
        s = self.mp.sched
        if s is None:
            if self.owner is not None:
                raise RuntimeError('deadlock: the lock is never released')
            self.owner = 'main'
            return True
        if not self.mp.atomic:
            s.switch()
        while self.owner is not None:
            if not block:
                return False
            s.switch(self)
        self.owner = s.current
        return True

    def release(self):
        if self.owner is None:
            raise ValueError('semaphore or lock released too many times')
        self.owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def __deepcopy__(self, memo):
        return self


class Task(object):
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw
        self.go = threading.Semaphore(0)
        self.thread = None
        self.done = False
        self.error = self.result = None
        self.waits = None
        self.stop = False


class Sched(object):
    def __init__(self, mp, size):
        self.mp, self.size = mp, size
        self.back = threading.Semaphore(0)
        self.current = None

    def _body(self, t):
        t.go.acquire()
        try:
            if not t.stop:
                t.result = t.fn(*t.args, **t.kw)
        except _Stop:
            pass
        except BaseException as e:
            t.error = e
        t.done = True
        self.back.release()

    def switch(self, lock=None):
        t = self.current
        t.waits = lock
        self.back.release()
        t.go.acquire()
        if t.stop:
            raise _Stop()
        t.waits = None

    def run(self, tasks):
        mp = self.mp
        mp.sched = self
        ctx = mp.ctx
        for t in tasks:
            t.thread = threading.Thread(target=self._body, args=(t,),
                                        daemon=True)
            t.thread.start()
        active, todo = [], list(tasks)
        try:
            while active or todo:
                while todo and len(active) < self.size:
                    active.append(todo.pop(0))
                ready = [t for t in active if t.waits is None
                         or t.waits.owner is None]
                if not ready:
                    raise RuntimeError('deadlock: every job waits for a lock')
                k = 0
                if len(ready) > 1:
                    mp.steps += 1
                    k = ctx.choose('sched%d' % mp.steps, len(ready))
                self.current = t = ready[k if k < len(ready) else 0]
                t.go.release()
                self.back.acquire()
                self.current = None
                if t.done:
                    active.remove(t)
                    e = t.error
                    if e is not None and (not isinstance(e, Exception) or
                                          isinstance(e, core.Unsupported)):
                        raise e
        finally:
            mp.sched = None
            self._kill(tasks)
        for t in tasks:
            if t.error is not None:
                raise t.error
        return [t.result for t in tasks]

    def _kill(self, tasks):
        for t in tasks:
            if t.done or t.thread is None:
                continue
            t.stop = True
            ctypes.pythonapi.PyThreadState_SetAsyncExc(
                ctypes.c_ulong(t.thread.ident), ctypes.py_object(_Stop))
            t.go.release()
        for t in tasks:
            if t.thread is not None:
                t.thread.join(2)


class Async(object):
    def __init__(self, pool, tasks, one):
        self.pool, self.tasks, self.one = pool, tasks, one

    def get(self, timeout=None):
        self.wait()
        for t in self.tasks:
            if t.error is not None:
                raise t.error
        r = [t.result for t in self.tasks]
        return r[0] if self.one else r

    def wait(self, timeout=None):
        self.pool._flush()
        if not self.ready():
            raise RuntimeError('deadlock: waits for the jobs of a '
                               'terminated pool')

    def ready(self):
        return all(t.done for t in self.tasks)

    def successful(self):
        return all(t.done and t.error is None for t in self.tasks)


class Pool(object):
    def __init__(self, mp, n):
        if n is not None and n < 1:
            raise ValueError('Number of processes must be at least 1')
        self.mp, self.n = mp, n or mp.cpu_count()
        self.pending, self.called = [], []
        self.closed = False

    def _now(self, calls):
        if self.closed:
            raise ValueError('Pool not running')
        return Sched(self.mp, self.n).run([Task(f, a, k)
                                           for f, a, k in calls])

    def _later(self, calls, one=False, callback=None,
               error_callback=None):
        if self.closed:
            raise ValueError('Pool not running')
        ts = [Task(f, a, k) for f, a, k in calls]
        self.pending += ts
        r = Async(self, ts, one)
        if callback is not None or error_callback is not None:
            self.called.append((r, callback, error_callback))
        return r

    def _flush(self):
        ts, self.pending = self.pending, []
        if ts:
            try:
                Sched(self.mp, self.n).run(ts)
            except Exception as e:
                if not any(t.error is e for t in ts):
                    raise
        called, self.called = self.called, []
        for r, good, bad in called:
            es = [t.error for t in r.tasks if t.error is not None]
            if es:
                if bad is not None:
                    bad(es[0])
            elif good is not None:
                good(r.get())

    def map(self, f, xs, chunksize=None):
        return self._now([(f, (x,), {}) for x in xs])

    def imap(self, f, xs, chunksize=None):
        if self.closed:
            raise ValueError('Pool not running')
        a = self._later([(f, (x,), {}) for x in xs])

        def results():
            # the jobs run anyway; their errors are only seen here
            a.wait()
            for t in a.tasks:
                if t.error is not None:
                    raise t.error
                yield t.result
        return results()

    imap_unordered = imap

    def starmap(self, f, xs, chunksize=None):
        return self._now([(f, tuple(x), {}) for x in xs])

    def apply(self, f, args=(), kwds={}):
        return self._now([(f, args, kwds)])[0]

    def apply_async(self, f, args=(), kwds={}, callback=None,
                    error_callback=None):
        return self._later([(f, args, kwds)], True, callback,
                           error_callback)

    def map_async(self, f, xs, chunksize=None, callback=None,
                  error_callback=None):
        return self._later([(f, (x,), {}) for x in xs], False, callback,
                           error_callback)

    def starmap_async(self, f, xs, chunksize=None, callback=None,
                      error_callback=None):
        return self._later([(f, tuple(x), {}) for x in xs], False,
                           callback, error_callback)

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        self.pending = []       # jobs that may never have been started

    def join(self):
        self._flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class Manager(object):
    def __init__(self, mp):
        self.mp = mp

    def Lock(self):
        return Lock(self.mp)

    RLock = Lock

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class FakeMP(types.ModuleType):
    NAMES = ('Manager', 'Pool', 'Lock', 'cpu_count')

    def __init__(self):
        types.ModuleType.__init__(self, 'multiprocessing')
        self.bind(None)

    def bind(self, ctx):
        self.ctx = ctx
        self.sched = None
        self.steps = 0
        self.locks = []
        self.atomic = False     # jobs run one after the other

    def held(self):
        """the running job holds a lock (None outside of jobs)"""
        if self.sched is None:
            return None
        return any(k.owner is self.sched.current for k in self.locks)

    def pause(self):
        """another job may go on from here"""
        if self.sched is not None:
            self.sched.switch()

    def Manager(self):
        return Manager(self)

    def Pool(self, processes=None, *a, **k):
        return Pool(self, processes)

    def Lock(self):
        return Lock(self)

    def cpu_count(self):
        return 2

    def install(self, real):
        """replaces the functions of the real module"""
        for n in self.NAMES:
            setattr(real, n, getattr(self, n))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise core.Unsupported('multiprocessing.' + n)


class FakeH5features(types.ModuleType):
    """h5features: files are dictionaries; the checks are those of the
    library"""

    def __init__(self):
        types.ModuleType.__init__(self, 'h5features')
        self.files = {}

    def write(self, filename, groupname, items_data, times, features,
              properties=None, dformat='dense', chunk_size='auto',
              sparsity=0.1, mode='a'):
        items, times, features = list(items_data), list(times), list(features)
        if not items:
            raise IOError('The items list is empty')
        if len(set(items)) != len(items):
            raise IOError('all items must have different names')
        if not (len(items) == len(times) == len(features)):
            raise IOError('all entries must have the same length')
        dims = set(f.shape[1] if f.ndim > 1 else 1 for f in features)
        if len(dims) != 1:
            raise IOError('all features must have same feature dimension')
        for t, f in zip(times, features):
            if t.shape[0] != f.shape[0]:
                raise IOError('length of times and features differ')
        p = os.path.abspath(filename)
        if mode == 'w' or not os.path.exists(p):
            self.files.pop(p, None)
        with open(p, 'a') as fh:
            fh.write('H5FEATURES')
        gs = self.files.setdefault(p, {})
        g = gs.setdefault(groupname.strip('/'), {})
        if set(g) & set(items):
            raise IOError('data is not appendable to the group')
        if g:
            have = next(iter(g.values()))[1]
            if (have.shape[1] if have.ndim > 1 else 1) != dims.pop():
                raise IOError('data is not appendable to the group')
        for i, t, f in zip(items, times, features):
            g[i] = (t.copy(), f.copy())

    def read(self, filename, groupname=None, from_item=None, to_item=None,
             from_time=None, to_time=None, index=None):
        if any(v is not None for v in (from_item, to_item, from_time, to_time,
                                       index)):
            raise core.Unsupported('h5features.read arguments')
        p = os.path.abspath(filename)
        if p not in self.files:
            raise IOError('%s is not a HDF5 file' % filename)
        gs = self.files[p]
        if groupname is None:
            if len(gs) != 1:
                raise IOError('groupname not specified')
            groupname = next(iter(gs))
        groupname = groupname.strip('/')
        if groupname not in gs:
            raise IOError('%s is not a valid group' % groupname)
        g = gs[groupname]
        return ({k: v[0].copy() for k, v in g.items()},
                {k: v[1].copy() for k, v in g.items()})

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise core.Unsupported('h5features.' + n)
