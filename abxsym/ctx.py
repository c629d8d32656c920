"""The two execution contexts of a harness.

A harness is one Python function `h(ctx, **cfg)`.  Run with a `SymCtx` its
inputs are symbolic and the ABXpy modules are loaded with the symbolic
stand-ins; run with a `RealCtx` its inputs are the values of a solver model and
everything else (code, numpy, pandas, h5py) is the real thing.
"""
import contextlib
import fractions
import importlib
import json
import math
import os
import shutil
import sys
import tempfile
import time
import types

import numpy as np

from . import core, sets

REPO = os.environ.get('ABX_REPO', '/repo')


class CheckFailed(BaseException):
    pass


class TwiceDone(BaseException):
    pass


class BaseCtx(object):
    def __init__(self):
        self.observed = {}
        self._files = {}

    # logical connectives usable in both modes
    def And(self, *cs):
        if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
            cs = cs[0]
        acc = []
        for c in cs:
            c = core.as_bool(c)
            if c is False:
                return False
            if c is not True:
                acc.append(c)
        if not acc:
            return True
        return core.z3.And(*acc) if len(acc) > 1 else acc[0]

    def Or(self, *cs):
        if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
            cs = cs[0]
        acc = []
        for c in cs:
            c = core.as_bool(c)
            if c is True:
                return True
            if c is not False:
                acc.append(c)
        if not acc:
            return False
        return core.z3.Or(*acc) if len(acc) > 1 else acc[0]

    def Not(self, c):
        c = core.as_bool(c)
        if c is True or c is False:
            return not c
        return core.z3.Not(c)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        a, b = core.as_bool(a), core.as_bool(b)
        if isinstance(a, bool):
            return b if a else self.Not(b)
        if isinstance(b, bool):
            return a if b else self.Not(a)
        return a == b

    def If(self, c, a, b):
        return core.raw_ite(c, core.strip(a), core.strip(b))

    def path(self, name):
        return os.path.join(self.dir, name)

    def write_items(self, name, columns, rows):
        """an item file: columns are the names after '#file onset offset #';
        rows are (file, onset, offset, label, ...)"""
        return self.write_table(
            name, ['#file', 'onset', 'offset', '#' + columns[0]] +
            list(columns[1:]), rows)

    @contextlib.contextmanager
    def small_buffers(self, kb, modules=('ABXpy.h5tools.h52np',
                                         'ABXpy.h5tools.np2h5')):
        """default sizes of the I/O buffers become kb kilobytes"""
        import inspect
        saved = []
        for name in modules:
            m = self.load(name)
            for c in list(vars(m).values()):
                fs = [c] if inspect.isfunction(c) else \
                    list(vars(c).values()) if inspect.isclass(c) else []
                for f in fs:
                    if not inspect.isfunction(f) or not f.__defaults__:
                        continue
                    args = f.__code__.co_varnames[:f.__code__.co_argcount]
                    d = list(f.__defaults__)
                    for i, a in enumerate(args[len(args) - len(d):]):
                        if 'buf' in a and type(d[i]) in (int, float):
                            d[i] = kb
                    saved.append((f, f.__defaults__))
                    f.__defaults__ = tuple(d)
        try:
            yield
        finally:
            for f, d in saved:
                f.__defaults__ = d

    def faults(self, at, lasting=False):
        """with ctx.faults(k) as inj: the k-th access to a HDF5 file fails
        with an OSError (and, if lasting, all writes from then on);
        inj.fired is the kind of access, inj.n the number of accesses"""
        from . import fakeh5, faults
        m = fakeh5 if self.symbolic else self.h5py
        store = fakeh5 if self.symbolic else self.pd
        return faults.inject(self, at, lasting, (
            self._h5file if not self.symbolic else m.File, m.Group, m.Dataset,
            store.HDFStore, self.h5features))

    def observe(self, name, value):
        self.observed[name] = value

    def Sum(self, vals):
        acc = 0
        for v in vals:
            acc = core.raw_add(acc, core.strip(v))
        return acc

    def is_symbolic(self, v):
        return isinstance(v, core.SNum)

    def table(self, path):
        """cells of a tab separated file"""
        def cell(t):
            if self.symbolic and t in self.E.tokens:
                return self.E.tokens[t]
            for c in (int, float):
                try:
                    return c(t)
                except ValueError:
                    pass
            return t
        with open(path) as f:
            return [[cell(t) for t in line.split('\t')]
                    for line in f.read().split('\n')]

    def b2i(self, c):
        c = core.as_bool(c)
        if isinstance(c, bool):
            return int(c)
        return core.mk_int(core.z3.If(c, core.z3.IntVal(1),
                                      core.z3.IntVal(0)), 0, 1)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng, shared, scratch):
        BaseCtx.__init__(self)
        from . import fakeh5, npproxy
        self.E = eng
        self.shared = shared          # survives from path to path
        self.dir = scratch
        self.disk = fakeh5.reset()
        self.h5py = shared['h5py']
        self.np = shared['np']
        self.pd = shared['pd']
        self.mp = shared['mp']
        self.mp.bind(self)
        self.h5features = shared['h5f']
        self.h5features.files = {}
        self.violations = []
        self.proved = 0
        self.trivial = 0
        self.undecided = 0
        from . import arr
        arr.ScaledDtype.scale = None
        shared['np'].random.start()
        sets.ORDER = None
        self.sets = False
        self.orders = 0
        shared['pd'].files = self._files

    # ---- inputs
    def _in(self, name, v):
        assert name not in self.E.inputs, name
        self.E.inputs[name] = v

    def int(self, name, lo=None, hi=None, dt=None, label=False):
        v = core.z3.Int(name)
        self._in(name, v)
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if cs:
            self.E.assume(core.z3.And(*cs))
        return core.SNum('i', v, None if dt is None else np.dtype(dt), lo, hi,
                         label)

    def label(self, name, lo, hi):
        return self.int(name, lo, hi, label=True)

    def const_label(self, v):
        return core.SNum('i', core.z3.IntVal(v), None, v, v, True)

    def real(self, name, lo=None, hi=None):
        v = core.z3.Real(name)
        self._in(name, v)
        cs = []
        if lo is not None:
            cs.append(v >= core._z3_lit(v, fractions.Fraction(lo)))
        if hi is not None:
            cs.append(v <= core._z3_lit(v, fractions.Fraction(hi)))
        if cs:
            self.E.assume(core.z3.And(*cs))
        return core.SNum('f', v)

    def fp(self, name, nan=False, inf=False):
        v = core.z3.FP(name, core.F64)
        self._in(name, v)
        if not nan:
            self.E.assume(core.z3.Not(core.z3.fpIsNaN(v)))
        if not inf:
            self.E.assume(core.z3.Not(core.z3.fpIsInf(v)))
        return core.SNum('d', v)

    def bool(self, name):
        v = core.z3.Bool(name)
        self._in(name, v)
        return core.SNum('b', v)

    def choose(self, name, n):
        """a value in range(n), decided by forking"""
        v = core.z3.Int(name)
        self._in(name, v)
        self.E.assume(core.z3.And(v >= 0, v < n))
        return self.E.concretise(v)

    def assume(self, c):
        self.E.assume(c)

    def lazy_products(self, cap=32):
        """non-linear real operations are left free: their definitions are
        only used to decide whether a failure is possible"""
        self.E.lazy = []
        self.E.lazy_cap = cap

    def decide(self, c):
        c = core.as_bool(c)
        return c if isinstance(c, bool) else self.E.branch(c)

    # ---- checks
    def check(self, cond, msg):
        if self.E.aborted:
            raise core.PathAbort(self.E.aborted)
        if len(self.E.decisions) < len(self.E.prefix):
            return                # decided on the path this one forked from
        c = core.as_bool(cond)
        if c is True:
            self.trivial += 1
            return
        if c is False:
            r, m = core.z3.sat, self.E._get_model()
        else:
            r = self.E._check(core.z3.Not(c))
            m = self.E.last_model if r == core.z3.sat else None
        if r == core.z3.sat and self.E.lazy:
            r = self.E._check(core.z3.Not(c), *self.E.lazy)
            m = self.E.last_model if r == core.z3.sat else None
        if r == core.z3.unsat:
            self.proved += 1
        elif r == core.z3.sat:
            self.violations.append((msg, self.case(
                None if c is False else core.z3.Not(c), m)))
            if len(self.violations) >= 3:
                raise CheckFailed()
        else:
            self.undecided += 1

    def fail(self, msg):
        self.check(False, msg)

    def case(self, extra=None, model=None):
        """concrete inputs of this path (a model of the path condition)"""
        m = model
        if self.E.lazy:
            extra = core.z3.And(*(self.E.lazy + (
                [extra] if extra is not None else [])))
            m = None
        reals = [v for v in self.E.inputs.values() if core.z3.is_real(v)]
        if reals:
            # prefer values a double holds exactly
            for q in (1, 4, 64, 4096, 1 << 20):
                cs = [core.z3.IsInt(v * q) for v in reals]
                if extra is not None:
                    cs.append(extra)
                if self.E._check(*cs) == core.z3.sat:
                    m = self.E.last_model
                    break
        if m is None:
            r = self.E._check(*([extra] if extra is not None else []))
            m = self.E.last_model if r == core.z3.sat else None
        if m is None:
            return None
        self.case_model = m
        return {n: encode(core._z3_const(m.eval(v, model_completion=True)))
                for n, v in self.E.inputs.items()}

    def load(self, name):
        if self.sets:
            if 'set_loader' not in self.shared:
                from . import loader
                self.shared['set_loader'] = loader.Loader(
                    self.shared['stubs'], sets=True)
            return self.shared['set_loader'].load(name)
        return self.shared['loader'].load(name)

    def twice(self, f, max_orders=None):
        """(f(0), f(1)): two runs in environments that differ by the
        iteration order of the sets and by the state of the random generator;
        draws that follow a call to seed(s) are functions of s and of their
        position"""
        r = self.shared['np'].random
        r.streams = {}
        self.sets = True
        r.key, r.pos = None, 0
        sets.ORDER = list
        a = f(0)
        cache = {}

        def chosen(els):
            k = tuple(map(repr, els))
            if k not in cache:
                left, out = list(els), []
                if max_orders is not None and len(cache) >= max_orders:
                    out, left = left, []
                elif len(left) > 3:
                    q = self.choose('order!%d' % len(cache), 2 * len(left))
                    if q % 2:
                        left.reverse()
                    out, left = left[q // 2:] + left[:q // 2], []
                while left:
                    out.append(left.pop(self.choose('order!%d!%d' % (
                        len(cache), len(out)), len(left)) if len(left) > 1
                        else 0))
                cache[k] = out
            return list(cache[k])
        r.key, r.pos = None, 0
        sets.ORDER = chosen
        try:
            b = f(1)
        finally:
            sets.ORDER = None
        return a, b

    def load_const(self, name, consts):
        """the module with some literal constants replaced"""
        k = tuple(sorted(consts.items()))
        ls = self.shared.setdefault('const_loaders', {})
        if k not in ls:
            from . import loader
            ls[k] = loader.Loader(self.shared['stubs'], consts=consts)
        return ls[k].load(name)

    def write_table(self, name, cols, rows):
        import pandas
        p = self.path(name)
        with open(p, 'w') as f:
            f.write('TABLE')
        df = pandas.DataFrame(index=range(len(rows)))
        for i, c in enumerate(cols):
            o = np.empty(len(rows), dtype=object)
            for j, r in enumerate(rows):
                o[j] = np.nan if r[i] is None else r[i]
            s = pandas.Series(o, dtype=object)
            if not any(isinstance(v, core.SNum) for v in o):
                s = s.infer_objects()
            df[c] = s
        self._files[os.path.abspath(p)] = df
        return p

    def symbolic_text(self):
        """values written as text can be read back by table()"""
        self.E.tokens = {}

    def fake_processes(self):
        pass

    def watch_opens(self, path, f):
        p = os.path.abspath(path)

        def cb(fh, op, mode, _):
            if op == 'open' and os.path.abspath(fh.filename) == p:
                f(mode)
        self.disk.on_access = cb

    def stub_rng(self, int_domain=None, max_draws=None):
        """random draws are inputs; int_domain: values integer draws are
        restricted to; max_draws: paths with more draws are cut"""
        r = self.shared['np'].random
        r.int_domain, r.max_draws = int_domain, max_draws

    def more_draws(self, n):
        """paths with more than n draws from now on are cut"""
        r = self.shared['np'].random
        r.max_draws = r.draws + n

    def drawn(self):
        """the integers drawn so far"""
        return list(self.shared['np'].random.made)

    def feed(self, draws):
        """the next integers to be drawn"""
        r = self.shared['np'].random
        r.made, r.fed, r.misfit = [], list(draws), []

    def misfits(self):
        """is an integer that was fed out of the range asked for?"""
        return self.Or(self.shared['np'].random.misfit)

    def outcomes(self, f):
        """{outcome of f: its probability} when the draws are independent
        and uniform, f making real draws only.  Every path of f is explored;
        the solver gives the bounds of each draw and decides that the path is
        taken everywhere between them."""
        outer = self.E
        r = self.shared['np'].random
        most = r.max_draws
        sub = core.Engine()
        sub.deadline = None
        res = {}
        core.ENGINE = self.E = sub
        try:
            while sub.work:
                if outer.deadline and time.time() > outer.deadline:
                    core.ENGINE = self.E = outer
                    outer.abort('deadline')
                sub.start_path(sub.work.pop())
                r.start()
                r.max_draws = most
                try:
                    out = f()
                except core.PathAbort:
                    if sub.aborted == 'path timeout':
                        raise
                    continue
                pc = sub.solver.assertions()
                size = fractions.Fraction(1)
                box = []
                for n, v in sub.inputs.items():
                    if not core.z3.is_real(v):
                        raise core.Unsupported('draw of an integer')
                    ends = []
                    for way in ('minimize', 'maximize'):
                        o = core.z3.Optimize()
                        o.add(pc)
                        h = getattr(o, way)(v)
                        if o.check() != core.z3.sat:
                            raise core.Unsupported('bounds of a draw')
                        e = (o.lower_values(h) if way == 'minimize' else
                             o.upper_values(h))
                        e = core._z3_const(core.z3.simplify(e[1]))
                        if e is None:
                            raise core.Unsupported('bounds of a draw')
                        ends.append(fractions.Fraction(e))
                    size *= ends[1] - ends[0]
                    box += [v > core._z3_lit(v, ends[0]),
                            v < core._z3_lit(v, ends[1])]
                if sub._check() == core.z3.sat and box:
                    o = core.z3.Solver()
                    o.add(box)
                    o.add(core.z3.Not(core.z3.And(list(pc))))
                    if o.check() != core.z3.unsat:
                        raise core.Unsupported('draws that are not bounded '
                                               'independently')
                res[out] = res.get(out, 0) + size
        finally:
            core.ENGINE = self.E = outer
            outer.queries += sub.queries
            outer.solver_time += sub.solver_time
            r.start()
        if sum(res.values()) != 1:
            raise core.Unsupported('any number of draws')
        return res

    @contextlib.contextmanager
    def scaled(self, k):
        """item sizes look k times bigger to the code (symbolic mode only)"""
        from . import arr
        arr.ScaledDtype.scale = k
        try:
            yield
        finally:
            arr.ScaledDtype.scale = None

    def value(self, x):
        """concrete value of x, forking over the possibilities"""
        if isinstance(x, core.SNum):
            return self.E.concretise(x.e)
        return x

    def array(self, vals, dtype=None):
        return self.np.array(vals, dtype=dtype)


class RealCtx(BaseCtx):
    symbolic = False

    def __init__(self, inputs, scratch):
        BaseCtx.__init__(self)
        self.inputs = {k: decode(v) for k, v in inputs.items()}
        self.dir = scratch
        self.failures = []
        self.missing = 0
        import h5py
        import pandas
        self.h5py, self.np, self.pd = h5py, np, pandas
        self._h5file = h5py.File
        self._rng = None
        self.case = None

    def _get(self, name, default):
        if name in self.inputs:
            return self.inputs[name]
        self.missing += 1
        return default

    def int(self, name, lo=None, hi=None, dt=None, label=False):
        v = self._get(name, lo if lo is not None else (hi or 0))
        return np.dtype(dt).type(v) if dt is not None else v

    def symbolic_text(self):
        pass

    def label(self, name, lo, hi):
        return self.int(name, lo, hi)

    def const_label(self, v):
        return v

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, lo if lo is not None else (hi or 0.)))

    def fp(self, name, nan=False, inf=False):
        return float(self._get(name, 0.))

    def bool(self, name):
        return bool(self._get(name, False))

    def choose(self, name, n):
        return int(self._get(name, 0))

    def lazy_products(self, cap=32):
        pass

    def assume(self, c):
        if not c:
            raise core.PathAbort('assumption false')

    def decide(self, c):
        return bool(c)

    def check(self, cond, msg):
        if not bool(cond):
            self.failures.append(msg)
            if len(self.failures) >= 20:
                raise CheckFailed()

    def fail(self, msg):
        self.check(False, msg)

    def load(self, name):
        return importlib.import_module(name)

    def load_const(self, name, consts):
        from . import loader
        m = types.ModuleType(name)
        m.__file__ = os.path.join(REPO, *name.split('.')) + '.py'
        m.__package__ = name.rpartition('.')[0]
        with open(m.__file__, encoding='utf8') as f:
            exec(compile(loader.const_tree(f.read(), consts), m.__file__,
                         'exec', dont_inherit=True), m.__dict__)
        return m

    def write_table(self, name, cols, rows):
        """None is a missing value"""
        p = self.path(name)
        with open(p, 'w') as f:
            f.write(' '.join(cols) + '\n')
            for r in rows:
                f.write(' '.join('NaN' if v is None else str(v)
                                 for v in r) + '\n')
        return p

    def fake_processes(self):
        """pools run their tasks in the order of the case; to be called
        before the code is loaded"""
        from . import procs
        import multiprocessing
        if RealCtx.mp is None:
            RealCtx.mp = procs.FakeMP()
            RealCtx.mp.install(multiprocessing)
        self.mp.bind(self)

    mp = None

    @property
    def h5features(self):
        import h5features
        return h5features

    def twice(self, f, max_orders=None):
        """f(0) here, then in processes with other hash seeds and states of
        the random generator: the first result that differs, or the last"""
        env = os.environ.get('ABX_TWICE')
        if env is not None:
            np.random.seed(1000 + int(env))
            np.random.rand(int(env))
            r = f(0)
            if int(env) % 4 == 3:         # after another run
                r = f(1)
            raise TwiceDone(json.loads(json.dumps(flatten_obs(r))))
        import subprocess
        ps = []
        for i in range(8):
            d = tempfile.mkdtemp(dir=self.dir)
            spec = dict(self.case, scratch=d)
            with open(os.path.join(d, 'in.json'), 'w') as g:
                json.dump(spec, g)
            ps.append((d, subprocess.Popen(
                [sys.executable, '-m', 'abxsym.realrun',
                 os.path.join(d, 'in.json'), os.path.join(d, 'out.json')],
                env=dict(os.environ, ABX_TWICE=str(i),
                         PYTHONHASHSEED=str(17 * i)))))
        res = []
        for d, p in ps:
            p.wait()
            with open(os.path.join(d, 'out.json')) as g:
                r = json.loads(g.readline())
            if r['status'] != 'twice':
                raise RuntimeError('run ended with %s %s' % (
                    r['status'], r['error']))
            res.append(r['obs'])
        for r in res[1:]:
            if r != res[0]:
                return res[0], r
        return res[0], res[-1]

    def watch_opens(self, path, f):
        """f(mode) is called whenever path is opened"""
        import h5py
        base = h5py.File

        class Watched(base):
            def __init__(self, name, *a, **k):
                if os.path.abspath(name) == os.path.abspath(path):
                    f(a[0] if a else k.get('mode', 'a'))
                base.__init__(self, name, *a, **k)
        h5py.File = Watched

    def stub_rng(self, int_domain=None, max_draws=None):
        """np.random draws take the values of the case"""
        self._rng = RealRng(self)
        self._rng.install()

    def more_draws(self, n):
        pass

    def drawn(self):
        return list(self._rng.made)

    def feed(self, draws):
        r = self._rng
        r.made, r.fed, r.misfit = [], list(draws), False

    def misfits(self):
        return self._rng.misfit

    def outcomes(self, f, grid=12):
        """on a grid"""
        res = {}
        work = [[]]
        vals = [(2 * i + 1) / (2. * grid) for i in range(grid)]
        names = ('rand', 'random_sample', 'random', 'ranf', 'sample')
        old = [getattr(np.random, n) for n in names]

        class More(Exception):
            pass

        while work:
            p = work.pop()
            left = list(p)

            def draw():
                if not left:
                    raise More()
                return left.pop(0)

            def rand(*shape):
                if not shape:
                    return draw()
                return np.array([draw() for _ in range(int(
                    np.prod(shape)))], dtype=float).reshape(shape)

            def sample(size=None):
                return draw() if size is None else rand(
                    *(size if isinstance(size, tuple) else (size,)))
            for n in names:
                setattr(np.random, n, rand if n == 'rand' else sample)
            try:
                out = f()
            except More:
                work += [p + [v] for v in vals]
                continue
            finally:
                for n, g in zip(names, old):
                    setattr(np.random, n, g)
            res[out] = res.get(out, 0) + fractions.Fraction(
                1, grid ** len(p))
        return res

    @contextlib.contextmanager
    def scaled(self, k):
        yield

    def value(self, x):
        return x

    def array(self, vals, dtype=None):
        return np.array(vals, dtype=dtype)


class RealRng(object):
    NAMES = ('rand', 'random_sample', 'random', 'ranf', 'sample', 'randint',
             'seed', 'permutation', 'shuffle', 'choice')

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.alt = np.random.RandomState(0)
        self.made, self.fed, self.misfit = [], None, False

    def install(self):
        for n in self.NAMES:
            setattr(np.random, n, getattr(self, n))

    def _next(self, p, alt):
        self.n += 1
        k = '%s!%d' % (p, self.n)
        if k in self.ctx.inputs:
            return self.ctx.inputs[k]
        self.ctx.missing += 1
        return alt()

    def _real(self):
        return float(self._next('u', self.alt.rand))

    def rand(self, *shape):
        if not shape:
            return self._real()
        return np.array([self._real() for _ in range(int(np.prod(shape)))],
                        dtype=float).reshape(shape)

    def random_sample(self, size=None):
        if size is None:
            return self._real()
        if not isinstance(size, tuple):
            size = (size,)
        return self.rand(*size)

    random = ranf = sample = random_sample

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low

        def one():
            if self.fed:
                v = int(self.fed.pop(0))
                self.misfit = self.misfit or not low <= v < high
            else:
                v = int(self._next('r', lambda: self.alt.randint(low, high)))
                v = min(max(v, int(low)), int(high) - 1)
            self.made.append(v)
            return v
        if size is None:
            return np.dtype(dtype).type(one()) if dtype is not int else one()
        n = int(np.prod(size))
        return np.array([one() for _ in range(n)], dtype=dtype).reshape(size)

    def seed(self, s=None):
        pass

    def permutation(self, x):
        a = np.arange(x) if isinstance(x, (int, np.integer)) \
            else np.array(x)
        left = list(range(len(a)))
        order = []
        for i in range(len(a)):
            j = int(self._next('p', lambda: 0))
            order.append(left.pop(min(j, len(left) - 1)))
        return a[order]

    def shuffle(self, x):
        x[...] = x[self.permutation(len(x))]

    def choice(self, a, size=None, replace=True, p=None):
        pool = np.arange(a) if isinstance(a, (int, np.integer)) \
            else np.asarray(a)
        if size is None:
            return pool[self.randint(0, len(pool))]
        if replace:
            return pool[self.randint(0, len(pool), size)]
        return self.permutation(pool)[:int(size)]


# ---- values in JSON ---------------------------------------------------------

def encode(v):
    if isinstance(v, fractions.Fraction):
        if v.denominator == 1:
            return {'real': str(v.numerator)}
        return {'real': '%d/%d' % (v.numerator, v.denominator)}
    if isinstance(v, float):
        return {'fp': v.hex() if math.isfinite(v) else str(v)}
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    return v


def decode(v):
    if isinstance(v, dict):
        if 'real' in v:
            f = fractions.Fraction(v['real'])
            return f.numerator / f.denominator
        s = v['fp']
        return float(s) if s in ('nan', 'inf', '-inf') else float.fromhex(s)
    return v


def flatten_obs(v, ev=None):
    """observed value -> JSON; ev evaluates symbolic scalars"""
    from . import arr
    if isinstance(v, core.SNum):
        c = core._z3_const(ev(v.e)) if ev else None
        if c is None:
            return '?'
        return flatten_obs(c)
    if isinstance(v, arr.SymArray):
        return [flatten_obs(x, ev) for x in v.tolist()] if v.ndim else \
            flatten_obs(v.tolist(), ev)
    if isinstance(v, np.ndarray):
        return flatten_obs(v.tolist(), ev)
    if isinstance(v, (list, tuple)):
        return [flatten_obs(x, ev) for x in v]
    if isinstance(v, dict):
        return {str(flatten_obs(k, ev)): flatten_obs(x, ev)
                for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return sorted((flatten_obs(x, ev) for x in v), key=repr)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, fractions.Fraction):
        return float(v)
    if isinstance(v, (float, np.floating)):
        f = float(v)
        return f if math.isfinite(f) else str(f)
    if z3_expr(v):
        c = core._z3_const(ev(v)) if ev else None
        return '?' if c is None else flatten_obs(c)
    if v is None or isinstance(v, str):
        return v
    return str(v)


def z3_expr(v):
    return core.z3.is_expr(v)


def same_obs(a, b, tol=1e-6):
    if a == '?' or b == '?':
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_obs(x, y, tol)
                                        for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_obs(a[k], b[k], tol) for k in a)
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        if a == b:
            return True
        return abs(a - b) <= tol * max(1., abs(a), abs(b))
    return a == b


class PandasProxy(types.ModuleType):
    """pandas, except that reading files goes to the fake file system"""

    def __init__(self):
        types.ModuleType.__init__(self, 'pandas')
        import pandas
        from . import fakeh5
        self._real = pandas
        self.files = {}
        self.HDFStore = fakeh5.HDFStore

    def read_csv(self, path, *a, **k):
        p = os.path.abspath(path)
        if p in self.files:
            return self.files[p].copy()
        return self._real.read_csv(path, *a, **k)

    read_table = read_csv

    def read_hdf(self, path, key):
        from . import fakeh5
        with fakeh5.HDFStore(path, 'r') as s:
            return s[key]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.__dict__['_real'], n)


def concrete_keys():
    """pandas looks up integer labels in compiled code, which does not take a
    symbolic value for an integer: one path for each of its values"""
    import pandas
    from pandas.core import indexing
    from .core import SNum

    def plain(k):
        if isinstance(k, SNum) and not k.label and k.k == 'i':
            return int(k)
        if type(k) is tuple:
            return tuple(plain(v) for v in k)
        return k

    def wrap(cls, name):
        f = getattr(cls, name)
        if getattr(f, 'plain', False):
            return

        def g(self, k, *a):
            return f(self, plain(k), *a)
        g.plain = True
        setattr(cls, name, g)
    for cls in (pandas.Series, pandas.DataFrame, indexing._LocIndexer,
                indexing._iLocIndexer, indexing._AtIndexer,
                indexing._iAtIndexer):
        wrap(cls, '__getitem__')
        wrap(cls, '__setitem__')


def make_shared():
    concrete_keys()
    from . import fakeh5, npproxy, loader, procs
    sh = {'h5py': fakeh5.H5pyProxy(), 'np': npproxy.NumpyProxy(),
          'pd': PandasProxy()}
    stubs = {'numpy': sh['np'], 'h5py': sh['h5py'], 'pandas': sh['pd'],
             'math': npproxy.MathProxy()}
    sh['mp'] = stubs['multiprocessing'] = procs.FakeMP()
    sh['h5f'] = stubs['h5features'] = procs.FakeH5features()
    sh['loader'] = loader.Loader(stubs)
    sh['stubs'] = stubs
    return sh
