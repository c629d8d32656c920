"""Symbolic-execution core: path exploration by decision replay, z3-backed
symbolic scalars.

One `Engine` explores the paths of a harness depth first.  A path is a list of
decisions; the harness is re-executed for each path and takes the recorded
decisions up to the first new one.  z3 constraints of the common prefix of two
consecutive paths stay asserted (one push level per event).
"""
import builtins as _bi
import fractions
import math
import sys
import time

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

import numpy as _np  # noqa: E402


class PathAbort(BaseException):
    """This path cannot be followed further (infeasible, or cut)."""


class Unsupported(Exception):
    """The encoding does not model an operation the code used."""


class Violation(BaseException):
    pass


ENGINE = None          # the engine of the path being executed


def engine():
    return ENGINE


class Engine(object):
    def __init__(self, query_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.queries = 0
        self.unknown = 0
        self.solver_time = 0.0
        self.work = [[]]          # prefixes still to be run (stack)
        self.prefix = []
        self.decisions = []
        self.dec_event = []       # event index of each decision
        self.n_events_valid = 0   # events asserted in the solver
        self.event = 0
        self.model = None
        self.inputs = {}
        self.degraded = {}
        self.depth_decisions = 0
        self.branches = 0
        self.concretise_cap = 512
        self.tokens = None
        self.fresh_n = 0
        self.deadline = None
        self.aborted = None
        self.memo = {}
        # non-linear real operations are left free and their definitions kept
        # here, when this is a list (over-approximation)
        self.lazy = None

    # ---- solver -------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        self.queries += 1
        if r == z3.sat:
            self.last_model = self.solver.model()
        elif r == z3.unknown:
            self.unknown += 1
        return r

    def _event_assert(self, c):
        """Assert c at the current event position (skipped when the same
        event is still asserted from the previous path)."""
        if self.aborted:
            raise PathAbort(self.aborted)
        if self.event < self.n_events_valid:
            self.event += 1
            return
        self.solver.push()
        self.solver.add(c)
        self.event += 1
        self.n_events_valid = self.event

    def start_path(self, prefix):
        old = self.decisions
        k = 0
        while k < len(prefix) and k < len(old) and prefix[k] == old[k]:
            k += 1
        # pop every event at or after decision k of the old path
        if k < len(old):
            keep = self.dec_event[k]
        else:
            keep = self.n_events_valid
        while self.n_events_valid > keep:
            self.solver.pop()
            self.n_events_valid -= 1
        self.prefix = prefix
        self.decisions = []
        self.dec_event = []
        self.event = 0
        self.model = None
        self.inputs = {}
        self.fresh_n = 0
        self.memo = {}
        self.aborted = None
        self.notes = {}
        self.tokens = None
        self.lazy = None

    def _record(self, d):
        self.decisions.append(d)
        self.dec_event.append(self.event)

    def assume(self, c):
        c = as_bool(c)
        if c is True:
            return
        if c is False:
            self.abort('assumption false')
        fresh = self.event >= self.n_events_valid
        self._event_assert(c)
        if fresh:
            if self.model is not None and not z3.is_true(
                    self.model.eval(c, model_completion=True)):
                self.model = None
            if self.model is None:
                r = self._check()
                if r == z3.unsat:
                    self.abort('assumption infeasible')
                if r == z3.sat:
                    self.model = self.last_model

    def _get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.last_model
            elif r == z3.unsat:
                self.abort('infeasible')
        return self.model

    def branch(self, c):
        """Decide the truth of the z3 formula c on this path."""
        if c is True or c is False:
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.branches += 1
        if self.aborted:
            raise PathAbort(self.aborted)
        neg = False
        while z3.is_not(c):
            c = c.arg(0)
            neg = not neg
        hit = self.memo.get(c.get_id())
        if hit is not None:
            return hit[0] != neg
        val = self._branch(c)
        self.memo[c.get_id()] = (val, c)
        return val != neg

    def abort(self, why):
        self.aborted = why
        raise PathAbort(why)

    def _branch(self, c):
        pos = len(self.decisions)
        if pos < len(self.prefix):
            val = self.prefix[pos]
            self._record(val)
            self.model = None
            self._event_assert(c if val else z3.Not(c))
            return val
        if self.deadline and time.time() > self.deadline:
            self.abort('deadline')
        m = self._get_model()
        if m is None:                     # unknown: follow both
            t_ok = f_ok = True
            mt = mf = None
        else:
            v = m.eval(c, model_completion=True)
            mt = mf = None
            if z3.is_true(v):
                t_ok, mt = True, m
                r = self._check(z3.Not(c))
                f_ok = r != z3.unsat
                mf = self.last_model if r == z3.sat else None
            elif z3.is_false(v):
                f_ok, mf = True, m
                r = self._check(c)
                t_ok = r != z3.unsat
                mt = self.last_model if r == z3.sat else None
            else:
                r = self._check(c)
                t_ok = r != z3.unsat
                mt = self.last_model if r == z3.sat else None
                r = self._check(z3.Not(c))
                f_ok = r != z3.unsat
                mf = self.last_model if r == z3.sat else None
        if not (t_ok or f_ok):
            self.abort('infeasible')
        if t_ok and f_ok:
            self.work.append(self.decisions + [False])
            self.depth_decisions += 1
        val = t_ok
        self.model = mt if val else mf
        self._record(val)
        self._event_assert(c if val else z3.Not(c))
        return val

    def concretise(self, e):
        """Fork over the feasible values of the z3 Int/Real/Bool term e."""
        if isinstance(e, (_bi.int, _bi.float, bool, fractions.Fraction)):
            return e
        e = z3.simplify(e)
        v = _z3_const(e)
        if v is not None:
            return v
        for _ in range(self.concretise_cap):
            pos = len(self.decisions)
            if pos < len(self.prefix):
                v, val = self.prefix[pos]
                self._record((v, val))
                self.model = None
                c = e == _z3_lit(e, v)
                self._event_assert(c if val else z3.Not(c))
                if val:
                    return v
                continue
            if self.aborted:
                raise PathAbort(self.aborted)
            if self.deadline and time.time() > self.deadline:
                self.abort('deadline')
            m = self._get_model()
            if m is None:
                raise Unsupported('solver returned unknown')
            v = _z3_const(m.eval(e, model_completion=True))
            if v is None:
                raise Unsupported('cannot concretise %s' % e)
            c = e == _z3_lit(e, v)
            r = self._check(z3.Not(c))
            if r != z3.unsat:
                self.work.append(self.decisions + [(v, False)])
                self.depth_decisions += 1
            self._record((v, True))
            self._event_assert(c)
            return v
        raise Unsupported('too many values to concretise')

    def possible(self, c):
        """Is c satisfiable on this path? (no fork)"""
        if c is True or c is False:
            return c
        pos = len(self.decisions)
        if pos < len(self.prefix):
            val = self.prefix[pos]
        elif self.model is not None and z3.is_true(
                self.model.eval(c, model_completion=True)):
            val = ('possible', True)
        else:
            r = self._check(c)
            val = ('possible', r != z3.unsat)
        self._record(val)
        # neutral event, so that event numbering stays aligned on replays
        if self.event < self.n_events_valid:
            self.event += 1
        else:
            self.solver.push()
            self.event += 1
            self.n_events_valid = self.event
        return val[1]

    def fresh(self, prefix):
        self.fresh_n += 1
        return '%s!%d' % (prefix, self.fresh_n)

    def degrade(self, what):
        self.degraded[what] = self.degraded.get(what, 0) + 1


def _z3_const(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return fractions.Fraction(v.numerator_as_long(),
                                  v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return fractions.Fraction(a.numerator_as_long(),
                                  a.denominator_as_long())
    if z3.is_fp_value(v):
        return fp_to_float(v)
    return None


def fp_to_float(v):
    if v.isNaN():
        return float('nan')
    if v.isInf():
        return float('-inf') if v.isNegative() else float('inf')
    if v.isZero():
        return -0.0 if v.isNegative() else 0.0
    s = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    import struct
    return struct.unpack('<d', struct.pack('<Q', s))[0]


def _z3_lit(e, v):
    if z3.is_bool(e):
        return z3.BoolVal(bool(v))
    if z3.is_int(e):
        return z3.IntVal(v)
    if z3.is_real(e):
        return z3.RealVal(v)
    if z3.is_fp(e):
        if v != v:
            return z3.fpNaN(F64)
        return z3.FPVal(v, F64)
    raise Unsupported('literal')


F64 = z3.Float64()
RNE = z3.RNE()


def fpval(x):
    """z3 FP literal with sign of zero preserved."""
    x = _bi.float(x)
    if x != x:
        return z3.fpNaN(F64)
    if math.isinf(x):
        return z3.fpPlusInfinity(F64) if x > 0 else z3.fpMinusInfinity(F64)
    if x == 0:
        return z3.fpMinusZero(F64) if math.copysign(1, x) < 0 \
            else z3.fpPlusZero(F64)
    return z3.FPVal(x, F64)


def as_bool(c):
    if isinstance(c, (bool, _np.bool_)):
        return bool(c)
    if isinstance(c, SNum):
        return c.truth()
    if z3.is_expr(c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return c
    return bool(c)


# ---------------------------------------------------------------------------
# symbolic scalars
# ---------------------------------------------------------------------------
# kind: 'i' (z3 Int), 'f' (z3 Real), 'd' (z3 Float64), 'b' (z3 Bool)
# dt: numpy dtype of the scalar, or None for a Python number / array element

class SNum(object):
    __slots__ = ('k', 'e', 'dt', 'lo', 'hi', 'label', 'name')
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, k, e, dt=None, lo=None, hi=None, label=False,
                 name=None):
        self.k = k
        self.e = e
        self.dt = dt
        self.lo = lo
        self.hi = hi
        self.label = label
        self.name = name

    # -- conversions that force a decision
    def truth(self):
        if self.k == 'b':
            return self.e
        if self.k == 'd':
            return z3.Not(z3.fpIsZero(self.e))
        return self.e != 0

    def __bool__(self):
        return ENGINE.branch(self.truth())

    def __index__(self):
        if self.k in 'ib':
            v = ENGINE.concretise(self.e)
            return _bi.int(v)
        raise TypeError("'numpy.float64' object cannot be interpreted as an "
                        "integer")

    def __int__(self):
        if self.k in 'ib':
            return self.__index__()
        v = raw_trunc(self)
        return v.__index__() if isinstance(v, SNum) else _bi.int(v)

    __trunc__ = __int__

    def __float__(self):
        ENGINE.degrade('float() of a symbolic value')
        return _bi.float(ENGINE.concretise(self.e))

    def __complex__(self):
        return complex(self.__float__())

    def __hash__(self):
        if self.label:
            return 0x5eed
        v = ENGINE.concretise(self.e)
        return hash(v)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __str__(self):
        if ENGINE is not None and ENGINE.tokens is not None:
            t = '\u27e6%d\u27e7' % len(ENGINE.tokens)
            ENGINE.tokens[t] = self
            return t
        if self.k == 'i':
            return str(self.__index__())
        return str(self.__float__())

    def __repr__(self):
        return '<sym %s>' % self.k

    def __format__(self, spec):
        if ENGINE is not None and ENGINE.tokens is not None:
            if spec:
                return format(self.__index__() if self.k == 'i' else
                              self.__float__(), spec)
            return str(self)
        return '<sym>'

    # numpy-scalar-like surface
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        if self.dt is None:
            raise AttributeError('dtype')
        return self.dt

    def item(self):
        return SNum(self.k, self.e, None, self.lo, self.hi)

    def astype(self, t, **kw):
        from . import arr
        return arr.convert_scalar(self, t)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('sum', 'min', 'max', 'mean', 'any', 'all', 'copy',
                    'squeeze', 'ravel', 'reshape', 'round', 'tolist', 'T',
                    'flatten', 'is_integer', 'real', 'conjugate', 'nonzero'):
            if self.dt is None and name not in ('real', 'is_integer'):
                raise AttributeError(name)
            if name in ('T', 'real'):
                return self
            if name in ('copy', 'squeeze', 'conjugate', 'sum', 'min', 'max',
                        'mean', 'tolist'):
                return lambda *a, **k: self
            from . import arr
            return getattr(arr.asarr(self), name)
        raise AttributeError(name)


def const(x):
    """The concrete value of a raw element, or None if it is symbolic."""
    return None if isinstance(x, SNum) else x


def is_sym(x):
    return isinstance(x, SNum)


def _kind(x):
    if isinstance(x, SNum):
        return x.k
    if isinstance(x, (bool, _np.bool_)):
        return 'b'
    if isinstance(x, (_bi.int, _np.integer)):
        return 'i'
    if isinstance(x, (_bi.float, _np.floating, fractions.Fraction)):
        return 'f'
    return '?'


def _bounds(x):
    if isinstance(x, SNum):
        if x.k == 'b':
            return 0, 1
        return x.lo, x.hi
    v = _bi.int(x)
    return v, v


def zint(x):
    if isinstance(x, SNum):
        if x.k == 'i':
            return x.e
        if x.k == 'b':
            return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('zint of %s' % x.k)
    return z3.IntVal(_bi.int(x))


def zreal(x):
    if isinstance(x, SNum):
        if x.k == 'f':
            return x.e
        if x.k in 'ib':
            return z3.ToReal(zint(x))
        raise Unsupported('zreal of %s' % x.k)
    if isinstance(x, (bool, _np.bool_, _bi.int, _np.integer)):
        return z3.RealVal(_bi.int(x))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(x)
    x = _bi.float(x)
    if math.isinf(x) or x != x:
        raise Unsupported('non finite real')
    return z3.RealVal(fractions.Fraction(x))


def zfp(x):
    if isinstance(x, SNum):
        if x.k == 'd':
            return x.e
        if x.k in 'ib':
            return z3.fpRealToFP(RNE, z3.ToReal(zint(x)), F64)
        return z3.fpRealToFP(RNE, x.e, F64)
    return fpval(_bi.float(x))


def zbool(x):
    if isinstance(x, SNum):
        t = x.truth()
        return t
    return z3.BoolVal(bool(x))


def _nonfinite(x):
    return (not isinstance(x, (SNum, fractions.Fraction))
            and isinstance(x, (_bi.float, _np.floating))
            and (math.isinf(x) or x != x))


def mk_int(e, lo=None, hi=None):
    if isinstance(e, _bi.int):
        return e
    if lo is not None and lo == hi:
        return lo
    e2 = e
    if z3.is_int_value(e2):
        return e2.as_long()
    return SNum('i', e2, None, lo, hi)


def mk_real(e):
    e = z3.simplify(e) if e.num_args() <= 2 else e
    if z3.is_rational_value(e):
        f = fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
        if f.denominator & (f.denominator - 1) == 0:
            return _bi.float(f)
        return f
    return SNum('f', e)


def mk_bool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SNum('b', e)


def mk_fp(e):
    return SNum('d', e)


def _add(a, b):
    return None if a is None or b is None else a + b


def _join(x, y):
    kx, ky = _kind(x), _kind(y)
    if '?' in (kx, ky):
        return '?'
    if 'd' in (kx, ky):
        return 'd'
    if 'f' in (kx, ky):
        return 'f'
    return 'i'


def raw_add(x, y):
    if not (is_sym(x) or is_sym(y)):
        return x + y
    j = _join(x, y)
    if j == 'i':
        (a, b), (c, d) = _bounds(x), _bounds(y)
        return mk_int(zint(x) + zint(y), _add(a, c), _add(b, d))
    if j == 'd':
        return mk_fp(z3.fpAdd(RNE, zfp(x), zfp(y)))
    if _nonfinite(x):
        return x
    if _nonfinite(y):
        return y
    return mk_real(zreal(x) + zreal(y))


def raw_neg(x):
    if not is_sym(x):
        return -x
    if x.k in 'ib':
        a, b = _bounds(x)
        return mk_int(-zint(x), None if b is None else -b,
                      None if a is None else -a)
    if x.k == 'd':
        return mk_fp(z3.fpNeg(x.e))
    return mk_real(-x.e)


def raw_sub(x, y):
    if not (is_sym(x) or is_sym(y)):
        return x - y
    j = _join(x, y)
    if j == 'i':
        (a, b), (c, d) = _bounds(x), _bounds(y)
        lo = None if a is None or d is None else a - d
        hi = None if b is None or c is None else b - c
        return mk_int(zint(x) - zint(y), lo, hi)
    if j == 'd':
        return mk_fp(z3.fpSub(RNE, zfp(x), zfp(y)))
    if _nonfinite(x):
        return x
    if _nonfinite(y):
        return -y
    return mk_real(zreal(x) - zreal(y))


def raw_mul(x, y):
    if not (is_sym(x) or is_sym(y)):
        return x * y
    j = _join(x, y)
    if j == 'i':
        (a, b), (c, d) = _bounds(x), _bounds(y)
        if None in (a, b, c, d):
            lo = hi = None
            if a is not None and c is not None and a >= 0 and c >= 0:
                lo = a * c
        else:
            ps = (a * c, a * d, b * c, b * d)
            lo, hi = min(ps), max(ps)
        return mk_int(zint(x) * zint(y), lo, hi)
    if j == 'd':
        return mk_fp(z3.fpMul(RNE, zfp(x), zfp(y)))
    if _nonfinite(x) or _nonfinite(y):
        raise Unsupported('inf * symbolic')
    if is_sym(x) and is_sym(y) and ENGINE.lazy is not None:
        q = z3.Real('prod!%d' % len(ENGINE.lazy))
        ENGINE.lazy.append(q == zreal(x) * zreal(y))
        return mk_real(q)
    return mk_real(zreal(x) * zreal(y))


def _pyfloordiv(n, d):
    """floor division of z3 Ints (d != 0)."""
    # z3: n = d*(n div d) + (n mod d), 0 <= mod < |d|
    if z3.is_int_value(d):
        if d.as_long() > 0:
            return n / d
        return (-n) / (-d)
    q = n / d
    r = n % d
    return z3.If(d > 0, q, z3.If(r == 0, q, q - 1))


def _pymod(n, d):
    if z3.is_int_value(d) and d.as_long() > 0:
        return n % d
    r = n % d
    return z3.If(d > 0, r, z3.If(r == 0, r, r + d))


def raw_floordiv(x, y, npzero=False):
    if not (is_sym(x) or is_sym(y)):
        return x // y
    j = _join(x, y)
    if j == 'i':
        if ENGINE.branch(zint(y) == 0):
            if npzero:
                return 0
            raise ZeroDivisionError('integer division or modulo by zero')
        (a, b), (c, d) = _bounds(x), _bounds(y)
        lo = hi = None
        if None not in (a, c) and a >= 0 and c >= 0:
            lo = 0
            hi = None if b is None else b // max(c, 1)
        return mk_int(_pyfloordiv(zint(x), zint(y)), lo, hi)
    if j == 'd':
        raise Unsupported('fp floor division')
    q = raw_truediv(x, y)
    return raw_floor(q)


def raw_mod(x, y, npzero=False):
    if not (is_sym(x) or is_sym(y)):
        return x % y
    j = _join(x, y)
    if j == 'i':
        if ENGINE.branch(zint(y) == 0):
            if npzero:
                return 0
            raise ZeroDivisionError('integer division or modulo by zero')
        (a, b), (c, d) = _bounds(x), _bounds(y)
        lo = hi = None
        if c is not None and c >= 0:
            lo = 0
            hi = None if d is None else d - 1
            if a is not None and a >= 0 and b is not None:
                hi = b if hi is None else min(hi, b)
                if c is not None and c > b:
                    return x
        return mk_int(_pymod(zint(x), zint(y)), lo, hi)
    if j == 'd':
        raise Unsupported('fp mod')
    return raw_sub(x, raw_mul(y, raw_floordiv(x, y)))


def raw_truediv(x, y, np_=False):
    if not (is_sym(x) or is_sym(y)):
        return x / y
    j = _join(x, y)
    if j == 'd':
        return mk_fp(z3.fpDiv(RNE, zfp(x), zfp(y)))
    if _nonfinite(y):
        return 0.0
    if _nonfinite(x):
        raise Unsupported('inf / symbolic')
    if is_sym(y):
        zero = ENGINE.branch(zreal(y) == 0)
    else:
        zero = y == 0
    if zero:
        if not np_:
            raise ZeroDivisionError('division by zero')
        if ENGINE.branch(zreal(x) == 0):
            return _bi.float('nan')
        return _bi.float('inf') if ENGINE.branch(zreal(x) > 0) \
            else _bi.float('-inf')
    if is_sym(y) and ENGINE.lazy is not None:
        q = z3.Real('quot!%d' % len(ENGINE.lazy))
        ENGINE.lazy.append(q * zreal(y) == zreal(x))
        return mk_real(q)
    return mk_real(zreal(x) / zreal(y))


def raw_floor(x):
    if not is_sym(x):
        return _bi.float(math.floor(x)) if not _nonfinite(x) else x
    if x.k in 'ib':
        return x
    if x.k == 'd':
        return mk_fp(z3.fpRoundToIntegral(z3.RTN(), x.e))
    return mk_real(z3.ToReal(z3.ToInt(x.e)))


def raw_ceil(x):
    if not is_sym(x):
        return _bi.float(math.ceil(x)) if not _nonfinite(x) else x
    if x.k in 'ib':
        return x
    if x.k == 'd':
        return mk_fp(z3.fpRoundToIntegral(z3.RTP(), x.e))
    return mk_real(z3.ToReal(-z3.ToInt(-x.e)))


def raw_rint(x):
    if not is_sym(x):
        return _np.rint(x)
    if x.k in 'ib':
        return x
    if x.k == 'd':
        return mk_fp(z3.fpRoundToIntegral(RNE, x.e))
    f = z3.ToInt(x.e)
    d = x.e - z3.ToReal(f)
    up = z3.Or(d > z3.Q(1, 2), z3.And(d == z3.Q(1, 2), f % 2 == 1))
    return mk_real(z3.ToReal(z3.If(up, f + 1, f)))


NARROW = {4: (z3.Float32, 23), 2: (z3.Float16, 10)}


def raw_narrow(x, dt):
    """symbolic value in single or half precision.  Doubles are exact; reals
    are rounded in [1, 2) and left as they are elsewhere"""
    sort, bits = NARROW[dt.itemsize]
    if x.k == 'd':
        return mk_fp(z3.fpFPToFP(RNE, z3.fpFPToFP(RNE, x.e, sort()), F64))
    e = zreal(x)
    done = ENGINE.__dict__.setdefault('narrowed', {})
    if (e.get_id(), bits) in done:
        return strip(x)
    r = raw_rint(mk_real(e * 2 ** bits))
    r = z3.simplify(z3.If(z3.And(e >= 1, e < 2), zreal(r) / 2 ** bits, e))
    done[r.get_id(), bits] = r
    return SNum('f', r)


def raw_trunc(x):
    """float -> int, towards zero"""
    if not is_sym(x):
        return _bi.int(x)
    if x.k == 'i':
        return x
    if x.k == 'b':
        return mk_int(zint(x), 0, 1)
    if x.k == 'd':
        raise Unsupported('fp to int')
    e = x.e
    if ENGINE.lazy is not None:
        # small sizes one by one
        if ENGINE.branch(z3.And(e >= 0, e < ENGINE.lazy_cap)):
            i = e.arg(0) if e.decl().kind() == z3.Z3_OP_TO_REAL \
                else z3.ToInt(e)
            return ENGINE.concretise(i)
        return -1 if ENGINE.branch(e < 0) else 2 ** 40
    # ToInt(ToReal(i)) is i
    if e.decl().kind() == z3.Z3_OP_TO_REAL:
        return mk_int(e.arg(0))
    return mk_int(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def raw_abs(x):
    if not is_sym(x):
        return abs(x)
    if x.k == 'd':
        return mk_fp(z3.fpAbs(x.e))
    if x.k in 'ib':
        a, b = _bounds(x)
        if a is not None and a >= 0:
            return x
        e = zint(x)
        hi = None if None in (a, b) else max(abs(a), abs(b))
        return mk_int(z3.If(e >= 0, e, -e), 0, hi)
    return mk_real(z3.If(x.e >= 0, x.e, -x.e))


_UF = {}


def uf(name):
    if name not in _UF:
        _UF[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
    return _UF[name]


def raw_sqrt(x):
    if not is_sym(x):
        if isinstance(x, fractions.Fraction):
            x = _bi.float(x)
        return _bi.float(_np.sqrt(x))
    if x.k == 'd':
        return mk_fp(z3.fpSqrt(RNE, x.e))
    r = zreal(x)
    if ENGINE.branch(r < 0):
        return _bi.float('nan')
    s = uf('sqrt')(r)
    ENGINE.assume(z3.And(s >= 0, s * s == r))
    return mk_real(s)


def raw_uf(name, conc):
    def f(x):
        if not is_sym(x):
            if isinstance(x, fractions.Fraction):
                x = _bi.float(x)
            return conc(x)
        if x.k == 'd':
            raise Unsupported('%s of an fp value' % name)
        return mk_real(uf(name)(zreal(x)))
    return f


def raw_arccos(x):
    r = raw_uf('arccos', lambda v: _bi.float(_np.arccos(v)))(x)
    if is_sym(r):
        ENGINE.assume(z3.And(r.e >= 0, r.e <= zreal(_bi.float(_np.pi))))
    return r


def raw_pow(x, y):
    if not (is_sym(x) or is_sym(y)):
        return x ** y
    if is_sym(y):
        if is_sym(x) and x.k not in 'ib':
            raise Unsupported('symbolic exponent')
        y = y.__index__()
        return raw_pow(x, y)
    if isinstance(y, (_bi.float, _np.floating)):
        if y == 0.5:
            return raw_sqrt(x)
        if y != _bi.int(y):
            raise Unsupported('real exponent')
        y = _bi.int(y)
        if x.k in 'ib':
            x = mk_real(zreal(x))
    y = _bi.int(y)
    if y < 0:
        return raw_truediv(1.0, raw_pow(x, -y))
    r = 1
    for _ in range(y):
        r = raw_mul(r, x)
    return r


def _cmp(op, x, y):
    j = _join(x, y)
    if j == '?':
        return NotImplemented
    if j == 'i':
        if isinstance(x, SNum) and isinstance(y, SNum) and x.e.eq(y.e):
            return op in ('le', 'ge', 'eq')
        (a, b), (c, d) = _bounds(x), _bounds(y)
        if op in ('lt', 'ge') and None not in (b, c) and b < c:
            return op == 'lt'
        if op in ('lt', 'ge') and None not in (a, d) and a >= d:
            return op == 'ge'
        if op in ('gt', 'le') and None not in (a, d) and a > d:
            return op == 'gt'
        if op in ('gt', 'le') and None not in (b, c) and b <= c:
            return op == 'le'
        if op in ('eq', 'ne'):
            if (None not in (b, c) and b < c) or \
                    (None not in (a, d) and a > d):
                return op == 'ne'
        if _kind(x) == 'b' and _kind(y) == 'b' and op in ('eq', 'ne'):
            p, q = zbool(x), zbool(y)
            return mk_bool(z3.simplify(p == q if op == 'eq' else p != q))
        p, q = zint(x), zint(y)
    elif j == 'd':
        p, q = zfp(x), zfp(y)
        return mk_bool(z3.simplify({
            'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ,
            'eq': z3.fpEQ, 'ne': z3.fpNEQ}[op](p, q)))
    else:
        for v, o in ((x, False), (y, True)):
            if _nonfinite(v):
                if v != v:
                    return op == 'ne'
                big = v > 0          # v is +inf
                # compare finite symbolic with v
                if op == 'eq':
                    return False
                if op == 'ne':
                    return True
                # o: v on the right
                less = big if o else not big      # left < right
                return less if op in ('lt', 'le') else not less
        p, q = zreal(x), zreal(y)
    if op == 'lt':
        e = p < q
    elif op == 'le':
        e = p <= q
    elif op == 'gt':
        e = p > q
    elif op == 'ge':
        e = p >= q
    elif op == 'eq':
        e = p == q
    else:
        e = p != q
    return mk_bool(z3.simplify(e))


def raw_cmp(op):
    import operator
    cop = getattr(operator, op)

    def f(x, y):
        if not (is_sym(x) or is_sym(y)):
            return cop(x, y)
        r = _cmp(op, x, y)
        if r is NotImplemented:
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            raise TypeError('unorderable: symbolic number and %r'
                            % type(y if is_sym(x) else x))
        return r
    return f


raw_lt, raw_le, raw_gt, raw_ge, raw_eq, raw_ne = [
    raw_cmp(o) for o in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')]


def raw_and(x, y):
    if not is_sym(x):
        return y_bool(y) if x else False
    if not is_sym(y):
        return y_bool(x) if y else False
    return mk_bool(z3.And(zbool(x), zbool(y)))


def raw_or(x, y):
    if not is_sym(x):
        return True if x else y_bool(y)
    if not is_sym(y):
        return True if y else y_bool(x)
    return mk_bool(z3.Or(zbool(x), zbool(y)))


def y_bool(x):
    if is_sym(x):
        return mk_bool(zbool(x))
    return bool(x)


def raw_not(x):
    if not is_sym(x):
        return not x
    return mk_bool(z3.Not(zbool(x)))


def raw_ite(c, x, y):
    """c ? x : y on raw elements"""
    c = as_bool(c)
    if c is True:
        return x
    if c is False:
        return y
    if x is y:
        return x
    kx, ky = _kind(x), _kind(y)
    if kx == ky == 'b':
        return mk_bool(z3.If(c, zbool(x), zbool(y)))
    j = _join(x, y)
    if j == '?':
        return x if ENGINE.branch(c) else y
    if j == 'i':
        (a, b), (cc, d) = _bounds(x), _bounds(y)
        lo = None if None in (a, cc) else min(a, cc)
        hi = None if None in (b, d) else max(b, d)
        return mk_int(z3.If(c, zint(x), zint(y)), lo, hi)
    if j == 'd':
        return mk_fp(z3.If(c, zfp(x), zfp(y)))
    if _nonfinite(x) or _nonfinite(y):
        return x if ENGINE.branch(c) else y
    return mk_real(z3.If(c, zreal(x), zreal(y)))


def raw_min(x, y):
    if not (is_sym(x) or is_sym(y)):
        return x if x <= y else y
    return raw_ite(raw_le(x, y), x, y)


def raw_max(x, y):
    if not (is_sym(x) or is_sym(y)):
        return x if x >= y else y
    return raw_ite(raw_ge(x, y), x, y)


def wrap_raw(x, dt):
    """Value stored when the mathematical integer x lands in an integer array
    or scalar of numpy dtype dt (modular wrap-around)."""
    if dt.kind == 'b':
        return y_bool(x)
    if dt.kind not in 'iu':
        return x
    if not is_sym(x):
        x = _bi.int(x)
        n = dt.itemsize * 8
        x &= (1 << n) - 1
        if dt.kind == 'i' and x >= 1 << (n - 1):
            x -= 1 << n
        return x
    if x.k == 'b':
        return mk_int(zint(x), 0, 1)
    n = dt.itemsize * 8
    mn, mx = (0, (1 << n) - 1) if dt.kind == 'u' else (
        -(1 << (n - 1)), (1 << (n - 1)) - 1)
    lo, hi = x.lo, x.hi
    if lo is not None and hi is not None and lo >= mn and hi <= mx:
        return SNum('i', x.e, None, lo, hi, x.label) if x.dt is not None else x
    conds = []
    if lo is None or lo < mn:
        conds.append(x.e < mn)
    if hi is None or hi > mx:
        conds.append(x.e > mx)
    if not ENGINE.possible(z3.Or(*conds) if len(conds) > 1 else conds[0]):
        return mk_int(x.e, mn if lo is None else max(lo, mn),
                      mx if hi is None else min(hi, mx))
    e = x.e % (1 << n) if mn == 0 else ((x.e - mn) % (1 << n)) + mn
    return mk_int(e, mn, mx)


# ---- operators on SNum: promotion of numpy scalars -------------------------

def _scalar_dt(x):
    """(is numpy scalar, dtype) of an operand"""
    if isinstance(x, SNum):
        return x.dt
    if isinstance(x, _np.generic):
        return x.dtype
    return None


_DEF = {'i': _np.dtype(_np.int64), 'f': _np.dtype(_np.float64),
        'd': _np.dtype(_np.float64), 'b': _np.dtype(bool)}


def strip(x):
    """raw element of a scalar"""
    if isinstance(x, SNum):
        if x.dt is None:
            return x
        return SNum(x.k, x.e, None, x.lo, x.hi, x.label)
    if isinstance(x, _np.generic):
        return x.item()
    return x


def typed(x, dt):
    """numpy scalar of raw element x"""
    if isinstance(x, SNum):
        return SNum(x.k, x.e, dt, x.lo, x.hi, x.label)
    if dt is None:
        return x
    if isinstance(x, fractions.Fraction):
        x = _bi.float(x)
    return dt.type(x)


def _ok_operand(y):
    return isinstance(y, (SNum, _bi.int, _bi.float, bool, _np.generic,
                          fractions.Fraction))


def _binop(rawf, res):
    def op(x, y):
        if not _ok_operand(y):
            return NotImplemented
        dx, dy = _scalar_dt(x), _scalar_dt(y)
        a, b = strip(x), strip(y)
        if dx is None and dy is None:
            return rawf(a, b)
        # numpy scalars: Python numbers count as int64/float64/bool
        dx = dx if dx is not None else _DEF[_kind(x)]
        dy = dy if dy is not None else _DEF[_kind(y)]
        rd = _np.result_type(dx, dy)
        if res == 'bool':
            return typed(rawf(a, b), _np.dtype(bool))
        if res == 'div':
            if rd.kind in 'iub':
                rd = _np.dtype(_np.float64)
            return typed(raw_truediv(a, b, True), rd)
        if res == 'divint':
            r = rawf(a, b, True)
        else:
            r = rawf(a, b)
        if rd.kind in 'iu':
            r = wrap_raw(r, rd)
        elif rd.kind == 'b' and res == 'arith':
            r = y_bool(r)
        return typed(r, rd)

    def rop(x, y):
        if not _ok_operand(y):
            return NotImplemented
        return op(y, x)
    return op, rop


for _n, _f, _r in (
        ('add', raw_add, 'arith'), ('sub', raw_sub, 'arith'),
        ('mul', raw_mul, 'arith'), ('floordiv', raw_floordiv, 'divint'),
        ('mod', raw_mod, 'divint'), ('truediv', raw_truediv, 'div'),
        ('pow', raw_pow, 'arith')):
    _o, _ro = _binop(_f, _r)
    setattr(SNum, '__%s__' % _n, _o)
    setattr(SNum, '__r%s__' % _n, _ro)


def _cmpop(rawf, name):
    def op(x, y):
        if not _ok_operand(y):
            if name in ('eq', 'ne') and not hasattr(y, '_sym_array'):
                if y is None or isinstance(y, (str, tuple, list, dict)):
                    return name == 'ne'
            return NotImplemented
        r = rawf(strip(x), strip(y))
        if _scalar_dt(x) is not None or _scalar_dt(y) is not None:
            return typed(r, _np.dtype(bool))
        return r
    return op


for _n, _f in (('lt', raw_lt), ('le', raw_le), ('gt', raw_gt), ('ge', raw_ge),
               ('eq', raw_eq), ('ne', raw_ne)):
    setattr(SNum, '__%s__' % _n, _cmpop(_f, _n))


def _snum_and(x, y):
    if not _ok_operand(y):
        return NotImplemented
    if _kind(x) == 'b' and _kind(y) == 'b':
        r = raw_and(strip(x), strip(y))
        return typed(r, _np.dtype(bool)) if is_sym(r) else r
    return _bi.int(x) & _bi.int(y)


def _snum_or(x, y):
    if not _ok_operand(y):
        return NotImplemented
    if _kind(x) == 'b' and _kind(y) == 'b':
        r = raw_or(strip(x), strip(y))
        return typed(r, _np.dtype(bool)) if is_sym(r) else r
    return _bi.int(x) | _bi.int(y)


def _snum_xor(x, y):
    if not _ok_operand(y):
        return NotImplemented
    if _kind(x) == 'b' and _kind(y) == 'b':
        return mk_bool(z3.Xor(zbool(x), zbool(y)))
    return _bi.int(x) ^ _bi.int(y)


SNum.__and__ = _snum_and
SNum.__rand__ = lambda x, y: _snum_and(x, y)
SNum.__or__ = _snum_or
SNum.__ror__ = lambda x, y: _snum_or(x, y)
SNum.__xor__ = _snum_xor
SNum.__rxor__ = lambda x, y: _snum_xor(x, y)


def _shift(left):
    def op(x, y):
        y = _bi.int(y)
        return x * (1 << y) if left else x // (1 << y)
    return op


SNum.__lshift__ = _shift(True)
SNum.__rshift__ = _shift(False)


def _neg(x):
    r = raw_neg(strip(x))
    return typed(wrap_raw(r, x.dt) if x.dt is not None else r, x.dt)


SNum.__neg__ = _neg
SNum.__pos__ = lambda x: x
SNum.__abs__ = lambda x: typed(raw_abs(strip(x)), x.dt)
SNum.__invert__ = lambda x: (
    typed(raw_not(strip(x)), x.dt) if x.k == 'b' else -x - 1)
SNum.__floor__ = lambda x: raw_trunc(raw_floor(strip(x)))
SNum.__ceil__ = lambda x: raw_trunc(raw_ceil(strip(x)))


def _round(x, nd=None):
    if nd not in (None, 0) and x.k != 'd':
        # (the exact result, where python gives the double next to it)
        p = 10 ** abs(nd)
        r = raw_rint(strip(x * p if nd > 0 else x / p))
        return r / p if nd > 0 else r * p
    if nd not in (None, 0):
        ENGINE.degrade('round to %r digits' % nd)
        return round(float(x), nd)
    r = raw_rint(strip(x))
    if nd is None:
        return raw_trunc(r)
    return r


SNum.__round__ = _round
SNum.__divmod__ = lambda x, y: (x // y, x % y)
SNum.__rdivmod__ = lambda x, y: (y // x, y % x)
