"""Not a check of ABXpy: the stand-ins against the real numpy.
    ABX_REPO=/verif/selftest ./run.sh selftest
Every path is replayed on the real numpy and the results are compared."""
from abxsym.runner import Harness

BOUNDS = 'arrays of 3 values'
BUDGET = {'quick': 600, 'thorough': 600}


def ints(ctx, k):
    m = ctx.load('ABXpy.np_cases')
    i = ctx.array([ctx.int('i%d' % n, -2, 3) for n in range(3)], 'int64')
    j = ctx.array([ctx.int('j%d' % n, -2, 3) for n in range(3)], 'int64')
    r = m.lst(m.I3[k](i, j))
    ctx.check(True, '')
    ctx.observe('r', r)


def reals(ctx, k):
    m = ctx.load('ABXpy.np_cases')
    x = ctx.array([ctx.real('x%d' % n, -2, 3) for n in range(3)], 'float64')
    y = ctx.array([ctx.real('y%d' % n, -2, 3) for n in range(3)], 'float64')
    r = m.lst(m.X3[k](x, y))
    ctx.check(True, '')
    ctx.observe('r', r)


HARNESSES = [
    Harness('ints', ints, quick=[dict(k=k) for k in range(84)], samples=6),
    Harness('reals', reals, quick=[dict(k=k) for k in range(46)], samples=6)]
