"""Samples without replacement are uniform."""
from fractions import Fraction
from math import comb

from abxsym.runner import Harness

LEVEL = 'model_checking'
BOUNDS = ('the exact probability of every sample of every size in populations '
          'of up to 4 (5 in the thorough tier); the symmetry between all '
          'items of any population of 101 to 10**15 for samples of up to 3 '
          '(4), with up to two (three) collisions')
OUTSIDE = ('larger populations where most items are sampled; the size of the '
           'pieces of incremental samples, that depends on logarithms the '
           'solver cannot evaluate')
STUBS = ('random draws are arbitrary values, and what the solver knows of '
         'their law is that they are independent and uniform')
ASSUMPTIONS = ['uniform draws are in (0, 1)']
BUDGET = {'quick': 150, 'thorough': 1200}


def exact(ctx, max_n, min_n=1):
    """the probability of each sample"""
    m = ctx.load('ABXpy.sampling.sampler')
    N = min_n + ctx.choose('N', max_n - min_n + 1)
    n = ctx.choose('n', N + 1)
    ctx.stub_rng(max_draws=3 * N)

    def f():
        s = m.sample_without_replacement(n, N)
        return tuple(sorted(int(s[i]) for i in range(s.shape[0])))
    p = ctx.outcomes(f)
    for s in sorted(p):
        ctx.check(abs(p[s] - Fraction(1, comb(N, n))) < Fraction(1, 10 ** 9),
                  '%s is sampled from %d with probability %s instead of 1/%d'
                  % (list(s), N, p[s], comb(N, n)))
    ctx.check(len(p) == comb(N, n), '%d samples out of %d are possible' % (
        len(p), comb(N, n)))


def relabel(ctx, max_n, collisions):
    """exchanging two items in the draws exchanges them in the sample"""
    m = ctx.load('ABXpy.sampling.sampler')
    N = ctx.int('N', 101, 10 ** 15)
    n = 1 + ctx.choose('n', max_n)
    ctx.stub_rng(max_draws=2 * n + collisions)
    a, b = ctx.int('a', 0), ctx.int('b', 0)
    ctx.assume(ctx.And(a < b, b < N))

    def swap(v):
        return ctx.If(v == a, b, ctx.If(v == b, a, v))
    s = m.sample_without_replacement(n, N)
    d = ctx.drawn()
    ctx.feed([swap(v) for v in d])
    t = m.sample_without_replacement(n, N)
    # an item could not have been drawn at all
    ctx.check(ctx.Not(ctx.misfits()), 'the draws do not cover the population')
    ctx.check(len(ctx.drawn()) == len(d), '%d draws, %d once two items are '
              'exchanged' % (len(d), len(ctx.drawn())))
    ctx.check(s.shape[0] == t.shape[0], 'sample of %d, %d once two items are '
              'exchanged' % (s.shape[0], t.shape[0]))
    s = [s[i] for i in range(s.shape[0])]
    t = [t[i] for i in range(t.shape[0])]
    ctx.check(ctx.And([ctx.Or([v == swap(u) for v in t]) for u in s]),
              'the sample does not depend on the items alone')
    ctx.observe('sample', s)


HARNESSES = [
    Harness('exact', exact, quick=[dict(max_n=4)],
            thorough=[dict(max_n=5)]),
    Harness('relabel', relabel, quick=[dict(max_n=3, collisions=2)],
            thorough=[dict(max_n=4, collisions=3)]),
]
