"""Sampling without replacement, whatever the draws."""
from abxsym.runner import Harness

LEVEL = 'model_checking'
BOUNDS = ('samples of every size in populations of up to 6 (8 in the thorough '
          'tier); samples of up to 3 (4) in any population of 101 to 10**15, '
          'with up to two (three) collisions; incremental samples of up to 2 (3) '
          'in populations of 202 to 10**12; incremental sampling of every '
          'size in populations of up to 4 (5), cut in up to 3 pieces of every '
          'sizes or iterated with every step, with at least as many draws '
          'for each piece as its size plus two; every value of the draws')
OUTSIDE = ('larger populations for the sequential and incremental samplers; '
           'the distribution of the samples; the limit of 10**5 expected '
           'samples per chunk, replaced by 1 or 2 in some harnesses so that '
           'the code that splits large pieces is explored')
STUBS = ('random draws are arbitrary values; logarithms and log-gamma of '
         'symbolic values are uninterpreted functions; the products and '
         'quotients of draws are arbitrary reals, their definitions being '
         'used to find out whether a failure is possible; candidate sizes '
         'below zero or above the population are one value each')
ASSUMPTIONS = ['uniform draws are in (0, 1)', 'pieces are not empty',
               'at least one value is requested']
BUDGET = {'quick': 150, 'thorough': 1800}


def values(ctx, a):
    return [a[i] for i in range(a.shape[0])]


def distinct(ctx, vs, lo, hi, what):
    ctx.check(ctx.And([ctx.And(v >= lo, v < hi) for v in vs]),
              '%s: a value is out of range' % what)
    ctx.check(ctx.And([ctx.Not(vs[i] == vs[j]) for i in range(len(vs))
                       for j in range(i)]), '%s: a value is repeated' % what)


def simple(ctx, max_n):
    m = ctx.load('ABXpy.sampling.sampler')
    N = 1 + ctx.choose('N', max_n)
    n = ctx.choose('n', N + 1)
    ctx.stub_rng()
    s = m.sample_without_replacement(n, N)
    ctx.check(len(s) == n, 'sample of %d instead of %d' % (len(s), n))
    distinct(ctx, values(ctx, s), 0, N, 'sample')
    ctx.observe('sample', s)


def rejection(ctx, max_n, draws):
    m = ctx.load('ABXpy.sampling.sampler')
    N = ctx.int('N', 101, 10 ** 15)
    n = ctx.choose('n', max_n + 1)
    ctx.stub_rng(max_draws=n + draws)
    s = m.sample_without_replacement(n, N)
    ctx.check(len(s) == n, 'sample of %d instead of %d' % (len(s), n))
    distinct(ctx, values(ctx, s), 0, N, 'sample')
    ctx.observe('sample', s)


def incremental(ctx, max_n, pieces, mode, chunk=None, rejected=0, min_n=1,
                relative=None, min_k=1, max_k=None, first=None,
                extra=0):
    if chunk:
        m = ctx.load_const('ABXpy.sampling.sampler', {10 ** 5: chunk})
    else:
        m = ctx.load('ABXpy.sampling.sampler')
    N = min_n + ctx.choose('N', max_n - min_n + 1)
    K = min_k + ctx.choose('K', min(N, max_k or N) - min_k + 1)
    if relative is None:
        relative = ctx.choose('relative', 2) == 1
    ctx.stub_rng()
    ctx.lazy_products(N + 1)
    got, pos, parts = [], 0, []

    def budget(n):
        # two draws for the size and for each rejected size, one per item,
        # and extra ones for values that should not be sampled
        ctx.more_draws(2 + 2 * rejected + n + extra)
    if mode == 'iterate':
        step = 1 + ctx.choose('step', N)
        s = m.IncrementalSampler(N, K, step=step, relative_indexing=relative)
        s = iter(s)
        while len(parts) <= N:
            budget(min(step, N - pos))
            try:
                p = next(s)
            except StopIteration:
                break
            parts.append((p, min(step, N - pos)))
            pos += min(step, N - pos)
        ctx.check(len(parts) == -(-N // step), '%d pieces of %d in a '
                  'population of %d' % (len(parts), step, N))
    else:
        s = m.IncrementalSampler(N, K, relative_indexing=relative)
        for k in range(pieces):
            left = N - pos
            if left == 0:
                break
            # a piece may be larger than what is left
            n = first if k == 0 and first else \
                1 + ctx.choose('n%d' % k, left + 1) if k < pieces - 1 \
                else left
            budget(min(n, left))
            parts.append((s.sample(n), min(n, left)))
            pos += min(n, left)
    pos = 0
    for p, size in parts:
        base = pos if relative else 0
        vs = [v + base for v in values(ctx, p)]
        distinct(ctx, vs, pos, pos + size, 'piece [%d, %d)' % (pos,
                                                               pos + size))
        got += vs
        pos += size
    ctx.check(len(got) == K, '%d values sampled in total instead of %d' % (
        len(got), K))
    ctx.observe('sample', got)


def large(ctx, Ns, max_k, relative=True):
    """few values in large populations: rejection sampling of each piece"""
    m = ctx.load('ABXpy.sampling.sampler')
    N = Ns[ctx.choose('N', len(Ns))]
    K = 1 + ctx.choose('K', max_k)
    sizes = [1, N // 2, N - 1]
    n = sizes[ctx.choose('n', len(sizes))]
    ctx.stub_rng()
    ctx.lazy_products(K + 2)
    s = m.IncrementalSampler(N, K, relative_indexing=relative)
    got = []
    for pos, size in ((0, n), (n, N - n)):
        ctx.more_draws(2 + K)
        base = pos if relative else 0
        vs = [v + base for v in values(ctx, s.sample(size))]
        distinct(ctx, vs, pos, pos + size, 'piece [%d, %d)' % (pos,
                                                               pos + size))
        got += vs
    ctx.check(len(got) == K, '%d values sampled in total instead of %d' % (
        len(got), K))
    ctx.observe('sample', got)


HARNESSES = [
    Harness('large', large, quick=[dict(Ns=[202, 10 ** 6, 10 ** 12], max_k=2),
                                   dict(Ns=[10 ** 9], max_k=2,
                                        relative=False)],
            thorough=[dict(Ns=[202, 10 ** 6, 10 ** 12], max_k=3),
                      dict(Ns=[10 ** 9], max_k=3, relative=False)]),
    Harness('simple', simple, quick=[dict(max_n=6)], thorough=[dict(max_n=9)]),
    Harness('rejection', rejection, quick=[dict(max_n=3, draws=2)],
            thorough=[dict(max_n=4, draws=3)]),
    Harness('incremental', incremental,
            quick=[dict(max_n=3, pieces=2, mode='pieces'),
                   dict(max_n=3, pieces=3, mode='pieces', relative=False),
                   dict(max_n=3, pieces=0, mode='iterate', relative=True),
                   dict(max_n=4, min_n=4, pieces=2, mode='pieces',
                        relative=True),
                   dict(max_n=4, pieces=0, mode='iterate', relative=False),
                   dict(max_n=4, min_n=3, pieces=1, mode='pieces', chunk=1),
                   # the last chunk is smaller than the others
                   dict(max_n=5, min_n=5, min_k=2, max_k=3, pieces=1, mode='pieces',
                        chunk=1, relative=True),
                   # most of the population, in a first piece that is more
                   # than one item larger than the second
                   dict(max_n=5, min_n=5, min_k=4, max_k=4, first=3, pieces=2,
                        mode='pieces', relative=True, extra=1)],
            thorough=[dict(max_n=4, pieces=3, mode='pieces'),
                      dict(max_n=4, pieces=0, mode='iterate'),
                      dict(max_n=5, min_n=5, pieces=2, mode='pieces',
                           relative=True),
                      dict(max_n=3, pieces=2, mode='pieces', rejected=1),
                      dict(max_n=5, min_n=5, pieces=0, mode='iterate',
                           relative=False),
                      dict(max_n=5, min_n=4, pieces=1, mode='pieces', chunk=1),
                      dict(max_n=4, min_n=4, pieces=2, mode='pieces', chunk=1),
                      dict(max_n=5, min_n=5, pieces=1, mode='pieces',
                           chunk=2)]),
]
