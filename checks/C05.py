"""Sampling keeps min(threshold, size) triplets of each group."""
from abxsym.runner import Harness
from checks.taskspec import *

LEVEL = 'model_checking'
BOUNDS = ('thresholds 1 to 4 on tasks of 4 to 8 items with up to 12 triplets '
          'per group, labels fixed except for one or two arbitrary ones, with '
          'and without by columns, filters and B/X regressors, for every '
          'random draw; groups of 257 to 300 triplets, where 2 are drawn among '
          'a dozen positions on both sides of the 8-bit limit, with up to 4 '
          'draws')
OUTSIDE = ('larger groups; rejection sampling that needs more draws; '
           'regressors on A (they do not define groups)')
STUBS = ('h5py and pandas.HDFStore are in-memory models; random draws are '
         'arbitrary values')
ASSUMPTIONS = ['uniform draws are in (0, 1)']
BUDGET = {'quick': 150, 'thorough': 2400}

N = None
ARR = {
    'one': dict(on=[0, 0, 1, 1, 1], ac=[0, 1, 0, 0, N]),
    'cube': dict(on=[0, 0, 0, 0, 1, 1], ac=[0, 0, 1, 1, 0, 0]),
    'two': dict(on=[0, 0, 1, 1, 2, 2, N], ac=[0, 1, 0, 0, 0, 0, 0]),
    'by': dict(on=[0, 0, 1, 1, 1, 1, 1], ac=[0, 1, 0, 0, 0, 1, 0],
               by=[1, 1, 1, 1, 0, 0, 1]),
    'bys': dict(on=[0, 0, 1, 1, 0, 0, 1, 1], ac=[0, 1, 0, 0, 0, 1, 0, 0],
                by=[1, 1, 1, 1, 0, 0, 0, N]),
    'flat': dict(on=[0, 1, 1, 1], d=[0, 0, 0, N]),
    'flat2': dict(on=[0, 0, 1, 1]),
    'xs': dict(on=[0, 0, 0, 0, 1, N], ac=[0, 1, 1, 2, 0, 0]),
    'regs': dict(on=[0, 0, 1, 1, 1, 1], ac=[0, 1, 0, 0, 0, 0],
                 d=[0, 0, 0, 0, N, N]),
    'regx': dict(on=[0, 0, 0, 0, 1, 1], ac=[0, 1, 1, 1, 0, 0],
                 d=[0, 0, N, N, 0, 1]),
    'regbx': dict(on=[0, 1, 1, 1, 0, 0, 0], ac=[0, 0, 0, 0, 1, 1, 1],
                  d=[0, 0, 1, N, 0, 1, 2]),
    'regxb': dict(on=[1, 0, 0, 0, 1, 1, 1], ac=[0, 0, 0, 0, 1, 1, 1],
                  d=[0, 0, 1, N, 0, 1, 2]),
    'wide': dict(on=[0, 1, 2, 0, 0, N], ac=[0, 0, 0, 1, 2, N]),
    'ac2': dict(on=[0, 0, 0, 1, 1, 1], ac=[0, 1, 1, 0, 0, 0],
                ad=[0, 1, 1, 0, 0, N]),
}


def group_check(ctx, it, r, across, by, t, regs=(), extra=None):
    for p in r.problems:
        ctx.fail(p)
    if r.problems:
        return
    C = {c: [int(ctx.value(v)) for v in it.cols[c]] for c in it.cols}
    rng = range(it.n)

    def ok(a, b, x):
        if C['on'][a] != C['on'][x] or C['on'][a] == C['on'][b] or a == x:
            return False
        for c in across:
            if C[c][a] != C[c][b] or C[c][a] == C[c][x]:
                return False
        for c in by:
            if not C[c][a] == C[c][b] == C[c][x]:
                return False
        return extra is None or extra(C, a, b, x)

    def key(a, b, x):
        k = [C['on'][a], C['on'][b]]
        # without across column the items themselves are the across values
        k += [C[c][q] for c in across for q in (a, x)] if across else [a]
        k += [C[c][a] for c in by]
        for col, w in regs:
            k.append(C[col][{'b': b, 'x': x}[w]])
        return tuple(k)
    sizes, got = {}, {}
    for a in rng:
        for b in rng:
            for x in rng:
                if ok(a, b, x):
                    sizes[key(a, b, x)] = sizes.get(key(a, b, x), 0) + 1
    seen = set()
    for q in r.triplets:
        ctx.check(q not in seen, 'triplet %s sampled twice' % (q,))
        seen.add(q)
        ctx.check(ok(*q), 'triplet %s is not in the task without threshold'
                  % (q,))
        if ok(*q):
            got[key(*q)] = got.get(key(*q), 0) + 1
    want = {k: min(t, v) for k, v in sizes.items()}
    ctx.check(got == want, 'groups have %s triplets, expected %s' % (
        sorted(got.items()), sorted(want.items())))


REGS = {'B': (['d_B'], [('d', 'b')]), 'X': (['d_X'], [('d', 'x')]),
        'BX': (['d_B', 'd_X'], [('d', 'b'), ('d', 'x')])}
FILT = {'ABX': (['[u + v + w != 1 for u, v, w in zip(d_A, d_B, d_X)]'],
                lambda C, a, b, x: C['d'][a] + C['d'][b] + C['d'][x] != 1),
        'B': (['[v == 0 for v in d_B]'], lambda C, a, b, x: C['d'][b] == 0)}


def sampling(ctx, arr, ts, regs=None, filt=None):
    cols = fixed_labels(ctx, ARR[arr])
    it = Items(ctx, len(cols['on']), cols)
    t = ts[ctx.choose('t', len(ts))]
    ctx.stub_rng()
    across = [c for c in cols if c[0] == 'a']
    by = [c for c in cols if c == 'by']
    names, keys = REGS[regs] if regs else (None, ())
    f, extra = FILT[filt] if filt else (None, None)
    r = generate(ctx, it, 'on', across or None, by or None, filters=f,
                 regressors=names, threshold=t, seed=0, want_regs=True)
    group_check(ctx, it, r, across, by, t, keys, extra)
    ctx.observe('triplets', sorted(r.triplets))


def large(ctx, na, nb, nx, t, domain, draws, on=1):
    cols = {'on': [0] * na + [1 + i % on for i in range(nb)] + [0] * nx,
            'ac': [0] * na + [0] * nb + [1] * nx}
    it = Items(ctx, na + nb + nx, cols)
    ctx.stub_rng(int_domain=domain, max_draws=draws)
    r = generate(ctx, it, 'on', ['ac'], None, threshold=t, seed=0,
                 want_regs=True)
    group_check(ctx, it, r, ['ac'], [], t)
    # which triplets depends on the order argsort gives to ties
    ctx.observe('n', len(r.triplets))


DOM = [0, 1, 37, 44, 127, 128, 255, 256, 257, 293]
HARNESSES = [
    Harness('sampling', sampling,
            quick=[dict(arr='one', ts=[1, 2, 3]), dict(arr='cube', ts=[1, 3]),
                   dict(arr='two', ts=[1, 3]), dict(arr='by', ts=[1, 2]),
                   dict(arr='bys', ts=[1]), dict(arr='flat', ts=[1, 2]),
                   dict(arr='flat2', ts=[1]), dict(arr='xs', ts=[1]),
                   dict(arr='regs', ts=[1], regs='B'),
                   dict(arr='regx', ts=[1], regs='X'),
                   dict(arr='regs', ts=[2], filt='ABX'),
                   dict(arr='flat', ts=[1], filt='B'),
                   dict(arr='regbx', ts=[1], regs='BX'),
                   dict(arr='regbx', ts=[1], regs='BX', filt='ABX'),
                   dict(arr='regxb', ts=[1], regs='BX'),
                   dict(arr='wide', ts=[1]),
                   dict(arr='ac2', ts=[1, 2])],
            thorough=[dict(arr=a, ts=[1, 2, 3, 4]) for a in sorted(ARR)] +
            [dict(arr='regs', ts=[1, 2], regs='B'),
             dict(arr='regx', ts=[1, 2], regs='X'),
             dict(arr='regs', ts=[1, 2, 3], filt='ABX'),
             dict(arr='regbx', ts=[1, 2], regs='BX'),
             dict(arr='regbx', ts=[1, 2], regs='BX', filt='ABX'),
             dict(arr='flat', ts=[1, 2], filt='B')]),
    Harness('large', large,
            quick=[dict(na=7, nb=7, nx=6, t=2, domain=DOM, draws=3),
                   # two groups, the second beyond position 255 in part
                   dict(na=5, nb=12, nx=5, t=2, domain=[0, 105, 106, 149],
                        draws=5, on=2)],
            thorough=[dict(na=7, nb=7, nx=6, t=3, domain=DOM, draws=4),
                      dict(na=5, nb=18, nx=5, t=1, domain=[0, 4, 5, 104, 105,
                                                           106, 149],
                           draws=5, on=3),
                      dict(na=1, nb=300, nx=1, t=2, domain=DOM, draws=4)]),
]
