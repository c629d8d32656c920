"""The frames of an item are those inside its interval."""
from abxsym.runner import Harness
from checks.distspec import *

LEVEL = 'model_checking'
BOUNDS = ('files of 4 frames (5 in the thorough tier) at any times, items with '
          'any onset and offset, also equal, reversed or outside the file; '
          'times as reals and as double precision numbers; up to four items '
          'in two files, two by values, features of 1 to 2 columns '
          'with arbitrary values')
OUTSIDE = ('more frames; times that are not finite; frames that do not come '
           'in the order of their times')
STUBS = ('h5py, h5features and pandas.HDFStore are in-memory models; times '
         'are reals, or doubles in one harness')
ASSUMPTIONS = ['the times of a file do not decrease']
NAMES = 'd/f.0', 'd/f.1_é'         # of files
BUDGET = {'quick': 150, 'thorough': 1800}


def run(ctx, blocks, data, cols=1, as_list=False):
    """features the distance is given for each pair"""
    m = ctx.load('ABXpy.distances.distances')
    task = task_file(ctx, blocks)
    if as_list:
        fs = [features_file(ctx, {f: data[f]}, 'd%d.features' % i)
              for i, f in enumerate(sorted(data))]
    else:
        fs = features_file(ctx, data)
    seen = []

    def dist(x, y, normalized=None):
        seen.append((x.copy(), y.copy()))
        return 0.
    out = ctx.path('out.distance')
    if as_list:
        m.compute_distances(fs, ['features'] * len(fs), task, out, dist, None,
                            n_cpu=1, feature_file_as_list=True)
    else:
        m.compute_distances(fs, 'features', task, out, dist, None, n_cpu=1)
    want = [(items[p % base], items[p // base])
            for by, items, base, pairs in blocks for p in pairs]
    ctx.check(len(seen) == len(want), '%d distances for %d pairs' % (
        len(seen), len(want)))
    shapes = []
    for got, exp in zip(seen, want):
        for g, (f, on, off) in zip(got, exp):
            times, feats = data[f]
            ctx.check(len(g.shape) == 2 and g.shape[1] == cols,
                      'features of shape %s instead of %d columns' % (
                          tuple(g.shape), cols))
            if len(g.shape) != 2 or g.shape[1] != cols:
                continue
            inside = [ctx.And(t >= on, t <= off) for t in times]
            k = ctx.Sum([ctx.b2i(c) for c in inside])
            n = g.shape[0]
            ctx.check(k == n, 'an item has a wrong number of frames')
            # the i-th row is the frame j inside with i frames inside before
            ok = []
            for i in range(n):
                for j in range(len(times)):
                    before = ctx.Sum([ctx.b2i(c) for c in inside[:j]])
                    ok.append(ctx.Or(
                        ctx.Not(ctx.And(inside[j], before == i)),
                        ctx.And([g[i, c] == feats[j][c]
                                 for c in range(cols)])))
            ctx.check(ctx.And(ok), 'a frame is not the one of the features')
            shapes.append(n)
    ctx.observe('frames', shapes)


def times(ctx, name, n):
    ts = [ctx.real('%s%d' % (name, i), -4, 4) for i in range(n)]
    ctx.assume(ctx.And([ts[i] <= ts[i + 1] for i in range(n - 1)]))
    return ts


def one(ctx, n, cols=1):
    """one file and one item, everything being arbitrary"""
    ts = times(ctx, 't', n)
    fe = [[ctx.real('v%d_%d' % (i, c), -9, 9) for c in range(cols)]
          for i in range(n)]
    it = [('f0', ctx.real('on', -5, 5), ctx.real('off', -5, 5)),
          ('f0', ts[0], ts[-1])]
    run(ctx, [('a', it, 2, [2])], {'f0': (ts, fe)}, cols)


def several(ctx, n, split=False):
    """items of several files and by values"""
    data = {}
    f0, f1 = NAMES
    for k in range(2):
        data[NAMES[k]] = (times(ctx, 't%d_' % k, n),
                           [[100 * k + i, ctx.real('v%d_%d' % (k, i), -9, 9)]
                            for i in range(n)])
    t0, t1 = data[f0][0], data[f1][0]
    first = [(f0, t0[0], t0[0]), (f1, ctx.real('on', -5, 5), t1[-1])]
    second = [(f1, t1[0], t1[1]), (f0, t0[n - 1], ctx.real('off', -5, 5))]
    run(ctx, [('a', first, 2, [2]), ('b', second, 2, [1])], data, 2, split)


def doubles(ctx, n):
    """times, onset and offset are any finite double precision values"""
    ts = [ctx.fp('t%d' % i) for i in range(n)]
    ctx.assume(ctx.And([ts[i] <= ts[i + 1] for i in range(n - 1)]))
    it = [('f0', ctx.fp('on'), ctx.fp('off')), ('f0', ts[0], ts[-1])]
    run(ctx, [('a', it, 2, [2])], {'f0': (ts, [[v] for v in range(n)])})


HARNESSES = [
    Harness('one', one, quick=[dict(n=4), dict(n=2, cols=2)],
            thorough=[dict(n=5), dict(n=4, cols=3)]),
    Harness('several', several, quick=[dict(n=2), dict(n=2, split=True)],
            thorough=[dict(n=3), dict(n=3, split=True)]),
    Harness('doubles', doubles, quick=[dict(n=4)], thorough=[dict(n=5)]),
]
