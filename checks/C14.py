"""Scores are the sign of d(B, X) - d(A, X), triplet by triplet."""
import os

from abxsym.runner import Harness
from checks.taskspec import Items, fixed_labels, generate

LEVEL = 'model_checking'
BOUNDS = ('two by values of 2 and 3 items (three in the thorough tier) with '
          'up to 3 arbitrary triplets and arbitrary distances, finite or not, '
          'read in pieces of 1 row to all; by values of 2 to 300 items, on '
          'both sides of the limits of the integer types, with triplets at '
          'their ends; tasks of 5 to 7 items (2 arbitrary labels) generated '
          'by the code itself, with arbitrary distances; score file given or '
          'not')
OUTSIDE = ('distances that are not numbers (undefined comparisons); more '
           'triplets; distance files that do not belong to the task')
STUBS = ('h5py is an in-memory model; default sizes of the I/O buffers are '
         'replaced by those of the configuration')
ASSUMPTIONS = ['pairs are sorted and distinct, as the task writes them (C03)']
BUDGET = {'quick': 150, 'thorough': 1800}
INF = float('inf')


def task_file(ctx, blocks, order, dtype, name='task.abx'):
    """blocks: [(by, base, triplets, pairs)]; order: positions of the pairs of
    the blocks in the list of pairs"""
    np, h5py = ctx.np, ctx.h5py
    p = ctx.path(name)
    with h5py.File(p, 'w') as fh:
        fh.create_dataset('bys', (len(blocks),),
                          dtype=h5py.special_dtype(vlen=str))
        fh['bys'][:] = [b[0] for b in blocks]
        g = fh.create_group('triplets')
        rows = [t for b in blocks for t in b[2]]
        g.create_dataset('data', data=np.array(rows, dtype=dtype))
        ix, pos = [], 0
        for b in blocks:
            ix.append([pos, pos + len(b[2])])
            pos += len(b[2])
        g.create_dataset('by_index', data=np.array(ix, dtype=np.int64))
        g = fh.create_group('unique_pairs')
        g.create_dataset('data', data=np.array(
            [[v] for i in order for v in blocks[i][3]], dtype=np.int64))
        pos = 0
        for i in order:
            by, base, ts, ps = blocks[i]
            g.attrs[by] = (base, pos, pos + len(ps))
            pos += len(ps)
    return p


def distance_file(ctx, dis, name='out.distance'):
    np, h5py = ctx.np, ctx.h5py
    p = ctx.path(name)
    with h5py.File(p, 'w') as fh:
        g = fh.create_group('distances')
        g.create_dataset('data', data=np.array([[v] for v in dis],
                                               dtype=np.float64))
        fh.attrs['done'] = True
    return p


def scores(ctx, task, dist, kb=None, out=None):
    m = ctx.load('ABXpy.score')
    given = out if out is not None else ctx.path('out.score')

    def go():
        if out == '':
            m.score(task, dist)
        else:
            m.score(task, dist, given)
    if kb:
        with ctx.small_buffers(kb, ('ABXpy.h5tools.h52np',)):
            go()
    else:
        go()
    return read(ctx, given or expected_name(task, dist))


def expected_name(task, dist):
    return (os.path.splitext(task)[0] + '_' +
            os.path.splitext(os.path.basename(dist))[0] + '.score')


def read(ctx, p):
    ctx.check(os.path.exists(p), 'no score file')
    with ctx.h5py.File(p, 'r') as fh:
        d = fh['scores'][...]
        ctx.check(len(d.shape) == 2 and d.shape[1] == 1,
                  'scores of shape %s' % (d.shape,))
        return [d[i, 0] for i in range(d.shape[0])]


def sign(ctx, a, b):
    """1 if a is smaller"""
    return ctx.If(a < b, 1, ctx.If(a == b, 0, -1))


def judge(ctx, got, want):
    """want: [(distance of A and X, distance of B and X)]"""
    ctx.check(len(got) == len(want), '%d scores for %d triplets' % (
        len(got), len(want)))
    ctx.check(ctx.And([g == sign(ctx, a, b) for g, (a, b) in zip(got, want)]),
              'a score is not the sign of the difference of the distances of '
              'its triplet')
    ctx.observe('scores', got)


def distances(ctx, name, n, infinite):
    return [INF if infinite and ctx.choose('%si%d' % (name, i), 2) else
            ctx.real('%s%d' % (name, i), 0, 100) for i in range(n)]


def pick(ctx, values, i):
    """values[i], i symbolic"""
    r = values[-1]
    for k in range(len(values) - 2, -1, -1):
        r = ctx.If(i == k, values[k], r)
    return r


def given(ctx, sizes, ks, orders, kbs=(None,), infinite=False):
    order = orders[ctx.choose('order', len(orders))]
    kb = kbs[ctx.choose('kb', len(kbs))]
    blocks, dis = [], []
    for b, (n, k) in enumerate(zip(sizes, ks)):
        ts = [[ctx.int('t%d_%d_%d' % (b, i, j), 0, n - 1) for j in range(3)]
              for i in range(k)]
        # by values are not in alphabetical order
        blocks.append(('by%d' % (9 - b), n, ts, list(range(n * n))))
        dis.append(distances(ctx, 'd%d_' % b, n * n, infinite))
    t = task_file(ctx, blocks, order, ctx.np.int8)
    d = distance_file(ctx, [v for i in order for v in dis[i]])
    got = scores(ctx, t, d, kb)
    judge(ctx, got, [(pick(ctx, ds, a + n * x), pick(ctx, ds, b + n * x))
                     for (by, n, ts, ps), ds in zip(blocks, dis)
                     for a, b, x in ts])


def pieces(ctx, sizes, ks, kbs):
    """many triplets read in pieces of any size"""
    kb = kbs[ctx.choose('kb', len(kbs))]
    blocks, dis, v = [], [], 1
    for b, (n, k) in enumerate(zip(sizes, ks)):
        ts = []
        for i in range(k):
            v = (v * 25 + 7) % 1009
            ts.append([v % n, v // n % n, v // n // n % n])
        blocks.append(('by%d' % b, n, ts, list(range(n * n))))
        dis.append([ctx.real('d%d_%d' % (b, i), 0, 9) if i == 1 else
                    float(i * 7 % 5) for i in range(n * n)])
    t = task_file(ctx, blocks, range(len(blocks)), ctx.np.int8)
    d = distance_file(ctx, [v for ds in dis for v in ds])
    got = scores(ctx, t, d, kb)
    judge(ctx, got, [(ds[a + n * x], ds[b + n * x])
                     for (by, n, ts, ps), ds in zip(blocks, dis)
                     for a, b, x in ts])


def limits(ctx, bases, extra=True):
    """keys at the limits of the integer types"""
    n = bases[ctx.choose('n', len(bases))]
    ends = [0, 1, n - 2, n - 1]
    ts = [[ends[ctx.choose('t%d' % j, 4)] for j in range(3)]]
    if extra:
        ts += [[0, n - 1, n - 1], [n - 1, n - 2, 0]]
    keys = sorted(set(v + n * t[2] for t in ts for v in t[:2]))
    dis = {k: ctx.real('d%d' % i, 0, 100) for i, k in enumerate(keys)}
    t = task_file(ctx, [('a', n, ts, keys)], [0],
                  ctx.np.int8 if n <= 128 else ctx.np.int16)
    d = distance_file(ctx, [dis[k] for k in keys])
    judge(ctx, scores(ctx, t, d), [(dis[a + n * x], dis[b + n * x])
                                   for a, b, x in ts])


def whole(ctx, on, ac, by):
    n = len(on)
    it = Items(ctx, n, fixed_labels(ctx, {'on': on, 'ac': ac, 'by': by}))
    r = generate(ctx, it, 'on', ['ac'], ['by'])
    for p in r.problems:
        ctx.fail(p)
    if r.problems or not r.raw_pairs:
        return
    dis, of = [], {}
    for b in r.bys:
        base, lo, hi = r.attrs[b]
        for p in r.raw_pairs[lo:hi]:
            f = r.feat[b]
            v = ctx.real('d%d' % len(dis), 0, 100)
            dis.append(v)
            of[f[p % base], f[p // base]] = v
    got = scores(ctx, r.out, distance_file(ctx, dis))
    ctx.check(all((t[i], t[2]) in of for t in r.triplets for i in (0, 1)),
              'no distance for a pair of a triplet')
    judge(ctx, got, [(of[a, x], of[b, x]) for a, b, x in r.triplets])


def names(ctx):
    """name of the score file"""
    sub = ctx.choose('folder', 2)
    how = ctx.choose('given', 3)
    if sub:
        os.mkdir(ctx.path('sub.d'))
    t = task_file(ctx, [('a', 2, [[0, 1, 1]], [2, 3])], [0], ctx.np.int8)
    v = [ctx.real('d%d' % i, 0, 9) for i in range(2)]
    d = distance_file(ctx, v, ('sub.d/' if sub else '') + 'my.dis.distance')
    out = ['', ctx.path('given.h5'), ctx.path('x.score')][how]
    judge(ctx, scores(ctx, t, d, out=out), [(v[0], v[1])])


HARNESSES = [
    Harness('given', given,
            quick=[dict(sizes=[2, 3], ks=[1, 1], orders=[[0, 1], [1, 0]]),
                   dict(sizes=[2, 2], ks=[2, 1], orders=[[0, 1]],
                        kbs=[0.003, 0.006]),
                   dict(sizes=[2], ks=[1], orders=[[0]], infinite=True)],
            thorough=[dict(sizes=[2, 3, 2], ks=[1, 1, 1],
                           orders=[[0, 1, 2], [2, 0, 1]]),
                      dict(sizes=[3, 2], ks=[2, 1], orders=[[0, 1], [1, 0]],
                           kbs=[0.003, 0.006, None]),
                      dict(sizes=[2, 2], ks=[1, 1], orders=[[0, 1]],
                           infinite=True)]),
    Harness('pieces', pieces,
            quick=[dict(sizes=[3, 2, 4], ks=[5, 3, 7],
                        kbs=[0.003, 0.006, 0.009, 0.012, 0.021, None])],
            thorough=[dict(sizes=[3, 2, 4], ks=[5, 3, 17],
                           kbs=[0.003 * i for i in range(1, 19)] + [None]),
                      dict(sizes=[5, 6], ks=[40, 60],
                           kbs=[0.003 * i for i in (1, 7, 13, 39, 40, 41)])]),
    Harness('limits', limits,
            quick=[dict(bases=[2, 11, 12, 15, 16, 17, 127, 128, 129, 180, 181,
                               182, 255, 256, 257])],
            thorough=[dict(bases=[2, 11, 12, 15, 16, 17, 127, 128, 129, 180,
                                  181, 182, 255, 256, 257, 300, 32767,
                                  ]),
                      dict(bases=[16, 256, 257], extra=False)]),
    Harness('whole', whole,
            quick=[dict(on=[0, 1, 0, 0, None], ac=[0, 0, 1, 1, None],
                        by=[0, 0, 0, 0, 0]),
                   dict(on=[0, 0, 1, 1, 0, 0, None],
                        ac=[0, 0, 0, 0, 1, 1, 1],
                        by=[0, 1, 0, 1, 0, 1, 1])],
            thorough=[dict(on=[0, 1, 0, None, None], ac=[0, 0, 1, None, None],
                           by=[0, 0, 0, 0, 0]),
                      dict(on=[0, 0, 1, 1, 0, 0, None, None],
                           ac=[0, 0, 0, 0, 1, 1, 1, None],
                           by=[0, 1, 0, 1, 0, 1, 1, 0])]),
    Harness('names', names, quick=[dict()]),
]
