"""Dynamic time warping is the cost of the best monotone alignment."""
from abxsym.runner import Harness
from checks.distspec import *

LEVEL = 'model_checking'
BOUNDS = ('every cost matrix of up to 4 x 4, 3 x 5, 2 x 6 and 1 x 5 '
          '(5 x 5, 3 x 7, 2 x 8 and 1 x 8 in '
          'the thorough tier); matrices of up to 7 x 8 (10 x 9) of given '
          'costs, four of which, at one of two places, are arbitrary; '
          'the default distance of up to '
          '2 x 3 (3 x 3) frames among null, parallel, orthogonal and opposite '
          'ones, and of empty items')
OUTSIDE = ('larger matrices; costs that are not finite; rounding: costs are '
           'reals, so a sum of costs is exact')
STUBS = ('the Cython source is executed as Python with its C types dropped, '
         'integer C variables truncating as C does; replays use the compiled '
         'module')
ASSUMPTIONS = ['costs are finite and not negative']
BUDGET = {'quick': 150, 'thorough': 1800}


def alignments(n, m):
    """lists of cells from (0, 0) to (n - 1, m - 1)"""
    if (n, m) == (1, 1):
        return [[(0, 0)]]
    out = []
    for a, b in ((n - 1, m), (n, m - 1), (n - 1, m - 1)):
        if a and b:
            out += [p + [(n - 1, m - 1)] for p in alignments(a, b)]
    return out


def ite(ctx, c, a, b):
    from abxsym import core
    c = core.as_bool(c)
    if isinstance(c, bool):
        return a if c else b
    return core.raw_ite(core.mk_bool(c), core.strip(a), core.strip(b))


def smaller(ctx, a, b):
    return b if a is None else a if b is None else ite(ctx, a <= b, a, b)


def lengths(ctx, cost):
    """{length: least cost of the alignments of this length}"""
    n, m = len(cost), len(cost[0])
    best = {}
    for i in range(n):
        for j in range(m):
            if i == j == 0:
                best[0, 0] = {1: cost[0][0]}
                continue
            cur = {}
            for p in ((i - 1, j), (i, j - 1), (i - 1, j - 1)):
                for k, v in best.get(p, {}).items():
                    cur[k + 1] = smaller(ctx, cur.get(k + 1), v)
            best[i, j] = {k: v + cost[i][j] for k, v in cur.items()}
    return best[n - 1, m - 1]


def near(ctx, a, b):
    if ctx.symbolic:
        return a == b
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def judge(ctx, d, cost, normalized):
    ls = lengths(ctx, cost)
    least = None
    for v in ls.values():
        least = smaller(ctx, least, v)
    if not normalized:
        ctx.check(near(ctx, d, least), 'the distance is not the cost of the '
                  'best alignment')
    else:
        ctx.check(ctx.Or([ctx.And(near(ctx, v, least),
                                  near(ctx, d * k, least))
                          for k, v in ls.items()]),
                  'the distance is not the cost of the best alignment divided '
                  'by the length of a best alignment')
    ctx.observe('d', d)


def dtw(ctx, cost, normalized):
    m = ctx.load('ABXpy.distances.metrics.dtw')
    n, k = len(cost), len(cost[0])
    x, y = ctx.np.zeros((n, 2)), ctx.np.zeros((k, 2))
    c = ctx.np.array(cost, dtype=ctx.np.float64)
    return m.dtw(x, y, lambda a, b: c, normalized)


def costs(ctx, shapes):
    n, m = shapes[ctx.choose('shape', len(shapes))]
    norm = ctx.choose('normalized', 2) == 1
    cost = [[ctx.real('c%d_%d' % (i, j), 0, 1000) for j in range(m)]
            for i in range(n)]
    judge(ctx, dtw(ctx, cost, norm), cost, norm)


def large(ctx, shapes, cells, hi=40):
    """given costs, except for a few, anywhere"""
    n, m = shapes[ctx.choose('shape', len(shapes))]
    norm = ctx.choose('normalized', 2) == 1
    cost = [[float((7 * i * i + 3 * j + 5 * i * j) % 11) for j in range(m)]
            for i in range(n)]
    places = [[(1, 1), (n - 2, m - 2), (n - 1, m // 2), (n // 2, 0)],
              [(0, 1), (n // 2, m // 2), (n - 1, m - 1), (1, m - 2)]]
    for k, (i, j) in enumerate(places[ctx.choose('where', 2)][:cells]):
        cost[i][j] = ctx.real('c%d' % k, 0, hi)
    judge(ctx, dtw(ctx, cost, norm), cost, norm)


FRAMES = [[1., 0.], [0., 2.], [-3., 0.], [0., 0.]]
D = [[0, .5, 1, 1], [.5, 0, .5, 1], [1, .5, 0, 1], [1, 1, 1, 0]]


def default(ctx, sizes):
    """the distance used when none is given"""
    m = ctx.load('ABXpy.distance')
    n, k = sizes[ctx.choose('size', len(sizes))]
    norm = ctx.choose('normalized', 2) == 1
    fx = [ctx.choose('x%d' % i, 4) for i in range(n)]
    fy = [ctx.choose('y%d' % i, 4) for i in range(k)]
    x = ctx.np.array([FRAMES[i] for i in fx]).reshape((n, 2))
    y = ctx.np.array([FRAMES[i] for i in fy]).reshape((k, 2))
    d = m.default_distance(x, y, norm)
    if n and k:
        cost = [[float(D[i][j]) for j in fy] for i in fx]
        ls = lengths(ctx, cost)
        least = min(ls.values())
        ok = [least / l for l, v in ls.items() if abs(v - least) < 1e-9] \
            if norm else [least]
        ctx.check(any(abs(d - v) < 1e-9 for v in ok),
                  'the distance is not the one of the best alignment')
    else:
        ctx.check(d == (0 if n == k else float('inf')),
                  'distance to an item without frames')
    ctx.observe('d', d)


def options(ctx):
    """normalisation asked for when computing the distances of a task"""
    ctx.fake_processes()
    m = ctx.load('ABXpy.distance')
    norm = ctx.choose('normalized', 2)
    jobs = 1 + ctx.choose('jobs', 2)
    fx = [ctx.choose('x%d' % i, 3) for i in range(2)]
    fy = [0, 1, 0]
    items = [('f', 0, 1), ('f', 10, 12), ('f', 5, 6)]
    feats = features_file(ctx, {'f': ([0, 1, 10, 11, 12], [
        FRAMES[i] for i in fx + fy])}, group='g')
    # the third item has no frames
    task = task_file(ctx, [('a', items, 3, [3, 5])])
    out = ctx.path('out.distance')
    m.run(feats, task, out, norm, njobs=jobs, group='g')
    rows = distances(ctx, out)[1]
    cost = [[float(D[i][j]) for j in fy] for i in fx]
    ls = lengths(ctx, cost)
    least = min(ls.values())
    ok = [least / l for l, v in ls.items() if abs(v - least) < 1e-9] \
        if norm else [least]
    ctx.check(any(abs(rows[0] - v) < 1e-9 for v in ok),
              'normalisation %d: not the distance of the best alignment' % norm)
    ctx.check(rows[1] == float('inf'), 'distance to an item without frames')
    ctx.observe('rows', rows)


HARNESSES = [
    Harness('costs', costs, needs_dtw=True,
            quick=[dict(shapes=[(1, 1), (1, 5), (5, 1), (2, 2), (2, 3),
                                (3, 2), (3, 3), (2, 6), (4, 2)]),
                   dict(shapes=[(3, 4), (4, 3)]),
                   dict(shapes=[(4, 4), (3, 5)])],
            thorough=[dict(shapes=[(1, 8), (8, 1), (2, 8), (6, 2), (4, 4),
                                   (3, 5)]),
                      dict(shapes=[(5, 4), (4, 5)]), dict(shapes=[(5, 5)]),
                      dict(shapes=[(6, 3), (3, 7)])], path_timeout=300),
    Harness('large', large, needs_dtw=True,
            quick=[dict(shapes=[(6, 4), (5, 7), (7, 8)], cells=4)],
            thorough=[dict(shapes=[(6, 4), (5, 7), (7, 8)], cells=4),
                      dict(shapes=[(10, 9)], cells=4)], path_timeout=300),
    Harness('default', default, needs_dtw=True,
            quick=[dict(sizes=[(0, 0), (0, 2), (1, 0), (1, 1), (2, 1),
                               (1, 2)]), dict(sizes=[(2, 2), (3, 2), (2, 3)])],
            thorough=[dict(sizes=[(2, 2), (3, 2), (2, 3)]),
                      dict(sizes=[(3, 3)])]),
    Harness('options', options, needs_dtw=True, quick=[dict()]),
]
