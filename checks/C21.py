"""Uniform time warping."""
from abxsym.runner import Harness

LEVEL = 'model_checking'
BOUNDS = ('all pairs of lengths from 1 to 9 (1 to 24 in the thorough tier), '
          'lengths up to 200 among those where the frames line up exactly, '
          'arbitrary distances between all pairs of frames; distances '
          'computed on arbitrary features of 2 x 3 frames')
OUTSIDE = 'longer items; items without frames; rounding of the sum'
STUBS = ''
ASSUMPTIONS = []
BUDGET = {'quick': 150, 'thorough': 1800}
M = 'ABXpy.distances.metrics.utw'


def aligned(n, m):
    """[(frame of the item of n frames, frame of the other, twice the
    weight)]"""
    if n > m:
        return [(i, j, w) for j, i, w in aligned(m, n)]
    out = []
    for j in range(m):
        # middle of frame j of the longer one, in 2 m-ths of frames of the
        # other
        a = n * (2 * j + 1)
        if a % (2 * m):
            out.append((a // (2 * m), j, 2))
        else:
            out += [(a // (2 * m) - 1, j, 1), (a // (2 * m), j, 1)]
    return out


def check(ctx, m, n, k, cost):
    """cost(i, j): distance of frames i of x and j of y"""
    np = ctx.np

    def look(a, b):
        i, j = int(a), int(b)
        return cost(i, j - 1000) if i < 1000 else cost(j, i - 1000)

    def div(u, v):
        ctx.check(tuple(u.shape) == tuple(v.shape) and u.shape[1] == 1,
                  'frames of shapes %s and %s are compared' % (
                      tuple(u.shape), tuple(v.shape)))
        return np.array([look(u[r, 0], v[r, 0]) for r in range(u.shape[0])])
    x = np.array([[i] for i in range(n)])
    y = np.array([[1000 + j] for j in range(k)])
    want = ctx.Sum([cost(i, j) * w for i, j, w in aligned(n, k)])
    d = m.utw(x, y, div)
    ctx.check(near(ctx, d * 2, want), 'the distance is not the sum over '
              'aligned frames')
    e = m.utw(y, x, div)
    ctx.check(near(ctx, d, e), 'the distance changes when the items are '
              'exchanged')


def near(ctx, a, b):
    d = a - b
    return ctx.And(d <= 1e-6, d >= -1e-6)


def lengths(ctx, n, m, most):
    """every pair of lengths"""
    mod = ctx.load(M)
    lo = 1 + ctx.choose('n', n)
    hi = 1 + ctx.choose('m', m)
    v = {}
    al = aligned(lo, hi)
    for i in range(lo):
        for j in range(hi):
            v[i, j] = (ctx.real('d%d_%d' % (i, j), 0, 100)
                       if lo * hi <= most else float((7 * i + 11 * j) % 13))
    check(ctx, mod, lo, hi, lambda i, j: v[i, j])


def exact(ctx, pairs, at=4):
    """long items"""
    mod = ctx.load(M)
    n, m = pairs[ctx.choose('pair', len(pairs))]
    sym = {}
    for r in range(at):
        i, j = (r * 37 + 5) % n, (r * 53 + 11) % m
        sym[i, j] = ctx.real('d%d' % r, 0, 100)
    for r, (i, j, w) in enumerate(aligned(n, m)):
        if w == 1 and (i, j) not in sym and len(sym) < 2 * at:
            sym[i, j] = ctx.real('e%d' % r, 0, 100)
    check(ctx, mod, n, m, lambda i, j: sym[i, j] if (i, j) in sym else
          float((7 * i + 11 * j) % 13))


def itself(ctx, most):
    """an item is at distance zero of itself"""
    mod = ctx.load(M)
    np = ctx.np
    n = 1 + ctx.choose('n', most)
    x = np.array([[ctx.real('x%d_%d' % (i, j), -9, 9) for j in range(2)]
                  for i in range(n)], dtype=np.float64)
    y = x.copy()
    d = mod.utw(x, y, lambda a, b: np.sum(np.abs(a - b), axis=1))
    ctx.check(d == 0, 'an item is not at distance zero of itself')
    ctx.check(ctx.And([x[i, j] == y[i, j] for i in range(n)
                       for j in range(2)]), 'the features were modified')


def features(ctx, shapes):
    """a distance computed on the features"""
    mod = ctx.load(M)
    np = ctx.np
    n, m = shapes[ctx.choose('shape', len(shapes))]
    x, y = [[[ctx.real('%s%d_%d' % (c, i, j), -9, 9) for j in range(2)]
             for i in range(k)] for c, k in (('x', n), ('y', m))]
    d = mod.utw(np.array(x, dtype=np.float64), np.array(y, dtype=np.float64),
                lambda a, b: np.sum(a + b, axis=1))
    want = ctx.Sum([(x[i][k] + y[j][k]) * w
                    for i, j, w in aligned(n, m) for k in (0, 1)])
    ctx.check(near(ctx, d * 2, want), 'the distance is not the sum over '
              'aligned frames')


HARNESSES = [
    Harness('lengths', lengths, quick=[dict(n=9, m=9, most=81)],
            thorough=[dict(n=24, m=24, most=100)]),
    Harness('exact', exact, quick=[dict(pairs=[
        (10, 30), (49, 98), (3, 93), (29, 58), (98, 49), (36, 90), (55, 110),
        (47, 188), (60, 90), (100, 100), (13, 200),
        (2, 49), (4, 98), (6, 47), (98, 8), (2, 103), (103, 4)])],
        thorough=[dict(pairs=[(n, n * k) for n in range(3, 60, 4)
                              for k in (2, 3, 4)] + [
            (2, 49), (4, 98), (6, 47), (98, 8), (2, 103), (103, 4),
            (77, 154), (200, 98), (150, 100), (99, 198), (187, 198)])]),
    Harness('itself', itself, quick=[dict(most=6)], thorough=[dict(most=12)]),
    Harness('features', features, quick=[dict(shapes=[(2, 3), (2, 4), (1, 3),
                                                      (3, 3)])],
            thorough=[dict(shapes=[(2, 3), (2, 4), (1, 3), (3, 3), (4, 6),
                                   (5, 10)])]),
]
