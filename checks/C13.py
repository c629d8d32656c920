"""Distances between frames."""
import math

from abxsym.runner import Harness

LEVEL = 'model_checking'
BOUNDS = ('angular distance: up to 2 x 2 frames (2 x 3 in the thorough tier) '
          'of any norms, null included, along 6 given directions of the plane '
          'or 4 of space or of four dimensions; parallel frames whose cosine rounds above 1; '
          'Kullback-Leibler, Jensen-Shannon and Hellinger distances: up to '
          '2 x 2 (2 x 3) frames of two or three positive features of given '
          'sum (also null features for the thresholded Kullback-Leibler '
          'distance)')
OUTSIDE = ('other directions and dimensions; rounding, except in the parallel '
           'frames given; single precision; the distances that are not '
           'implemented; null features for distances that are not defined on '
           'them')
STUBS = ('log and arccos are uninterpreted functions (with the range of the '
         'latter), square roots are exact')
ASSUMPTIONS = []
BUDGET = {'quick': 150, 'thorough': 1800}

PLANE = [(1, 0), (-1, 0), (0, 1), (3, 4), (-4, 3), (5, -12)]
# of sum zero, or not
FOUR = [(1, 1, -1, -1), (-1, 1, -1, 1), (1, 1, 1, 1), (0, 0, 0, -1)]
SPACE = [(1, 2, 2), (2, -2, 1), (-2, 1, 2), (-1, -2, -2)]


def fn(ctx, name, v):
    from abxsym import core
    if isinstance(v, core.SNum) or (ctx.symbolic and name == 'acos'):
        if name == 'sqrt':
            return core.raw_sqrt(core.strip(v))
        z = core.zreal(core.strip(v)) if isinstance(v, core.SNum) else \
            core.zreal(v)
        return core.mk_real(core.uf('arccos' if name == 'acos' else name)(z))
    return getattr(math, name)(v)


def near(ctx, a, b):
    from abxsym import core
    if isinstance(a, core.SNum) or isinstance(b, core.SNum):
        return a == b
    a, b = float(a), float(b)
    if a != a or b != b:
        return False
    return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


def flat(a):
    return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


def run(ctx, f, x, y, expected, symmetric=True, tol=True):
    """f(x, y) is expected, x and y are left alone, f(y, x) is the same"""
    np = ctx.np
    ax = np.array(x, dtype=np.float64)
    ay = np.array(y, dtype=np.float64)
    d = f(ax, ay)
    n, m = len(x), len(y)
    ctx.check(tuple(d.shape) == (n, m), 'distances of shape %s for %d and %d '
              'frames' % (tuple(d.shape), n, m))
    for a, v in ((ax, x), (ay, y)):
        ctx.check(ctx.And([a[i, j] == v[i][j] for i in range(len(v))
                           for j in range(len(v[i]))]),
                  'the features were modified')
    if tuple(d.shape) != (n, m):
        return
    d = flat(d)
    for i in range(n):
        for j in range(m):
            ctx.check(near(ctx, d[i][j], expected(i, j)),
                      'the distance of two frames is not the expected one')
    if symmetric:
        e = flat(f(np.array(y, dtype=np.float64),
                   np.array(x, dtype=np.float64)))
        ctx.check(ctx.And([near(ctx, d[i][j], e[j][i]) for i in range(n)
                           for j in range(m)]),
                  'the distance changes when the frames are exchanged')
    ctx.observe('shape', (n, m))


def angles(ctx, shapes, dirs, normalize=False):
    """frames of any norm along given directions: their angles are known"""
    from fractions import Fraction
    m = ctx.load('ABXpy.distances.metrics.cosine')
    n, k = shapes[ctx.choose('shape', len(shapes))]
    f = []
    for i in range(n + k):
        v = dirs[ctx.choose('dir%d' % i, len(dirs))]
        a = 0.
        if normalize or not ctx.choose('null%d' % i, 2):
            a = ctx.real('norm%d' % i, 2. ** -8, 8) if \
                i in (0, n) or n + k < 4 else 2.
        f.append((v, a))
    rows = [[a * c for c in v] for v, a in f]

    def expected(i, j):
        (u, a), (v, b) = f[i], f[n + j]
        za, zb = type(a) is float and a == 0, type(b) is float and b == 0
        if za or zb:
            return 0. if za and zb else 1.
        c = Fraction(sum(p * q for p, q in zip(u, v)), math.isqrt(
            sum(p * p for p in u)) * math.isqrt(sum(p * p for p in v)))
        if type(a) is float and type(b) is float:
            return math.acos(c) / math.pi
        return fn(ctx, 'acos', c) / math.pi
    run(ctx, m.normalize_cosine_distance if normalize else m.cosine_distance,
        rows[:n], rows[n:], expected)


NEAR = [[.1, .7], [.1, 1.1], [.2, .7], [.3, .5, .7], [.1, .2, .3]]
FACTORS = [1., 3., -1., -.3]


def parallel(ctx):
    """frames whose cosine may be rounded above 1 or below -1"""
    m = ctx.load('ABXpy.distances.metrics.cosine')
    v = NEAR[ctx.choose('v', len(NEAR))]
    k = FACTORS[ctx.choose('k', len(FACTORS))]
    n = 1 + ctx.choose('n', 2)
    run(ctx, m.cosine_distance, [v] * n, [[k * c for c in v]],
        lambda i, j: 0. if k > 0 else 1.)


GIVEN = {2: [[1., 1.], [.36, .64]], 3: [[1., 2., 3.], [.25, .5, .25]]}


def simplex(ctx, name, dim, lo, given=False):
    """positive features with a given sum"""
    if given:
        p = GIVEN[dim][ctx.choose(name + 'g', 2)]
        return p, sum(p)
    s = [1, 4][ctx.choose(name + 's', 2)]
    p = [ctx.real('%s%d' % (name, i), 0, s) for i in range(dim - 1)]
    last = s
    for v in p:
        last = last - v
    p.append(last)
    if lo:
        ctx.assume(ctx.And([v > 0 for v in p]))
    else:
        ctx.assume(ctx.And([v >= 0 for v in p]))
    return p, s


def divergences(ctx, which, shapes, dim=2):
    m = ctx.load('ABXpy.distances.metrics.kullback_leibler')
    n, k = shapes[ctx.choose('shape', len(shapes))]
    f = [simplex(ctx, 'f%d_' % i, dim, which != 'kl',
                 which == 'hellinger' and i > 0) for i in range(n + k)]
    rows = [p for p, s in f]
    # the same frame on both sides
    if n == k == 1 and ctx.choose('same', 2):
        rows[1], f[1] = rows[0], f[0]
    eps = 2. ** -52
    # n / s, exactly
    P = [[v / s for v in p] for p, s in f]
    sym = True

    def log(v):
        return fn(ctx, 'log', v)

    def kl(p, q):
        return ctx.Sum([a * (log(a) - log(b)) for a, b in zip(p, q)])
    if which == 'kl':
        g = m.kl_divergence
        P = [[(v + eps) / (1 + dim * eps) for v in p] for p in P]

        def expected(i, j):
            p, q = P[i], P[n + j]
            return (kl(p, q) + kl(q, p)) * 0.5
    elif which == 'plain':
        def g(x, y):
            return m.kl_divergence(x, y, thresholded=False, symmetrized=False)
        sym = False

        def expected(i, j):
            return kl(P[i], P[n + j])
    elif which == 'js':
        g = m.js_divergence

        def expected(i, j):
            p, q = P[i], P[n + j]
            h = [(a + b) * 0.5 for a, b in zip(p, q)]
            return (kl(p, h) + kl(q, h)) * 0.5
    else:
        g = m.hellinger_distance

        def expected(i, j):
            p, q = P[i], P[n + j]
            r = ctx.Sum([(fn(ctx, 'sqrt', a) - fn(ctx, 'sqrt', b)) *
                         (fn(ctx, 'sqrt', a) - fn(ctx, 'sqrt', b))
                         for a, b in zip(p, q)])
            return fn(ctx, 'sqrt', r) * (1. / math.sqrt(2))
    run(ctx, g, rows[:n], rows[n:], expected, sym)


HARNESSES = [
    Harness('angles', angles,
            quick=[dict(shapes=[(1, 1)], dirs=PLANE),
                   dict(shapes=[(1, 2)], dirs=PLANE[1:4]),
                   dict(shapes=[(1, 1)], dirs=SPACE),
                   dict(shapes=[(1, 1)], dirs=FOUR),
                   dict(shapes=[(2, 2)], dirs=PLANE[3:5]),
                   dict(shapes=[(1, 1), (1, 2)], normalize=True,
                        dirs=[(1, 0), (0, 1), (3, 4)])],
            thorough=[dict(shapes=[(1, 1), (1, 2), (2, 1)], dirs=PLANE),
                      dict(shapes=[(1, 1), (2, 1)], dirs=SPACE),
                      dict(shapes=[(1, 1), (1, 2)], dirs=FOUR),
                      dict(shapes=[(2, 2)], dirs=PLANE[1:4]),
                      dict(shapes=[(2, 3)], dirs=PLANE[3:5]),
                      dict(shapes=[(1, 1), (1, 2), (2, 2)], normalize=True,
                           dirs=[(1, 0), (0, 1), (3, 4)])]),
    Harness('parallel', parallel, quick=[dict()]),
    Harness('divergences', divergences,
            quick=[dict(which=w, shapes=[(1, 1), (1, 2), (2, 2)])
                   for w in ('kl', 'plain', 'js', 'hellinger')],
            thorough=[dict(which=w, shapes=[(1, 1), (2, 1), (2, 2)], dim=3)
                      for w in ('kl', 'plain', 'js', 'hellinger')] +
            [dict(which=w, shapes=[(1, 1), (1, 2), (2, 2), (2, 3)])
             for w in ('kl', 'plain', 'js', 'hellinger')]),
]
