"""From the items and the features to the table of results: the result of the
whole chain is the one the definition of the ABX score gives."""
import os

from abxsym.runner import Harness
from checks.taskspec import Items, fixed_labels, valid
from checks import distspec

LEVEL = 'model_checking'
BOUNDS = ('5 or 6 items (7 in the thorough tier) of which 1 to 6 labels are '
          'arbitrary, with or without across and by '
          'columns, with two across columns, with filters; by labels with '
          'slashes, points and numbers; one arbitrary '
          'frame inside each item and others outside, an item without any '
          'frame; 1 or 2 jobs; small buffers')
OUTSIDE = ('more items; sampling (C05); other frame distances (C12, C13)')
STUBS = ('h5py, h5features and pandas.HDFStore are in-memory models; '
         'processes are threads of which one runs at a time; the distance of '
         'two items is x - 2 y for frames x and y')
ASSUMPTIONS = []
BUDGET = {'quick': 150, 'thorough': 1800}


def metric(x, y, normalized=None):
    if x.shape[0] == 0 or y.shape[0] == 0:
        return 0. if x.shape[0] == y.shape[0] else float('inf')
    return x[0, 0] - 2 * y[0, 0]


FILTERS = {
    'A': (['[v != 0 for v in d_A]'], lambda d, a, b, x: d[a] != 0),
    'E': (['[v == 0 for v in d]'],
          lambda d, a, b, x: d[a] + d[b] + d[x] == 0),
    'X': (['[v == 1 for v in d_X]'], lambda d, a, b, x: d[x] == 1),
}


def features(ctx, n, empty):
    """each item has a file; one frame inside the item, others around it"""
    data, val = {}, []
    for i in range(n):
        v = ctx.real('v%d' % i, -9, 9)
        t = 0.25 * i
        times = [t - 0.1, t + 0.0625, t + 0.1875]
        rows = [[50. + i], [v], [-50. - i]]
        if i == empty:
            del times[1], rows[1]
            v = None
        data['f%d' % i] = (times, rows)
        val.append(v)
    return data, val


def score_of(ctx, val, a, b, x):
    INF = float('inf')

    def d(i, j):
        if val[i] is None or val[j] is None:
            return 0. if val[i] is val[j] else INF
        return val[i] - 2 * val[j]
    p, q = d(a, x), d(b, x)
    if INF in (p if isinstance(p, float) else 0, q if isinstance(q, float)
               else 0):
        fp, fq = (isinstance(v, float) and v == INF for v in (p, q))
        return int(fq) - int(fp)
    return ctx.If(p < q, 1, ctx.If(p > q, -1, 0))


def chain(ctx, on, ac=(), by=None, d=None, filters=None, cpus=1, empty=None,
          buf=None, names=None, steps=None):
    n = len(on)
    cols = {'on': on}
    for i, c in enumerate(ac):
        cols['ac%d' % i] = c
    if by:
        cols['by'] = by
    if d:
        cols['d'] = d
    it = Items(ctx, n, fixed_labels(ctx, cols))
    if names:
        # the by values name groups of the files
        t = names[ctx.choose('names', len(names))]
        it.cols['by'] = [t[v] for v in by]
    across = ['ac%d' % i for i in range(len(ac))]
    bys = ['by'] if by else []
    given, keep = FILTERS[filters] if filters else ([], None)

    data, val = features(ctx, n, empty)
    item = it.write()
    feat = distspec.features_file(ctx, data)
    os.mkdir(ctx.path('tmp'))
    abx, dis, sco, out = [ctx.path('out.' + e) for e in
                          ('abx', 'distance', 'score', 'csv')]
    ctx.fake_processes()
    ctx.mp.atomic = True
    if steps:
        steps(ctx, item, feat, (abx, dis, sco, out), across, bys, given)
        if os.path.exists(abx):
            judge(ctx, ctx.table(out), *wanted(ctx, it, val, across, by, keep))
        else:
            ctx.check(ctx.Not(ctx.Or([w[0] for w in wanted(
                ctx, it, val, across, by, keep)[1]])),
                'no result although there are valid triplets')
        return
    task = ctx.load('ABXpy.task')
    dist = ctx.load('ABXpy.distances.distances')
    score = ctx.load('ABXpy.score')
    analyze = ctx.load('ABXpy.analyze')

    def go():
        task.Task(item, 'on', across or None, bys or None,
                  given).generate_triplets(output=abx, tmpdir=ctx.path('tmp'))
        if not os.path.exists(abx):
            return
        dist.compute_distances(feat, 'features', abx, dis, metric, None,
                               n_cpu=cpus)
        score.score(abx, dis, sco)
        ctx.symbolic_text()
        analyze.analyze(abx, sco, out)
    if buf:
        with ctx.small_buffers(buf, ('ABXpy.h5tools.h52np',)):
            with ctx.small_buffers(max(buf, .016), ('ABXpy.h5tools.np2h5',)):
                go()
    else:
        go()

    names, want = wanted(ctx, it, val, across, by, keep)
    if not os.path.exists(abx):
        ctx.check(ctx.Not(ctx.Or([w[0] for w in want])),
                  'no result although there are valid triplets')
        return
    judge(ctx, ctx.table(out), names, want)


def wanted(ctx, it, val, across, by, keep):
    """the definition: columns and (condition, labels, by, score) of the
    triplets"""
    want = []
    C, n = it.cols, it.n
    bys = ['by'] if by else []
    for a in range(n):
        for b in range(n):
            for x in range(n):
                v = valid(ctx, it, 'on', across, bys, a, b, x)
                if v is False or b in (a, x):
                    continue
                if keep:
                    v = ctx.And(v, keep(C['d'], a, b, x))
                labels = [C['on'][a], C['on'][b]]
                for c in across:
                    labels += [C[c][a], C[c][x]]
                want.append((v, labels, str(C['by'][a]) if by else '0',
                             score_of(ctx, val, a, b, x)))
    names = ['on_1', 'on_2']
    for c in across:
        names += [c + '_1', c + '_2']
    return names, want


def judge(ctx, table, names, want):
    ctx.check(len(table) > 0 and sorted(table[0][:-3]) == sorted(names) and
              table[0][-3:] == ['by', 'score', 'n'],
              'the header is %s' % (table[:1],))
    k = len(names)
    perm = [names.index(m) for m in table[0][:k]]
    rows = table[1:-1]
    if not all(len(r) == k + 3 for r in rows):
        ctx.fail('rows of the wrong length')
        return

    def same(r, labels, by):
        if str(r[k]) != by:
            return False
        return ctx.And([u == labels[p] for u, p in zip(r, perm)])
    twice = [same(r, [q[perm.index(i)] for i in range(k)], str(q[k]))
             for i, r in enumerate(rows) for q in rows[:i]]
    ctx.check(ctx.Not(ctx.Or(twice)), 'two rows for the same labels')
    total = sum(int(ctx.value(r[k + 2])) for r in rows)
    ctx.check(total == ctx.Sum([ctx.b2i(w[0]) for w in want]),
              'the counts do not add up to the number of triplets')
    cs, ms = [], []
    for r in rows:
        here = [(ctx.b2i(ctx.And(v, same(r, labels, by))), s)
                for v, labels, by, s in want]
        n = int(ctx.value(r[k + 2]))
        cs.append(n == ctx.Sum([b for b, s in here]))
        cs.append(n > 0)
        t = ctx.Sum([ctx.If(b == 1, s, 0) for b, s in here])
        e = r[k + 1] * n * 2 - (t + n)
        ms.append(ctx.And(e <= 1e-9, e >= -1e-9))
    ctx.check(ctx.And(cs), 'a row has a wrong number of triplets')
    ctx.check(ctx.And(ms), 'a row has a wrong score')
    ctx.observe('table', [list(r) for r in rows])


N = None
# labels that are not plain names of groups, or not in the same order
NAMES = [('a/b', 'a'), ('a', 'a/b'), ('/a', 'a'), ('a/b', 'a/c'), ('.', 'a'),
         ('a%2Fb', 'a/b'), ('b', 'a')]
NUMBERS = [(10, 9), (9, 10), (-1, 1), (100, 20)]
HARNESSES = [
    Harness('chain', chain, quick=[
        dict(on=[0, 1, N, N, N], cpus=2),
        dict(on=[0, 1, 0, N, N], ac=[[0, 0, 1, 1, N]]),
        dict(on=[0, 1, 0, 1, N, 1], ac=[[0, 0, 1, 1, N, N]], cpus=2, empty=2,
             buf=.008),
        dict(on=[0, 1, 0, 0, 1, N], by=[0, 0, 0, 1, 1, N], cpus=2),
        # the second by value has more items than the first
        dict(on=[0, 1, 0, 0, 1, 0, 1, N], by=[0, 0, 0, 1, 1, 1, 1, 1]),
        dict(on=[0, 1, 0, 1, N], ac=[[0, 0, 1, 1, 1], [0, 0, 1, N, 0]]),
        dict(on=[0, 1, 0, 0, 1], d=[N, 0, N, 1, N], filters='A'),
        dict(on=[0, 1, 0, 1, N], ac=[[0, 0, 1, 1, 1]], d=[N, 0, N, 1, N],
             filters='X', empty=0),
        dict(on=[0, 1, 0, 0, 1, 0, 1], by=[0, 0, 0, 1, 1, 1, 1],
             names=NAMES),
        dict(on=[0, 1, 0, 0, 1, 0, 1], by=[0, 0, 0, 1, 1, 1, 1],
             names=NUMBERS),
        dict(on=[9, 0, 1, 0, 9, N], d=[1, 0, 0, 0, 1, 0], filters='E',
             cpus=2)], thorough=[
        dict(on=[0, 1, N, N, N, N], cpus=2),
        dict(on=[0, 1, 0, N, N, 0], cpus=3, empty=1, buf=.016),
        dict(on=[0, 1, 0, N, N, N], ac=[[0, 0, 1, N, N, N]]),
        dict(on=[0, 1, 0, N, N, 1], ac=[[0, 0, 1, N, N, 1]],
             by=[0, 0, 0, 0, 0, N], cpus=2, empty=3),
        dict(on=[0, 1, 0, N, 1, N, 0], by=[0, 0, 0, 1, 1, N, 1], cpus=4),
        dict(on=[0, 1, 0, N, N], ac=[[0, 0, 1, N, N], [0, 0, 1, N, N]])]),
]
