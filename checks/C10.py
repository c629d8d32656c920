"""Each row of the distances is the distance of its pair, with any number of
jobs running in any order."""
import os

from abxsym.runner import Harness
from checks.distspec import *
from checks.taskspec import Items, fixed_labels, generate

LEVEL = 'model_checking'
BOUNDS = ('two by values with 3 and 2 items, two arbitrary pairs among all in '
          'the first, 1 to 3 jobs, with every way to ask for normalization; three by values with 9 pairs, 1 to 4 jobs '
          'in any order; 2 jobs with 1 to 3 blocks each (3 jobs in the '
          'thorough tier) with every interleaving at the points where they '
          'take the lock; a failure of the distance on any pair; a '
          'task of 5 items (2 arbitrary labels) generated by the code itself; '
          'arbitrary features')
OUTSIDE = ('more jobs or blocks; operating system failures; interleavings '
           'inside what the lock protects, which it makes impossible')
STUBS = ('processes are threads of which one runs at a time, switching when '
         'a lock is asked for, in an arbitrary order; locks are '
         'stand-ins; h5py, h5features and pandas.HDFStore are in-memory '
         'models; the distance is x + 10 y for frames x and y')
ASSUMPTIONS = ['pairs are sorted and distinct, as the task writes them']
BUDGET = {'quick': 150, 'thorough': 1800}


def metric(x, y, normalized=None):
    return x[0, 0] + 10 * y[0, 0] + offset(normalized)


def offset(normalized):
    """the distance tells apart how it was asked to be normalized"""
    return 0 if normalized is None else 5000 if normalized else 9000


def setup(ctx, blocks, group='features', cut=None, normalized=None):
    """blocks: list of (by, number of items, pairs); each item has a frame of
    its own with an arbitrary feature"""
    val, data, out, want = {}, {}, [], []
    for b, (by, n, pairs) in enumerate(blocks):
        items = []
        for i in range(n):
            v = ctx.real('v%d_%d' % (b, i), -100, 100)
            val[by, i] = v
            f = 'f%d' % (i % 2)
            # frames are spread over two files, in the order of the items
            t = b * 100 + i
            data.setdefault(f, ([], []))
            data[f][0].append(t)
            data[f][1].append([v])
            items.append((f, t - 0.25, t + 0.25))
        out.append((by, items, n, pairs))
        want += [(by, n, p) for p in pairs]

    def expected(by, n, p):
        a, x = ctx.value(p % n), ctx.value(p // n)
        return val[by, int(a)] + 10 * val[by, int(x)] + offset(normalized)
    files = sorted(data)
    if cut:
        feats = [features_file(ctx, {f: data[f]}, 'd%d.features' % i, group)
                 for i, f in enumerate(files)]
    else:
        feats = features_file(ctx, data, group=group)
    return task_file(ctx, out), feats, [(lambda w=w: expected(*w))
                                        for w in want]


def compute(ctx, task, feats, expected, n_cpu, group='features', dist=metric,
            atomic=False, normalized=None):
    ctx.fake_processes()
    m = ctx.load('ABXpy.distances.distances')
    out = ctx.path('out.distance')
    mp = ctx.mp
    mp.atomic = atomic
    state = {'unlocked': 0}

    def peek():
        if not os.path.exists(out):
            return
        try:
            done, rows = distances(ctx, out)
        except Exception:
            return
        if done and state.get('jobs'):
            ctx.check(ctx.And([r == e() for r, e in zip(rows, expected)]),
                      'marked as done although distances are missing')

    def opened(mode):
        if mp.held() is False:
            state['unlocked'] += 1
        if mp.held() is not None and not state.get('in'):
            state['in'] = state['jobs'] = True
            peek()
            state['in'] = False
    ctx.watch_opens(out, opened)
    try:
        if isinstance(feats, list):
            m.compute_distances(feats, [group] * len(feats), task, out, dist,
                                normalized, n_cpu=n_cpu,
                                feature_file_as_list=True)
        else:
            m.compute_distances(feats, group, task, out, dist, normalized,
                                n_cpu=n_cpu)
    finally:
        ctx.watch_opens(out, lambda mode: None)
        ctx.check(not state['unlocked'], 'a job opened the output file while '
                  'another one could have')
    return out


def judge(ctx, out, expected):
    done, rows = distances(ctx, out)
    ctx.check(done, 'not marked as done')
    ctx.check(len(rows) == len(expected), '%d rows for %d pairs' % (
        len(rows), len(expected)))
    ctx.check(ctx.And([r == e() for r, e in zip(rows, expected)]),
              'a row is not the distance of its pair')
    ctx.observe('rows', rows)


def rows(ctx, cpus, k=2, cut=False, norms=(None,)):
    """arbitrary pairs"""
    norm = norms[ctx.choose('norm', len(norms))]
    n_cpu = cpus[ctx.choose('n_cpu', len(cpus))]
    ps = [ctx.int('p%d' % i, 0, 8) for i in range(k)]
    ctx.assume(ctx.And([ps[i] < ps[i + 1] for i in range(k - 1)]))
    task, feats, exp = setup(ctx, [('b', 3, ps), ('a', 2, [1, 2])], cut=cut,
                             normalized=norm)
    judge(ctx, compute(ctx, task, feats, exp, n_cpu, atomic=True,
                       normalized=norm), exp)


def orders(ctx, cpus, sizes=(5, 3, 1)):
    """many pairs, jobs one after the other in any order"""
    n_cpu = cpus[ctx.choose('n_cpu', len(cpus))]
    blocks = []
    for b, s in enumerate(sizes):
        n = 3 + b
        blocks.append(('by%d' % (7 - b), n, [i * (n * n - 1) // max(s - 1, 1)
                                       for i in range(s)]))
    task, feats, exp = setup(ctx, blocks)
    judge(ctx, compute(ctx, task, feats, exp, n_cpu, atomic=True), exp)


def interleaved(ctx, sizes, n_cpu):
    blocks = [('by%d' % (7 - b), 2, [0, 1, 2, 3][:s]) for b, s in enumerate(sizes)]
    task, feats, exp = setup(ctx, blocks)
    judge(ctx, compute(ctx, task, feats, exp, n_cpu), exp)


class Refused(Exception):
    pass


def failing(ctx, sizes, cpus):
    """the distance cannot be computed for one of the pairs"""
    n_cpu = cpus[ctx.choose('n_cpu', len(cpus))]
    blocks = [('by%d' % (7 - b), 2, [0, 1, 2, 3][:s]) for b, s in enumerate(sizes)]
    task, feats, exp = setup(ctx, blocks)
    which = ctx.choose('which', len(exp))
    calls = []

    def dist(x, y, normalized=None):
        calls.append(1)
        if len(calls) == which + 1:
            raise Refused('no distance')
        return metric(x, y)
    try:
        compute(ctx, task, feats, exp, n_cpu, dist=dist, atomic=True)
    except Refused:
        seen = True
    else:
        seen = False
    ctx.check(seen, 'the failure of a distance is not reported')
    ctx.check(not distances(ctx, ctx.path('out.distance'))[0],
              'marked as done although a distance failed')
    ctx.observe('seen', seen)


def whole(ctx, cpus, on, ac, by):
    """on a task generated by the code"""
    n_cpu = cpus[ctx.choose('n_cpu', len(cpus))]
    n = len(on)
    it = Items(ctx, n, fixed_labels(ctx, {'on': on, 'ac': ac, 'by': by}))
    r = generate(ctx, it, 'on', ['ac'], ['by'])
    for p in r.problems:
        ctx.fail(p)
    if r.problems or not r.raw_pairs:
        return
    vs = [ctx.real('v%d' % i, -100, 100) for i in range(n)]
    # items of the task are at [i/4, i/4 + 1/8] of their own file
    feats = features_file(ctx, {'f%d' % i: ([0.25 * i - 1, 0.25 * i,
                                             0.25 * i + 1],
                                            [[500 + i], [vs[i]], [900 + i]])
                                for i in range(n)})
    exp = []
    for b in r.bys:
        base, lo, hi = r.attrs[b]
        for p in r.raw_pairs[lo:hi]:
            f = r.feat[b]
            ctx.check(set(ctx.value(it.cols['by'][i]) for i in f) == {int(b)},
                      'the items of %s are not those of %s' % (b, f))
            exp.append(lambda a=f[p % base], x=f[p // base]:
                       vs[a] + 10 * vs[x])
    judge(ctx, compute(ctx, r.out, feats, exp, n_cpu, atomic=True), exp)


HARNESSES = [
    Harness('rows', rows, quick=[dict(cpus=[1, 2, 3]),
                                 dict(cpus=[1, 2], k=1, cut=True),
                                 dict(cpus=[1, 2], k=1, norms=[0, 1, 2])],
            thorough=[dict(cpus=[1, 2, 3, 4]), dict(cpus=[1, 2], k=3),
                      dict(cpus=[1, 2, 3], k=2, cut=True)]),
    Harness('orders', orders, quick=[dict(cpus=[1, 2, 3, 4])],
            thorough=[dict(cpus=[1, 2, 3, 4, 5]),
                      dict(cpus=[1, 2, 3, 4], sizes=(9, 4, 2, 3))]),
    Harness('interleaved', interleaved,
            quick=[dict(sizes=[2], n_cpu=2), dict(sizes=[3, 1], n_cpu=2),
                   dict(sizes=[2, 1, 2], n_cpu=2),
                   dict(sizes=[3], n_cpu=3)],
            thorough=[dict(sizes=[2, 2, 2, 2], n_cpu=2),
                      dict(sizes=[2, 1, 2], n_cpu=2),
                      dict(sizes=[3], n_cpu=3), dict(sizes=[2, 2], n_cpu=3)]),
    Harness('failing', failing, quick=[dict(sizes=[3, 1], cpus=[1, 2])],
            thorough=[dict(sizes=[3, 1], cpus=[1, 2, 3]),
                      dict(sizes=[2, 2, 2], cpus=[1, 2, 3])]),
    Harness('whole', whole,
            quick=[dict(cpus=[1, 2], on=[0, 1, 0, 0, None],
                        ac=[0, 0, 1, 1, None], by=[0, 0, 0, 0, 0]),
                   dict(cpus=[2], on=[0, 0, 1, 1, 0, 0, None],
                        ac=[0, 0, 0, 0, 1, 1, 1],
                        by=[0, 1, 0, 1, 0, 1, 1])],
            thorough=[dict(cpus=[1, 2, 3], on=[0, 1, 0, None, None],
                           ac=[0, 0, 1, None, None], by=[0, 0, 0, 0, 0]),
                      dict(cpus=[1, 2, 3], on=[0, 0, 1, 1, 0, 0, None, None],
                           ac=[0, 0, 0, 0, 1, 1, 1, None],
                           by=[0, 1, 0, 1, 0, 1, 1, 0])]),
]
