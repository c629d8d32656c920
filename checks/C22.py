"""Conversion of a folder of feature files."""
import os

from abxsym.runner import Harness

LEVEL = 'model_checking'
BOUNDS = ('0 to 4 files (6 in the thorough tier) of 1 to 3 frames with '
          'arbitrary times and features, in batches of any size; 499 to 1001 '
          'files with the default batches; numpy files; a file that cannot '
          'be read, whichever it is')
OUTSIDE = 'more files; sparse features; several files of the same name'
STUBS = 'h5features is an in-memory model'
ASSUMPTIONS = []
BUDGET = {'quick': 150, 'thorough': 1800}
M = 'ABXpy.misc.any2h5features'


def content(ctx, sizes, dim=2, symbolic=None):
    """{name: (times, features)}"""
    out = {}
    for i, n in enumerate(sizes):
        sym = symbolic is None or i in symbolic
        out['f.%d' % (7 * i % 10 + 10 * i)] = (
            [ctx.real('t%d_%d' % (i, j), j, j + 0.5) if sym else
             0.25 * j + i for j in range(n)],
            [[ctx.real('v%d_%d_%d' % (i, j, k), -9, 9) if sym else
              100. * i + 10 * j + k for k in range(dim)] for j in range(n)])
    return out


def loader(ctx, data, calls, fail=None):
    np = ctx.np

    def load(path):
        name = os.path.splitext(os.path.basename(path))[0]
        calls.append(path)
        if name == fail:
            raise ValueError('cannot be read')
        t, f = data[name]
        return {'time': np.array(t, dtype=np.float64),
                'features': np.array(f, dtype=np.float64)}
    return load


def judge(ctx, out, data, group='features'):
    t, f = ctx.h5features.read(out, group)
    ctx.check(sorted(t) == sorted(f) == sorted(data), 'the files are %s, '
              'expected %s' % (sorted(t), sorted(data)))
    bad = []
    for k, (times, rows) in data.items():
        if k not in t or k not in f:
            continue
        ok = tuple(t[k].shape) == (len(times),) and \
            tuple(f[k].shape) == (len(rows), len(rows[0]))
        ctx.check(ok, '%s has %s times and %s features' % (
            k, t[k].shape, f[k].shape))
        if ok:
            bad += [ctx.Not(t[k][i] == v) for i, v in enumerate(times)]
            bad += [ctx.Not(f[k][i, j] == v) for i, r in enumerate(rows)
                    for j, v in enumerate(r)]
    ctx.check(ctx.Not(ctx.Or(bad)), 'a file has times or features that are '
              'not its own')
    ctx.observe('files', sorted(t))


def batches(ctx, most, shapes):
    """any size of batches"""
    ctx.fake_processes()
    m = ctx.load(M)
    n = ctx.choose('n', most + 1)
    s = shapes[ctx.choose('shape', len(shapes))]
    data = content(ctx, [s[i % len(s)] for i in range(n)])
    size = ctx.int('batch', 1, most + 2)
    files = [k + '.npz' for k in data]
    if n > 1 and ctx.choose('reverse', 2):
        files = files[::-1]
    out = ctx.path('data.features')
    calls = []
    m.any_to_h5features(ctx.path('in'), files, out, '/features/',
                        batch_size=size, load=loader(ctx, data, calls))
    ctx.check(calls == [os.path.join(ctx.path('in'), f) for f in files],
              'files read: %s' % calls)
    if not data:
        ctx.check(not os.path.exists(out), 'a file was written')
        return
    judge(ctx, out, data)


def folder(ctx, sizes):
    """the default size of the batches"""
    ctx.fake_processes()
    m = ctx.load(M)
    n = sizes[ctx.choose('n', len(sizes))]
    data = content(ctx, [1 + i % 2 for i in range(n)], 1, [0, n // 2, n - 1])
    os.mkdir(ctx.path('in'))
    for k in data:
        open(ctx.path('in/%s.feat' % k), 'w').close()
    out = ctx.path('data.features')
    m.convert(ctx.path('in'), out, load=loader(ctx, data, []))
    judge(ctx, out, data)


def numpy_files(ctx):
    """files written by numpy"""
    import numpy
    ctx.fake_processes()
    m = ctx.load(M)
    data = content(ctx, [2, 1, 3], 2, [])
    os.mkdir(ctx.path('in'))
    for k, (t, f) in data.items():
        with open(ctx.path('in/%s.npz' % k), 'wb') as fh:
            numpy.savez(fh, time=numpy.array(t), features=numpy.array(f))
    out = ctx.path('data.features')
    m.convert(ctx.path('in'), out)
    judge(ctx, out, data)


def failing(ctx, n, batch):
    """a file cannot be read"""
    ctx.fake_processes()
    m = ctx.load(M)
    data = content(ctx, [1] * n, 1, [])
    names = list(data)
    which = names[ctx.choose('which', n)]
    try:
        m.any_to_h5features(ctx.path('in'), [k + '.npz' for k in names],
                            ctx.path('data.features'), '/features/',
                            batch_size=ctx.int('batch', 1, batch),
                            load=loader(ctx, data, [], which))
        seen = False
    except ValueError:
        seen = True
    ctx.check(seen, 'a file that cannot be read is not reported')
    ctx.observe('seen', seen)


HARNESSES = [
    Harness('batches', batches,
            quick=[dict(most=4, shapes=[[1, 2, 3], [2]])],
            thorough=[dict(most=6, shapes=[[1, 2, 3], [2], [3, 1]])]),
    Harness('folder', folder, quick=[dict(sizes=[499, 500, 501, 1001])],
            path_timeout=120),
    Harness('numpy files', numpy_files, quick=[dict()]),
    Harness('failing', failing, quick=[dict(n=3, batch=4)],
            thorough=[dict(n=5, batch=6)]),
]
