"""Existing results are never overwritten; faults are reported."""
import os

from abxsym.runner import Harness
from checks.taskspec import Items, fixed_labels
from checks.C20 import walk, same
from checks import distspec, C14

LEVEL = 'model_checking'
BOUNDS = ('one access to a HDF5 file, any of them (opening, reading, writing, '
          'creating or extending a dataset, storing or reading a table, '
          'reading features), fails, alone or with all later writes, while '
          'a task of 4 to 6 items is generated (with and without sampling), '
          'distances are computed by 1 or 2 jobs, scores computed, results '
          'averaged, a dataset sorted, a features file written; existing '
          'outputs: a text, an empty file, a HDF5 file')
OUTSIDE = ('failures of the text files, of the creation of temporary files '
           'and of closing a file; several independent failures')
STUBS = ('h5py, pandas.HDFStore and h5features are in-memory models, on '
         'which (as on the real ones for the replay) the accesses are counted; '
         'processes are threads of which one runs at a time')
ASSUMPTIONS = ['a failing access raises OSError and has no effect']
BUDGET = {'quick': 150, 'thorough': 1800}


# ---- existing outputs

KINDS = ['text', 'empty', 'hdf5']


def occupy(ctx, p, kind):
    if kind == 'hdf5':
        with ctx.h5py.File(p, 'w') as fh:
            fh.create_dataset('precious', data=ctx.np.array([[1], [2]]))
            fh.attrs['done'] = True
    else:
        with open(p, 'w') as f:
            f.write('precious' if kind == 'text' else '')


def content(ctx, p, kind):
    if not os.path.exists(p):
        return 'nothing'
    if kind == 'hdf5':
        try:
            with ctx.h5py.File(p, 'r') as fh:
                return [sorted(fh.keys()), sorted(fh.attrs.keys()),
                        bool(fh.attrs['done']), walk(ctx, fh)]
        except Exception as e:
            return type(e).__name__
    with open(p) as f:
        return f.read()


def existing(ctx, what):
    kind = KINDS[ctx.choose('kind', 3)]
    given = ctx.choose('given', 2)
    run, p = WHAT[what](ctx, given)
    if kind == 'hdf5' and what == 'distances':
        # a finished computation
        with ctx.h5py.File(p, 'w') as fh:
            fh.create_group('distances').create_dataset(
                'data', data=ctx.np.array([[1.5], [2.5]]))
            fh.attrs['done'] = True
    else:
        occupy(ctx, p, kind)
    if what == 'distances' and kind == 'empty':
        ctx.assume(False)             # taken for a new file
    before = content(ctx, p, kind)
    try:
        run()
        refused = False
    except (Exception, SystemExit):
        refused = True
    ctx.check(refused, 'an existing output file is accepted')
    ctx.check(content(ctx, p, kind) == before,
              'an existing output file is changed')
    ctx.observe('refused', refused)


def items(ctx):
    return Items(ctx, 5, fixed_labels(ctx, {
        'on': [0, 1, 0, 1, 0], 'ac': [0, 0, 1, 1, 1]}))


def ex_task(ctx, given):
    task = ctx.load('ABXpy.task')
    f = items(ctx).write()
    t = task.Task(f, 'on', 'ac')
    os.mkdir(ctx.path('tmp'))
    p = ctx.path('out.abx') if given else os.path.splitext(f)[0] + '.abx'
    return (lambda: t.generate_triplets(output=p if given else None,
                                        tmpdir=ctx.path('tmp'))), p


def ex_score(ctx, given):
    m = ctx.load('ABXpy.score')
    t, d = inputs(ctx)
    p = ctx.path('out.score') if given else C14.expected_name(t, d)
    return (lambda: m.score(*([t, d] + [p] * given))), p


def ex_distances(ctx, given):
    ctx.fake_processes()
    m = ctx.load('ABXpy.distances.distances')
    t, f = distance_inputs(ctx)
    p = ctx.path('out.distance')
    return (lambda: m.compute_distances(f, 'features', t, p, metric, None,
                                        n_cpu=1 + given)), p


WHAT = {'task': ex_task, 'score': ex_score, 'distances': ex_distances}


# ---- faults

def metric(x, y, normalized=None):
    return x[0, 0] + 10 * y[0, 0]


def inputs(ctx, i=0):
    """a task and its distances"""
    b = [('u', 2, [(0, 1, 1), (1, 0, 0)], [0, 1, 2, 3]),
         ('v', 2, [(0, 1, 0)], [0, 1])]
    return (C14.task_file(ctx, b, [0, 1], ctx.np.int8, 'task%d.abx' % i),
            C14.distance_file(ctx, [.5, .25, 1., 2., 3., .125],
                              'in%d.distance' % i))


def distance_inputs(ctx, i=0):
    t = distspec.task_file(ctx, [
        ('u', [('f0', 0., 1.), ('f0', 2., 3.)], 2, [1, 2, 3]),
        ('v', [('f0', 0., 1.), ('f1', 0., 1.)], 2, [1])],
        'task%d.abx' % i)
    f = distspec.features_file(ctx, {
        'f0': ([.5, 2.5], [[1.], [2.]]), 'f1': ([.5], [[3.]])},
        'data%d.features' % i)
    return t, f


def do_task(ctx, i, cfg):
    task = ctx.load('ABXpy.task')
    out, tmp = ctx.path('out%d.abx' % i), ctx.path('tmp%d' % i)
    os.mkdir(tmp)
    cols = {'on': [0, 1, 0, 1, 0, 1], 'ac': [0, 0, 1, 1, 1, 0],
            'by': [0, 0, 0, 1, 1, 1] if cfg.get('by') else [0] * 6}
    f = Items(ctx, 6, cols).write('i%d.item' % i)

    def run():
        t = task.Task(f, 'on', 'ac', 'by' if cfg.get('by') else None)
        t.generate_triplets(output=out, tmpdir=tmp, seed=0,
                            threshold=cfg.get('threshold'))
    return run, out, tmp


def do_score(ctx, i, cfg):
    m = ctx.load('ABXpy.score')
    out = ctx.path('out%d.score' % i)
    t, d = inputs(ctx, i)
    return (lambda: m.score(t, d, out)), out, None


def do_distances(ctx, i, cfg):
    ctx.fake_processes()
    ctx.mp.atomic = cfg.get('atomic', True)
    m = ctx.load('ABXpy.distances.distances')
    t, f = distance_inputs(ctx, i)
    out = ctx.path('out%d.distance' % i)
    return (lambda: m.compute_distances(f, 'features', t, out, metric, None,
                                        n_cpu=cfg['cpus'])), out, None


def do_sort(ctx, i, cfg):
    hh = ctx.load('ABXpy.h5tools.h5_handler')
    out, tmp = ctx.path('s%d.h5' % i), ctx.path('tmp%d' % i)
    os.mkdir(tmp)
    with ctx.h5py.File(out, 'w') as fh:
        g = fh.create_group('g')
        g.create_dataset('k', data=ctx.np.array(
            [[3], [1], [2], [5], [4]], dtype=ctx.np.int64))
        g.create_dataset('c', data=ctx.np.array(
            [[i] for i in range(5)], dtype=ctx.np.int64))
    return (lambda: hh.H5Handler(out, '/g/', 'k', ['/g/'], ['c']).sort(
        buffer_size=3 * .016, o_buffer_size=2 * .016, tmpdir=tmp)), out, tmp


def do_write(ctx, i, cfg):
    """through a write buffer"""
    w = ctx.load('ABXpy.h5tools.np2h5')
    out = ctx.path('w%d.h5' % i)

    def run():
        with w.NP2H5(out) as f:
            d = f.add_dataset('g', 'd', n_columns=2, buf_size=.032,
                              n_rows=5 if cfg['fixed'] else 0,
                              fixed_size=cfg['fixed'])
            e = f.add_dataset('g', 'e', n_columns=1, fixed_size=False)
            d.write(ctx.np.array([[1, 2], [3, 4], [5, 6]]))
            e.write(ctx.np.array([[1]]))
            d.write(ctx.np.array([[7, 8], [9, 0]]))
    return run, out, None


def do_read(ctx, i, cfg):
    """through a read buffer"""
    r = ctx.load('ABXpy.h5tools.h52np')
    src = ctx.path('r%d.h5' % i)
    out = ctx.path('read%d.txt' % i)
    with ctx.h5py.File(src, 'w') as fh:
        fh.create_group('g').create_dataset('d', data=ctx.np.array(
            [[k] for k in range(7)], dtype=ctx.np.int64))

    def run():
        got = []
        with r.H52NP(src) as f:
            for x in f.add_dataset('g', 'd', buf_size=.016):
                got.append(x[...].tolist() if hasattr(x, 'tolist') else x)
        with open(out, 'w') as g:
            g.write(str(got))
    return run, out, None


def do_h5io(ctx, i, cfg):
    m = ctx.load('ABXpy.h5tools.h5io')
    out = ctx.path('io%d.h5' % i)

    def run():
        with m.H5IO(out, {'a': 'x', 'b': 'x', 'r': None},
                    {'x': ['u', 'v', 'w']}, {'ab': ['a', 'b']}) as f:
            f.write({'a': [0, 1], 'b': [1, 2], 'r': [5, 6]}, indexed=True)
            f.write({'a': [2], 'b': [0], 'r': [7]}, indexed=True)
    return run, out, None


def do_analyze(ctx, i, cfg):
    m = ctx.load('ABXpy.analyze')
    t = ctx.path('t%d.abx' % i)
    s = ctx.path('s%d.score' % i)
    out = ctx.path('out%d.csv' % i)
    np, h5py = ctx.np, ctx.h5py
    st = h5py.special_dtype(vlen=str)
    with h5py.File(t, 'w') as fh:
        fh.create_dataset('bys', (2,), dtype=st)
        fh['bys'][:] = ['u', 'v']
        g = fh.create_group('triplets')
        g.create_dataset('by_index', data=np.array([[0, 3], [3, 4]],
                                                   dtype=np.int64))
        for by, rows in (('u', [[0, 1], [1, 0], [0, 1]]), ('v', [[0, 1]])):
            g = fh.create_group('regressors/' + by)
            g.create_dataset('indexed_datasets', (2,), dtype=st)
            g['indexed_datasets'][:] = ['on_1', 'on_2']
            g.create_dataset('indexed_data', data=np.array(rows,
                                                           dtype=np.uint8))
            k = g.create_group('indexes')
            for n in ('on_1', 'on_2'):
                k.create_dataset(n, (2,), dtype=st)
                k[n][:] = ['p', 'q']
    with h5py.File(s, 'w') as fh:
        fh.create_dataset('scores', data=np.array([[1], [0], [-1], [1]],
                                                  dtype=np.int8))
    return (lambda: m.analyze(t, s, out)), out, None


DO = {'task': do_task, 'score': do_score, 'distances': do_distances,
      'sort': do_sort, 'write': do_write, 'read': do_read, 'h5io': do_h5io,
      'analyze': do_analyze}


def result(ctx, p):
    if not os.path.exists(p):
        return 'nothing'
    if p.endswith(('.csv', '.txt')):
        with open(p) as f:
            return f.read()
    with ctx.h5py.File(p, 'r') as fh:
        return [sorted(fh.attrs.keys()), walk(ctx, fh)]


def open_files(folder):
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            n += os.readlink('/proc/self/fd/' + fd).startswith(folder + '/')
        except OSError:
            pass
    return n


def faults(ctx, what, top=400, **cfg):
    run, ref, _ = DO[what](ctx, 0, cfg)
    run()
    expected = result(ctx, ref)
    run, out, tmp = DO[what](ctx, 1, cfg)
    lasting = ctx.choose('lasting', 2) == 1
    error = None
    with ctx.faults(ctx.int('at', 0, top), lasting) as inj:
        try:
            run()
        except Exception as e:
            error = e
    ctx.observe('access', [inj.fired, inj.n if not inj.fired else 0])
    if tmp:
        ctx.check(os.listdir(tmp) == [], 'temporary files are left')
        ctx.check(open_files(tmp) == 0, 'temporary files are left open')
    if inj.fired is None:
        ctx.check(error is None, 'an error without any fault: %r' % (error,))
    if error is not None:
        ctx.check('deadlock' not in str(error), 'after a fault the other jobs '
                  'wait forever')
        if what == 'distances' and os.path.exists(out):
            with ctx.h5py.File(out, 'r') as fh:
                ctx.check(not ('done' in fh.attrs and bool(fh.attrs['done'])),
                          'marked as done although a fault occurred')
        return
    ctx.check(same(ctx, result(ctx, out), expected),
              'a fault (%s) is not reported and changes the result' % inj.fired)


HARNESSES = [
    Harness('existing', existing, quick=[dict(what=w) for w in sorted(WHAT)]),
    Harness('faults', faults, samples=6,
            quick=[dict(what='task'), dict(what='task', threshold=1, by=True),
                   dict(what='score'), dict(what='distances', cpus=1),
                   dict(what='distances', cpus=2), dict(what='sort'),
                   dict(what='write', fixed=True),
                   dict(what='write', fixed=False), dict(what='read'),
                   dict(what='h5io'), dict(what='analyze')],
            thorough=[dict(what='task', threshold=2),
                      dict(what='task', by=True),
                      dict(what='distances', cpus=3),
                      dict(what='distances', cpus=2, atomic=False)]),
]
