"""The commands: the results are those their options ask for."""
import os
import sys

from abxsym.runner import Harness
from checks.taskspec import Items, fixed_labels
from checks import C20, C26, distspec

LEVEL = 'model_checking'
BOUNDS = ('the four commands run one after the other on 4 to 6 items of which '
          '1 to 3 labels are arbitrary, with arbitrary frames; every '
          'combination listed of on, across, by, filters, jobs, group, '
          'normalization and distance options, in different orders; outputs '
          'that are new, exist already or have their default names; '
          'thresholds and seeds (0 and 5); commands that must be refused')
OUTSIDE = ('more items; other options; the texts that are printed; the '
           'Levenshtein distance, which is compiled code')
STUBS = ('h5py, h5features and pandas.HDFStore are in-memory models; '
         'processes are threads of which one runs at a time; numpy.random is '
         'a stub')
ASSUMPTIONS = []
BUDGET = {'quick': 150, 'thorough': 1800}
N = None
METRIC = '''
def metric(x, y, normalized=None):
    if normalized != %r:
        raise ValueError('normalized')
    return x[0, 0] - 2 * y[0, 0]


def other(x, y, normalized=None):
    return y[0, 0] - 2 * x[0, 0]
'''


def command(ctx, name, *args):
    """runs a command; what it exits with, or None"""
    m = ctx.load(name)
    old, path = sys.argv, list(sys.path)
    sys.argv = ['abx'] + [str(a) for a in args]
    try:
        m.main()
    except SystemExit as e:
        return 0 if e.code is None else e.code
    finally:
        sys.argv = old
        sys.path[:] = path


def write_old(p):
    with open(p, 'w') as f:
        f.write('old')


def module_of(ctx, normalized, folder):
    """a module with distances; each has a name of its own"""
    d = ctx.path(folder)
    if not os.path.isdir(d):
        os.makedirs(d)
    name = 'mydist_%s' % normalized
    with open(os.path.join(d, name + '.py'), 'w') as f:
        f.write(METRIC % (normalized,))
    sys.modules.pop(name, None)
    return os.path.join(d, name) + '.metric'


def results(ctx, on, order, exist=False, folder='mod', jobs=1, norm=None,
            tmp=False, **kw):
    def steps(ctx, item, feat, paths, across, bys, given):
        abx, dis, sco, out = paths
        opts = ['--on', 'on'] if order else ['-o', 'on']
        if across:
            opts += [['-a', '--across'][order]] + across
        if bys:
            opts += [['-b', '--by'][order]] + bys
        if given:
            opts += [['-f', '--filters'][order]] + given
        if tmp:
            opts += ['--tempdir', ctx.path('new/tmp')]
        if exist:
            for p in paths:
                write_old(p)
        args = [item, abx] + opts if order else opts + ['--', item, abx]
        r = command(ctx, 'ABXpy.task', *args)
        ctx.check(not r, 'generating the task exits with %r' % (r,))
        if tmp:
            ctx.check(os.listdir(ctx.path('new/tmp')) == [],
                      'temporary files are left')
        if not os.path.exists(abx):
            return
        opts = ['-d', module_of(ctx, norm, folder)]
        if norm is not None:
            opts += [['-n', '--normalization'][order], norm]
        if jobs > 1:
            opts += [['-j', '--njobs'][order], jobs]
        args = [feat, abx, dis] + opts if order else opts + [feat, abx, dis]
        r = command(ctx, 'ABXpy.distance', *args)
        ctx.check(not r, 'computing distances exits with %r' % (r,))
        stdout, sys.stdout = sys.stdout, open(os.devnull, 'w')
        try:
            r = command(ctx, 'ABXpy.score', abx, dis, sco)
        finally:
            sys.stdout.close()
            sys.stdout = stdout
        ctx.check(not r, 'scoring exits with %r' % (r,))
        ctx.symbolic_text()
        r = command(ctx, 'ABXpy.analyze', sco, abx, out)
        ctx.check(not r, 'analyzing exits with %r' % (r,))
    C26.chain(ctx, on, cpus=1, steps=steps, **kw)


def content(ctx, p):
    with ctx.h5py.File(p, 'r') as fh:
        return C20.walk(ctx, fh)


def equal(ctx, a, b, what):
    if not ctx.symbolic:
        ctx.check(a == b, '%s differ' % what)
        return
    ctx.check([k for k, _ in a] == [k for k, _ in b],
              '%s have other datasets' % what)
    for (k, u), (_, v) in zip(a, b):
        c = C20.same(ctx, u, v)
        if c is not True:
            ctx.check(c, '%s have other %s' % (what, k))


def sampled(ctx, arr, ac=(), by=(), regs=(), threshold=None, draws=None,
            filters=()):
    """the command and the function with the same seed and threshold"""
    it = Items(ctx, len(arr['on']), fixed_labels(ctx, arr))
    ac, by, regs, filters = list(ac), list(by), list(regs), list(filters)
    seed = [0, 5][ctx.choose('seed', 2)]

    def run(i):
        d = 'run%d' % i
        os.mkdir(ctx.path(d))
        f = it.write(d + '/data.item')
        # the output gets its default name
        out, tmp = ctx.path(d + '/data.abx'), ctx.path(d + '/tmp')
        os.mkdir(tmp)
        if draws and ctx.symbolic:
            ctx.more_draws(draws)
        if i == 0:
            t = ctx.load('ABXpy.task').Task(f, 'on', ac or None, by or None,
                                            filters or None, regs or None)
            t.generate_triplets(output=out, threshold=threshold, tmpdir=tmp,
                                seed=seed)
        else:
            opts = ['-o', 'on', '--tempdir', tmp, '--seed', seed]
            for o, v in (('-a', ac), ('-b', by), ('-r', regs),
                         ('-f', filters)):
                opts += [o] + v if v else []
            if threshold is not None:
                opts += ['-t', threshold]
            command(ctx, 'ABXpy.task', f, *opts)
        return content(ctx, out) if os.path.exists(out) else None
    a, b = ctx.twice(run, 0)
    if a is None or b is None:
        ctx.check(a is b, 'only one of both gives a task')
        return
    equal(ctx, a, b, 'the task of the command and the one of the function')


def metrics(ctx, opts, named, frames=(1, 2), cols=1, group='features'):
    """the distance command without a distance of the user"""
    vals = [[[ctx.real('v%d_%d_%d' % (i, t, c), 1, 9) for c in range(cols)]
             for t in range(n)] for i, n in enumerate(frames)]
    data = {'f%d' % i: ([float(t) for t in range(n)], vals[i])
            for i, n in enumerate(frames)}
    task = distspec.task_file(ctx, [('a', [
        ('f%d' % i, 0., 9.) for i in range(len(frames))], len(frames),
        [1, 2])])
    feat = distspec.features_file(ctx, data, group=group)
    out = ctx.path('out.distance')
    ctx.fake_processes()
    ctx.mp.atomic = True
    if ctx.choose('exists', 2):
        write_old(out)
    r = command(ctx, 'ABXpy.distance', feat, task, out, *opts)
    ctx.check(not r, 'the command exits with %r' % (r,))
    m = ctx.load('ABXpy.distance')
    fun, norm = named
    np = ctx.np
    v = [np.array(x, dtype=np.float64).reshape(len(x), -1) for x in vals]
    if norm is None:
        want = [getattr(m, fun)(v[1], v[0]), getattr(m, fun)(v[0], v[1])]
    else:
        want = [getattr(m, fun)(v[1], v[0], normalized=norm),
                getattr(m, fun)(v[0], v[1], normalized=norm)]
    done, rows = distspec.distances(ctx, out)
    ctx.check(done and len(rows) == 2, 'the distances are not complete')
    ctx.check(ctx.And([p == q for p, q in zip(rows, want)]),
              'a distance is not the one that is asked for')
    ctx.observe('n', len(rows))


def refused(ctx):
    """commands that cannot be run, and some that compute nothing, leave the
    files that exist as they are"""
    what = ['normalization', 'stats', 'analyze-task',
            'analyze-score', 'on'][ctx.choose('what', 5)]
    it = Items(ctx, 3, fixed_labels(ctx, {'on': [0, 1, N], 'ac': [0, 1, N]}))
    item = it.write()
    old = ctx.path('old')
    exists = ctx.choose('exists', 2)
    if exists:
        write_old(old)
    here = ctx.path('data.item')
    gone = ctx.path('missing')
    code = True
    if what == 'normalization':
        feat = distspec.features_file(ctx, {'f0': ([0.], [[1.]])})
        code = command(ctx, 'ABXpy.distance', feat, here, old)
        ctx.check(code not in (None, 0), 'a command without normalization is '
                  'not refused')
    elif what == 'stats':
        stdout, sys.stdout = sys.stdout, open(os.devnull, 'w')
        try:
            command(ctx, 'ABXpy.task', item, old, '-o', 'on', '--stats-only')
        finally:
            sys.stdout.close()
            sys.stdout = stdout
    elif what == 'on':
        stderr, sys.stderr = sys.stderr, open(os.devnull, 'w')
        try:
            code = command(ctx, 'ABXpy.task', item, old, '-a', 'ac')
        finally:
            sys.stderr.close()
            sys.stderr = stderr
        ctx.check(code not in (None, 0), 'a command without on is accepted')
    else:
        a, b = (here, gone) if what == 'analyze-task' else (gone, here)
        stdout, sys.stdout = sys.stdout, open(os.devnull, 'w')
        try:
            command(ctx, 'ABXpy.analyze', a, b, old)
        finally:
            sys.stdout.close()
            sys.stdout = stdout
    ctx.check(os.path.exists(old) == bool(exists),
              'a file that exists is lost, or one is written (%s)' % what)
    if exists and os.path.exists(old):
        ctx.check(open(old).read() == 'old', 'a file is overwritten')
    ctx.observe('what', what)


HARNESSES = [
    Harness('results', results, quick=[
        dict(on=[0, 1, 0, N, N], order=0, exist=True),
        dict(on=[0, 1, 0, 1, N], ac=[[0, 0, 1, 1, 1], [0, 0, 1, N, 0]],
             order=1, norm=1, jobs=2),
        dict(on=[0, 1, 0, 0, 1, N], by=[0, 0, 0, 1, 1, N], order=1, norm=0,
             exist=True, folder='a.b/mod'),
        dict(on=[0, 1, 0, 0, 1], d=[N, 0, N, 1, N], filters='A', order=0,
             jobs=3, tmp=True),
        dict(on=[9, 0, 1, 0, 9, N], d=[1, 0, 0, 0, 1, 0], filters='E',
             order=1)],
        thorough=[
        dict(on=[0, 1, N, N, N], order=1, jobs=2, exist=True),
        dict(on=[0, 1, 0, 1, N, 1], ac=[[0, 0, 1, 1, N, N]], order=0)]),
    Harness('sampled', sampled, quick=[
        dict(arr=dict(on=[0, 1, 0, N], ac=[0, 0, 1, 1]), ac=['ac'],
             regs=['ac_B', 'on_X']),
        dict(arr=dict(on=[0, 1, 1, 1, 0], ac=[0, 0, 0, 0, 1]), ac=['ac'],
             threshold=1, draws=8),
        dict(arr=dict(on=[0, 1, 1, 1, 0, 0], ac=[0, 0, 0, 0, 1, N],
                      by0=[0] * 6), ac=['ac'], by=['by0'], threshold=2,
             draws=8),
        dict(arr=dict(on=[0, 1, 0, 1], ac0=[0, 0, 1, N], ac1=[0, 0, 1, 1],
                      ac2=[0, 0, 1, 0]), ac=['ac0', 'ac1', 'ac2'],
             regs=['ac0_X']),
        dict(arr=dict(on=[0, 1, 0, 1, 0, N], by0=[0, 0, 0, 0, 1, 0],
                      by1=[0, 0, 0, 1, 0, 0], d=[1, 1, 0, 1, 1, 1]),
             by=['by0', 'by1'], filters=['[v == 1 for v in d_A]',
                                         '[v == 1 for v in d_B]',
                                         '[v != 1 for v in d_X]'])]),
    Harness('metrics', metrics, quick=[
        dict(opts=['-n', '1'], named=('default_distance', True)),
        dict(opts=['-n', '0', '-g', 'mine'], named=('default_distance', False),
             group='mine'),
        dict(opts=['-d', 'dtw_kl'], named=('dtw_kl_distance', None)),
        dict(opts=['--distance', 'dtw_kl', '-n', '0', '-j', '2'],
             named=('dtw_kl_distance', False), cols=2, frames=(2, 1))]),
    Harness('refused', refused, quick=[dict()])]
