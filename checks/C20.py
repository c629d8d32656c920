"""The same seed gives the same task, whatever the environment."""
from abxsym.runner import Harness
from checks.taskspec import *

LEVEL = 'model_checking'
BOUNDS = ('tasks on 3 to 7 items, every assignment of the labels left '
          'arbitrary; any seed; two runs, the second one after the first, with '
          'another state of the random generator and every iteration order of '
          'the sets of names (of up to 4 names; rotations and reflections '
          'above); no threshold, or thresholds of 1 to 3 triplets per group')
OUTSIDE = ('orders of sets made inside pandas, h5py and numpy; more items')
STUBS = ('h5py and pandas.HDFStore are in-memory models; numpy.random is a '
         'stub: the draws that follow seed(s) are arbitrary functions of s and '
         'of their position, the others are arbitrary; sets are classes whose '
         'iteration order is an input')
ASSUMPTIONS = ['two runs in one process for the solver; the counterexample is '
               'looked for among processes with different hash seeds and '
               'generator states']
BUDGET = {'quick': 150, 'thorough': 1800}


def walk(ctx, g, name=''):
    """the whole content of a file, groups in sorted order"""
    out = []
    for k in sorted(g.keys()):
        if k == 'feat_dbs':
            continue
        v = g[k]
        p = name + '/' + k
        out.append((p, [(a, values(v.attrs[a]))
                        for a in sorted(v.attrs.keys())]))
        if hasattr(v, 'keys'):
            out += walk(ctx, v, p)
        else:
            out.append((p, values(v[...])))
    return out


def values(a):
    if not hasattr(a, 'tolist') or not getattr(a, 'shape', ()):
        return a.item() if hasattr(a, 'item') else a
    return [v.decode() if isinstance(v, bytes) else v
            for v in flat(a.tolist())] + ['shape'] + list(a.shape)


def flat(a):
    if not isinstance(a, list):
        return [a]
    return [v for x in a for v in flat(x)]


def same(ctx, a, b):
    """condition for two contents to be equal"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return ctx.And([same(ctx, x, y) for x, y in zip(a, b)] or [True])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    if isinstance(a, str) != isinstance(b, str):
        return False
    if isinstance(a, float) and isinstance(b, float) and a != a:
        return b != b
    return a == b


def compare(ctx, it, on, across, by, filters=None, regressors=None,
            threshold=None, seed=None, draws=None, max_orders=None):
    def run(i):
        task = ctx.load('ABXpy.task')
        d = 'run' + 'longer' * i        # not the same folder either
        os.mkdir(ctx.path(d))
        f = it.write(d + '/data%d.item' % i)
        out, tmp = ctx.path(d + '/o%d.abx' % i), ctx.path(d + '/tmp%d' % i)
        os.mkdir(tmp)
        if draws and ctx.symbolic:
            ctx.more_draws(draws)
        t = task.Task(f, on, across or None, by or None, filters, regressors)
        st = sorted((k, int(v)) for k, v in t.stats.items()
                    if isinstance(v, int))
        t.generate_triplets(output=out, threshold=threshold, tmpdir=tmp,
                            seed=seed)
        if not os.path.exists(out):
            return [st, None]
        with ctx.h5py.File(out, 'r') as fh:
            w = walk(ctx, fh)
        store = ctx.pd.HDFStore(out, 'r')
        feats = []
        for b in sorted(k for k in dict(w).get('/bys', []) if
                        isinstance(k, str) and k != 'shape'):
            df = store['/feat_dbs/' + b]
            feats.append([b, [str(v) for v in df['file']]])
        store.close()
        return [st, w, feats]
    a, b = ctx.twice(run, max_orders)
    if not ctx.symbolic:
        ctx.check(a == b, 'two runs give different tasks: %s' % diff(a, b))
        return
    ctx.check(same(ctx, a[0], b[0]), 'two runs announce different numbers')
    if a[1] is None or b[1] is None:
        ctx.check(a[1] is b[1], 'one of two runs gives no task')
        return
    ctx.check([k for k, _ in a[1]] == [k for k, _ in b[1]],
              'two runs give files with different datasets')
    for (k, u), (_, v) in zip(a[1], b[1]):
        c = same(ctx, u, v)
        if c is not True:
            ctx.check(c, 'two runs give different %s' % k)
    ctx.check(a[2] == b[2], 'two runs give different features tables')


def diff(a, b):
    if a[0] != b[0]:
        return 'statistics'
    if not a[1] or not b[1]:
        return 'one is empty'
    return [u[0] for u, v in zip(a[1], b[1]) if u != v][:4]


N = None
ARR = {
    'plain': dict(on=[0, 1, 0, N], ac0=[0, 0, 1, 1]),
    'by': dict(on=[0, 1, 0, 0, 1, N], ac0=[0, 0, 1, 0, 0, 1],
               by0=[0, 0, 0, 1, 1, 1]),
    'two': dict(on=[0, 1, 0, N], ac0=[0, 0, 1, 1], ac1=[0, 0, 1, 0]),
    'flat': dict(on=[0, 0, 1, N]),
    'by2': dict(on=[0, 1, 0, 1, 0, 1, 0], by0=[0, 0, 1, 1, 1, 0, N],
                by1=[1, 0, 0, 1, 1, 1, 0]),
}
FILTERS = {
    'none': None,
    'all': ['[v == 1 for v in d]', '[v >= 0 for v in on_A]',
            '[u == v for u, v in zip(e_A, e_X)]'],
    'roles': ['[v >= 0 for v in d_A]', '[v >= 0 for v in d_B]',
              '[v >= 0 for v in d_X]'],
}
REGS = {'none': None, 'names': ['d_A', 'd_B', 'e_X', 'd_X', 'e_A'], 'many': ['d_A', 'd_B', 'e_X', 'ac0_X'],
         'fun': ['import numpy as np\n[np.array([10 * v for v in d_A])]',
                'd_X']}


def orders(ctx, arr, filters='none', regs='none'):
    cols = ARR[arr]
    if filters != 'none' or regs != 'none':
        cols = {c: [0 if v is None else v for v in vs]
                for c, vs in cols.items()}
    cols = fixed_labels(ctx, cols)
    n = len(cols['on'])
    if filters != 'none' or regs != 'none':
        cols['d'] = [1] * n
        cols['e'] = [i % 2 for i in range(n)]
    if filters == 'all':
        cols['e'] = [1] * n
    it = Items(ctx, n, cols)
    compare(ctx, it, 'on', sorted(c for c in cols if c[:2] == 'ac'),
            sorted(c for c in cols if c[:2] == 'by'), FILTERS[filters],
            REGS[regs], seed=ctx.int('seed', 0, 2 ** 32 - 1))


BIG = {
    # blocks of 2, 3 and 4 triplets to be sampled from
    'one': dict(on=[0, 1, 1, 1, 0], ac0=[0, 0, 0, 0, 1]),
    'by': dict(on=[0, 1, 1, 0, 0, 1, 1, 0], ac0=[0, 0, 0, 1, 0, 0, 0, 1],
               by0=[0, 0, 0, 0, 1, 1, 1, 1]),
    'groups': dict(on=[0, 1, 1, 2, 2, 0], ac0=[0, 0, 0, 0, 0, 1]),
    'large': dict(on=[0, 1, 1, 1, 1, 1, 1, 1, 1, 0],
                  ac0=[0, 0, 0, 0, 0, 0, 0, 0, 0, 1]),
    # pieces of more than a hundred triplets to sample from
    'huge': dict(on=[0] * 5 + [1] * 6 + [0] * 5, ac0=[0] * 11 + [1] * 5),
}


def draws(ctx, arr, threshold, regs='none', budget=6, sym=1):
    cols = {c: list(v) for c, v in BIG[arr].items()}
    n = len(cols['on'])
    if sym:
        cols['on'] = [ctx.const_label(v) for v in cols['on'][:-1]] + [
            ctx.label('on', 0, 2)]
    if regs != 'none':
        cols['d'] = [i % 2 for i in range(n)]
        cols['e'] = [1] * n
    it = Items(ctx, n, cols)
    if ctx.symbolic:
        ctx.stub_rng(int_domain=(0, 1, 2) if arr == 'huge' else None)
    compare(ctx, it, 'on', ['ac0'], ['by0'] if 'by0' in cols else [],
            regressors=REGS[regs], threshold=threshold,
            seed=ctx.int('seed', 0, 2 ** 32 - 1), draws=budget,
            max_orders=0)


HARNESSES = [
    Harness('orders', orders, samples=1,
            quick=[dict(arr=a) for a in sorted(ARR)] +
            [dict(arr='by', filters=f) for f in sorted(FILTERS)] +
            [dict(arr='plain', regs=g) for g in sorted(REGS)] +
            [dict(arr='two', regs='many')],
            thorough=[dict(arr=a, filters=f, regs=g) for a in sorted(ARR)
                      for f in sorted(FILTERS) for g in sorted(REGS)
                      if not (g == 'many' and 'ac0' not in ARR[a])]),
    Harness('draws', draws, samples=1,
            quick=[dict(arr='one', threshold=1), dict(arr='one', threshold=2),
                   dict(arr='by', threshold=1),
                   dict(arr='groups', threshold=1),
                   dict(arr='groups', threshold=1, regs='fun'),
                   dict(arr='huge', threshold=1, sym=0),
                   dict(arr='huge', threshold=2, sym=0)],
            thorough=[dict(arr=a, threshold=t, regs=g, budget=12)
                      for a in sorted(BIG) if a != 'huge' for t in (1, 2, 3)
                      for g in ('none', 'many', 'fun')]),
]
