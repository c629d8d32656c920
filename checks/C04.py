"""Regressors describe the triplet of their row."""
from abxsym.runner import Harness
from checks.taskspec import *

LEVEL = 'model_checking'
BOUNDS = ('default regressors and up to three explicit ones (A, B, X, by, on, '
          'across columns, every extension), 3-6 items with symbolic labels, '
          'labels of any text, one to four across columns, regressors computed by a function of the columns, '
          'with and without filters (including triplet filters) and sampling')
OUTSIDE = ('more items; lookup tables; functions other than those of the '
           'catalogue')
STUBS = ('h5py and pandas.HDFStore are in-memory models; random draws are '
         'arbitrary values')
ASSUMPTIONS = []
BUDGET = {'quick': 150, 'thorough': 2400}

REGS = [
    (['d_A'], {'d_A': ('d', 'a')}),
    (['d_B'], {'d_B': ('d', 'b')}),
    (['d_X'], {'d_X': ('d', 'x')}),
    (['d_A', 'd_B', 'd_X'], {'d_A': ('d', 'a'), 'd_B': ('d', 'b'),
                             'd_X': ('d', 'x')}),
    (['by_A', 'd_A'], {'by_A': ('by', 'a'), 'd_A': ('d', 'a')}),
    (['on_B', 'on_A'], {'on_B': ('on', 'b'), 'on_A': ('on', 'a')}),
    (['ac_X', 'ac_AB', 'on_AX'], {'ac_X': ('ac', 'x'), 'ac_AB': ('ac', 'b'),
                                  'on_AX': ('on', 'x')}),
    ([], {}),
]
FILTERS = [None, ['[u != v for u, v in zip(d_A, d_B)]'],
           ['[v == 1 for v in d]'], ['[v == 1 for v in d_A]'],
           ['[u == v for u, v in zip(d_B, d_X)]', '[v == 0 for v in d_X]']]
ARR = {
    'across': dict(on=[0, 1, 0, 1, 0, 1], ac=[0, 0, 1, 1, 0, 1]),
    'small': dict(on=[0, 1, 1, 0]),
    'plain': dict(on=[0, 1, 1, 0, 2]),
    'by': dict(on=[0, 1, 0, 1, 1, 0], by=[1, 1, 1, 0, 0, 0]),
    'many': dict(on=[0, 0, 1, 2, 0, 0], ac=[0, 0, 0, 0, 1, 2]),
}


def regressors(ctx, arr=None, n=None, regs=None, filters=1, kd=2, thr=0,
               across=True):
    if arr:
        cols = {k: list(v) for k, v in ARR[arr].items()}
        n = len(cols['on'])
    else:
        cols = {'on': labels(ctx, 'on', n, 2)}
        if across:
            cols['ac'] = labels(ctx, 'ac', n, 2)
    cols['d'] = labels(ctx, 'd', n, kd)
    it = Items(ctx, n, cols)
    ok = [x for x in REGS if all(c in cols for c, _ in x[1].values())]
    if regs is not None:
        ok = [x for x in ok if REGS.index(x) in regs]
    names, expect = ok[ctx.choose('regs', len(ok))]
    f = FILTERS[ctx.choose('filter', filters)]
    expect = dict(expect)
    expect['on_1'], expect['on_2'] = ('on', 'a'), ('on', 'b')
    if 'ac' in cols:
        expect['ac_1'], expect['ac_2'] = ('ac', 'a'), ('ac', 'x')
    threshold = None
    if thr:
        ctx.stub_rng()
        threshold = thr
    r = generate(ctx, it, 'on', ['ac'] if 'ac' in cols else None,
                 ['by'] if 'by' in cols else None, filters=f,
                 regressors=names, want_regs=True, threshold=threshold)
    if not r.exists:
        ctx.check(True, 'no triplets')
        return
    check_regressors(ctx, it, r, expect)
    ctx.observe('regs', [[k, v] for g in r.reg for k, v in sorted(g.items())])


def across(ctx, names, q):
    """the values of several across columns"""
    on = [0, 1, 0, 0, 1, None]
    ac = [[0, 0, 1, 2, 1, 0], [0, 0, 1, 1, None, 0], [1, 1, 0, 2, 0, 1],
          [0, 0, 2, 1, 1, 0]]
    cols = fixed_labels(ctx, dict([('on', on)] + list(zip(names, ac))))
    it = Items(ctx, 6, cols)
    r = generate(ctx, it, 'on', list(names), None, want_regs=True,
                 regressors=[names[q] + '_X'])
    expect = {'on_1': ('on', 'a'), 'on_2': ('on', 'b'),
              names[q] + '_X': (names[q], 'x')}
    for c in names:
        expect[c + '_1'], expect[c + '_2'] = (c, 'a'), (c, 'x')
    check_triplets(ctx, it, r, 'on', list(names), None)
    if r.exists:
        check_regressors(ctx, it, r, expect)
    ctx.observe('regs', [[k, v] for g in r.reg for k, v in sorted(g.items())])


TEXTS = ['b', '\u00e9', '\u0283\u02d0', 'a_b', '.', 'B']


def text(ctx):
    """labels that are any text"""
    n = 5
    ls = [TEXTS[ctx.choose('l%d' % i, len(TEXTS))] for i in range(2)] + \
        ['\u00e9', 'x', 'b']
    col = ['d', 'd\u00e9'][ctx.choose('col', 2)]
    cols = {'on': ls, col: ['u', 'v', 'u', '\u65e5', 'w']}
    it = Items(ctx, n, cols)
    r = generate(ctx, it, 'on', None, None, regressors=[col + '_X'],
                 want_regs=True)
    if not r.exists:
        return
    check_triplets(ctx, it, r, 'on', None, None)
    check_regressors(ctx, it, r, {'on_1': ('on', 'a'), 'on_2': ('on', 'b'),
                                  col + '_X': (col, 'x')})
    ctx.observe('regs', [[k, v] for g in r.reg for k, v in sorted(g.items())])


FUNS = {
    'A': ('10 * v + 1', ['d_A'], lambda C, a, b, x: 10 * C['d'][a] + 1),
    'B': ('10 * v + 2', ['d_B'], lambda C, a, b, x: 10 * C['d'][b] + 2),
    'X': ('10 * v + 3', ['d_X'], lambda C, a, b, x: 10 * C['d'][x] + 3),
    'on': ('v + 4', ['on_A'], lambda C, a, b, x: C['on'][a] + 4),
    'AonX': ('u + 10 * v', ['on_X', 'd_X'],
             lambda C, a, b, x: C['on'][x] + 10 * C['d'][x]),
    'by': ('v + 5', ['by'], lambda C, a, b, x: C['by'][a] + 5),
}


def script(ctx, k):
    expr, cols, _ = FUNS[k]
    if len(cols) == 1:
        return 'import numpy as np\n[np.array([%s for v in %s])]' % (
            expr, cols[0])
    return 'import numpy as np\n[np.array([%s for u, v in zip(%s)])]' % (
        expr, ', '.join(cols))


def computed(ctx, arr, funs, filters=1, thr=None):
    """regressors that are functions of the columns"""
    cols = {k: list(v) for k, v in ARR[arr].items()}
    n = len(cols['on'])
    cols['d'] = [ctx.choose('d%d' % i, 2) if i < 4 else i % 2
                 for i in range(n)]
    it = Items(ctx, n, cols)
    f = FILTERS[ctx.choose('filter', filters)]
    task = ctx.load('ABXpy.task')
    if thr:
        ctx.stub_rng()
    names = {'on_1': ('on', 'a'), 'on_2': ('on', 'b')}
    if 'ac' in cols:
        names['ac_1'], names['ac_2'] = ('ac', 'a'), ('ac', 'x')
    r = generate(ctx, it, 'on', ['ac'] if 'ac' in cols else None,
                 ['by'] if 'by' in cols else None, filters=f,
                 regressors=[script(ctx, k) for k in funs], threshold=thr,
                 want_regs=True)
    if not r.exists:
        ctx.check(True, 'no triplets')
        return
    check_regressors(ctx, it, r, names)
    # the functions are numbered by role: by, on/across, A, B, X
    order = sorted(funs, key=lambda k: (['by', 'on', 'A', 'B', 'X',
                                         'AonX'].index(k)))
    with ctx.h5py.File(r.out, 'r') as fh:
        for b, (lo, hi) in zip(r.bys, r.index):
            g = fh['regressors'][b]
            for j, k in enumerate(order):
                data = g['reg_%d' % j][...]
                ctx.check(data.shape[0] == hi - lo, '%d rows of the regressor '
                          'on %s for %d triplets' % (data.shape[0], k, hi - lo))
                if data.shape[0] != hi - lo:
                    continue
                ctx.check(ctx.And([data[i, 0] == FUNS[k][2](
                    cols, *r.triplets[lo + i]) for i in range(hi - lo)]),
                    'the regressor computed on %s does not describe the '
                    'triplet of its row' % k)
    ctx.observe('regs', [[k, v] for g in r.reg for k, v in sorted(g.items())])


HARNESSES = [
    Harness('computed', computed,
            quick=[dict(arr='across', funs=('A', 'B'), filters=4),
                   dict(arr='across', funs=('X', 'on', 'AonX')),
                   dict(arr='by', funs=('A', 'by', 'X'), filters=3),
                   dict(arr='plain', funs=('B', 'on')),
                   dict(arr='many', funs=('A', 'X'), thr=1)],
            thorough=[dict(arr=a, funs=f, filters=5, thr=t)
                      for a in ('across', 'by', 'many', 'plain')
                      for f in (('A', 'B', 'X'), ('on', 'AonX', 'A'),
                                ('X',), ('B',))
                      for t in (None, 1)]),
    Harness('regressors', regressors,
            quick=[dict(arr='across', filters=2, regs=[3, 5, 6, 7]),
                   dict(arr='many', regs=[3]),
                   dict(arr='plain', filters=2, regs=[0, 3, 5]),
                   dict(arr='by', filters=3, regs=[3, 4]),
                   dict(arr='small', regs=[0, 3], thr=1, filters=1),
                   dict(n=3, regs=[0, 3, 6])],
            thorough=[dict(arr='across', filters=5), dict(arr='many', filters=5),
                      dict(arr='by', filters=5, kd=3),
                      dict(arr='plain', filters=5, kd=3),
                      dict(arr='many', regs=[0, 3, 6], thr=1, filters=3),
                      dict(n=4, regs=[0, 1, 2, 3], filters=2)]),
    Harness('across', across,
            quick=[dict(names=['q', 'p', 's'], q=2),
                   dict(names=['a', 'B', 'c', 'D'], q=1)]),
    Harness('text', text, quick=[dict()]),
]
