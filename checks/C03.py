"""The pairs of a task are exactly those its triplets need."""
from abxsym.runner import Harness
from checks.taskspec import *

LEVEL = 'model_checking'
BOUNDS = ('4 items (5 in the thorough tier), every assignment of labels to an '
          '"on" column, 0 or 1 "across" columns and 0 or 1 "by" columns; I/O '
          'buffers of 1, 2 or 3 triplets (3, 6 or 9 pairs), so that up to 6 '
          'chunks meet, as well as the default size; 6 to 10 items in larger '
          'blocks, of which one or two have arbitrary labels, without or with a '
          'filter that leaves some out')
OUTSIDE = 'more items; multi-chunk sorting of the pairs (decided by C18)'
STUBS = ('h5py and pandas.HDFStore are in-memory models; default buffer sizes '
         'are replaced by tiny ones')
ASSUMPTIONS = ['buffers hold at least one row']
BUDGET = {'quick': 150, 'thorough': 2400}


def pairs(ctx, n, k, across, by, rows=None, kby=2, ka=2):
    cols = {'on': labels(ctx, 'on', n, k)}
    if across:
        cols['ac'] = labels(ctx, 'ac', n, ka)
    if by:
        cols['by'] = concrete_labels(ctx, 'by', n, kby)
    it = Items(ctx, n, cols)
    kb = None
    if rows:
        kb = 0.003 * (1 + ctx.choose('rows', rows))
    r = generate(ctx, it, 'on', ['ac'] if across else None,
                 ['by'] if by else None, buf_kb=kb)
    if not r.exists:
        ctx.check(True, 'no triplets')
        return
    check_pairs(ctx, r)
    ctx.observe('pairs', r.raw_pairs)


ARR = {
    # one A and one X, many B: the pair (A, X) comes with every triplet
    'wide': dict(on=[0, 0] + [1] * 8, ac=[0, 1] + [0] * 6 + [None, None]),
    # several A, B and X in two by values
    'blocks': dict(on=[0, 1, 0, 1, 1, 0, 1, None], ac=[0, 0, 1, 1, 0, 1, 1, 0],
                   by=[1, 1, 1, 1, 1, 0, 0, 0]),
    'full': dict(on=[0, 0, 1, 1, 1, None], by=[0, 0, 0, 0, 0, 0]),
    # a filter leaves items with indices that have gaps
    'gaps': dict(on=[9, 0, 1, 0, 9, 0, 1, 1, None], ac=[0, 0, 0, 1, 1, 1, 0, 1, 1],
                 e=[0, 1, 1, 1, 0, 1, 1, 1, 1]),
    'gapsby': dict(on=[9, 0, 1, 0, 9, 9, 0, 1, None], by=[0, 0, 0, 0, 1, 1, 1, 1, 1],
                   e=[0, 1, 1, 1, 0, 0, 1, 1, 1]),
    'bys': dict(on=[0, 0, 1, 0, 1, 1, 0, 0, None], by=[2, 0, 2, 2, 0, 0, 1, 1, 1]),
}


def shapes(ctx, arr, rows=None):
    cols = fixed_labels(ctx, ARR[arr])
    it = Items(ctx, len(cols['on']), cols)
    kb = 0.003 * (1 + ctx.choose('rows', rows)) if rows else None
    r = generate(ctx, it, 'on', ['ac'] if 'ac' in cols else None,
                 ['by'] if 'by' in cols else None,
                 ['[v == 1 for v in e]'] if 'e' in cols else None, buf_kb=kb)
    check_pairs(ctx, r)
    ctx.observe('pairs', r.raw_pairs)


HARNESSES = [
    Harness('shapes', shapes, quick=[dict(arr=a, rows=4) for a in ARR],
            thorough=[dict(arr=a, rows=9) for a in ARR]),
    Harness('pairs', pairs,
            quick=[dict(n=4, k=2, across=False, by=False, rows=3),
                   dict(n=4, k=3, across=True, by=False),
                   dict(n=4, k=2, across=False, by=True, rows=2)],
            thorough=[dict(n=5, k=2, across=False, by=False, rows=4),
                      dict(n=5, k=2, across=True, by=False, rows=2),
                      dict(n=5, k=2, across=False, by=True, rows=2),
                      dict(n=4, k=4, across=True, by=False, ka=3)]),
]
