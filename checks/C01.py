"""The triplets of a task are exactly the valid ones, once each."""
from abxsym.runner import Harness
from checks.taskspec import *

LEVEL = 'model_checking'
BOUNDS = ('3 or 4 items (5 in the thorough tier); every assignment of labels '
          '(symbolic, up to as many distinct values as items) to an "on" '
          'column, 0 to 2 "across" columns and 0 to 2 "by" columns; no filter, '
          'no sampling; 6 to 9 items in larger blocks (up to three across and '
          'two by columns) of which one to three have arbitrary labels')
OUTSIDE = ('more items; label alphabets beyond the stated size (only the order '
           'type of the labels matters to the code); several "on" columns '
           '(rejected by the command)')
STUBS = ('h5py and pandas.HDFStore are in-memory models; pandas itself runs '
         'for real on the symbolic labels; the item file is handed to the code '
         'as the frame pandas.read_csv would return')
ASSUMPTIONS = ['labels are compared only by equality and order']
BUDGET = {'quick': 150, 'thorough': 2400}


def exact(ctx, n, k, across, by, ka=None, kby=2, nby=1):
    cols = {'on': labels(ctx, 'on', n, k)}
    for j in range(across):
        cols['ac%d' % j] = labels(ctx, 'ac%d_' % j, n, ka or k)
    bys = []
    if by:
        for j in range(nby):
            cols['by%d' % j] = concrete_labels(ctx, 'by%d_' % j, n, kby)
            bys.append('by%d' % j)
    it = Items(ctx, n, cols)
    ac = ['ac%d' % j for j in range(across)]
    r = generate(ctx, it, 'on', ac or None, bys or None)
    check_triplets(ctx, it, r, 'on', ac, bys or None)
    ctx.observe('triplets', sorted(r.triplets))


N = None
ARR = {
    # three across columns
    'ac3': dict(on=[0, 1, 0, 0, 1, N], ac0=[0, 0, 1, 1, 1, 0],
                ac1=[0, 0, 1, 1, N, 0], ac2=[1, N, 1, 0, 0, 1]),
    # several A, B and X in every block
    'wide': dict(on=[0, 0, 1, 1, 0, 0, 1, N], ac0=[0, 0, 0, 0, 1, 1, 1, N]),
    'wide3': dict(on=[2, 0, 1, 0, 2, 1, 0, N], ac0=[1, 2, 1, 1, 0, 2, 0, N]),
    # interleaved by values
    'by': dict(on=[0, 1, 0, 0, 1, 1, 0, 1, N], ac0=[0, 0, 1, 1, 1, 0, 0, 1, N],
               by0=[0, 0, 0, 2, 2, 2, 2, 0, 2]),
    'by2': dict(on=[0, 1, 0, 1, 0, 1, 0, N], by0=[1, 1, 0, 0, 1, 1, N, 0],
                by1=[0, 0, 1, 1, 0, 0, 1, N]),
    'ac2by': dict(on=[0, 1, 0, 1, 1, 0, N], ac0=[0, 0, 1, 1, 2, 2, N],
                  ac1=[0, 0, 1, 1, 0, 1, N], by0=[0] * 7),
    'flat': dict(on=[0, 1, 0, 1, 2, 2, N]),
    'flatby': dict(on=[0, 1, 0, 1, 1, 2, N, 0], by0=[0, 1, 0, 1, 1, 0, 1, 1]),
}


def shapes(ctx, arr):
    cols = fixed_labels(ctx, ARR[arr])
    it = Items(ctx, len(cols['on']), cols)
    ac = sorted(c for c in cols if c.startswith('ac'))
    by = sorted(c for c in cols if c.startswith('by'))
    r = generate(ctx, it, 'on', ac or None, by or None)
    check_triplets(ctx, it, r, 'on', ac, by or None)
    ctx.observe('triplets', sorted(r.triplets))


HARNESSES = [
    Harness('shapes', shapes, quick=[dict(arr=a) for a in sorted(ARR)]),
    Harness('exact', exact,
            quick=[dict(n=3, k=3, across=1, by=False),
                   dict(n=4, k=2, across=1, by=False),
                   dict(n=4, k=4, across=0, by=False),
                   dict(n=4, k=2, across=2, by=False),
                   dict(n=4, k=2, across=0, by=True),
                   dict(n=4, k=2, across=1, by=True)],
            thorough=[dict(n=4, k=2, ka=3, across=1, by=False),
                      dict(n=4, k=4, across=1, by=False),
                      dict(n=5, k=2, across=1, by=False),
                      dict(n=5, k=5, across=0, by=False),
                      dict(n=4, k=2, across=2, by=True),
                      dict(n=4, k=2, across=0, by=True, nby=2, kby=2),
                      dict(n=4, k=3, across=0, by=True, kby=3),
                      dict(n=4, k=2, ka=3, across=2, by=False)]),
]
