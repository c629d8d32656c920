"""Buffered reading returns every row once, in order."""
from abxsym.runner import Harness
from checks.C16 import rows_of, as_array

LEVEL = 'model_checking'
BOUNDS = ('datasets of 0-7 rows (quick) with unconstrained values, 1-2 '
          'columns, buffers of 1-4 rows, any refill threshold in '
          '{0.01, 0.25, 0.5, 1.0}, up to 4 reads of symbolic size 1-5 or '
          '"whole buffer", every sub-range of the dataset')
OUTSIDE = 'more rows or reads; buffers smaller than one row'
STUBS = 'h5py (in-memory stand-in), numpy (symbolic stand-in)'
ASSUMPTIONS = ['buffers hold at least one row', 'read amounts are positive']

PORTIONS = [0.25, 0.01, 0.5, 1.0]


def reading(ctx, max_n, cols, max_buf, reads, max_amount, sub, portions):
    h52np = ctx.load('ABXpy.h5tools.h52np')
    n = ctx.choose('n', max_n + 1)
    if n == 0 and not sub:
        ctx.assume(False)
    buf = 1 + ctx.choose('buf', max_buf)
    portion = PORTIONS[ctx.choose('portion', portions)]
    rows = rows_of(ctx, 'v', n, cols, 'int64')
    f = ctx.path('in.h5')
    with ctx.h5py.File(f, 'w') as fh:
        fh.create_group('g').create_dataset(
            'd', data=as_array(ctx, rows, cols, 'int64'))
    lo, hi = 0, n
    if sub:
        lo = ctx.choose('lo', n + 1)
        hi = lo + ctx.choose('len', n + 1 - lo)
    want = rows[lo:hi]
    kb = buf * cols * 8 / 1000.
    pos = 0
    sizes = []
    with h52np.H52NP(f) as fh:
        if sub:
            d = fh.add_subdataset('g', 'd', buf_size=kb,
                                  minimum_occupied_portion=portion,
                                  indexes=(lo, hi))
        else:
            d = fh.add_dataset('g', 'd', buf_size=kb,
                               minimum_occupied_portion=portion)
        for k in range(reads):
            a = ctx.choose('amount%d' % k, max_amount + 1)
            left = len(want) - pos
            ctx.check(bool(d.isempty()) == (left == 0),
                      'isempty() is wrong with %d rows left' % left)
            try:
                got = d.read(a) if a else d.read()
            except StopIteration:
                got = None
            if got is None:
                ctx.check(left == 0, 'end of data reported with %d rows left'
                          % left)
                break
            m = got.shape[0]
            sizes.append(m)
            if a:
                ctx.check(m == min(a, left), 'asked %d rows of the %d left, '
                          'got %d' % (a, left, m))
            else:
                ctx.check(0 < m <= left, 'got %d rows of the %d left'
                          % (m, left))
            ok = m <= left and got.shape[1] == cols
            ctx.check(ok, 'too many rows')
            if not ok:
                return
            ctx.check(ctx.And([got[i, j] == want[pos + i][j]
                               for i in range(m) for j in range(cols)]),
                      'rows differ from the dataset')
            pos += m
        # the rest by iteration
        rest = []
        for got in d:
            for i in range(got.shape[0]):
                rest.append([got[i, j] for j in range(cols)])
            if len(rest) > len(want):
                break
        ctx.check(len(rest) == len(want) - pos, 'iteration gave %d rows, %d '
                  'were left' % (len(rest), len(want) - pos))
        if len(rest) == len(want) - pos:
            ctx.check(ctx.And([rest[i][j] == want[pos + i][j]
                               for i in range(len(rest))
                               for j in range(cols)]),
                      'iterated rows differ from the dataset')
    ctx.observe('sizes', sizes)
    ctx.observe('rest', rest)


def c(n, cols, buf, reads, amount, sub, portions=1):
    return dict(max_n=n, cols=cols, max_buf=buf, reads=reads,
                max_amount=amount, sub=sub, portions=portions)


HARNESSES = [
    Harness('reading', reading,
            quick=[c(6, 1, 4, 2, 4, False, 4), c(5, 2, 3, 3, 3, False),
                   c(5, 1, 4, 2, 3, True), c(4, 2, 3, 1, 2, True, 4)],
            thorough=[c(9, 1, 5, 3, 5, False, 4), c(7, 2, 4, 4, 4, False),
                      c(7, 1, 5, 3, 4, True), c(6, 2, 4, 2, 3, True, 4),
                      c(14, 1, 9, 2, 9, False, 2)]),
]
