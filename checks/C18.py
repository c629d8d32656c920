"""External sort: the key column ends up ordered, rows are permuted, companion
datasets are permuted alike."""
from abxsym.runner import Harness
from checks.C16 import rows_of, as_array

LEVEL = 'model_checking'
BOUNDS = ('1-6 rows (quick) with arbitrary 64-bit keys (ties included), '
          'sorting buffers of 1-6 rows (so 1-6 chunks), or 7-12 rows of '
          'which two have arbitrary keys, with buffers of 4-7 rows; output '
          'buffers of 1-3 rows, 0-2 companion datasets of 1-2 columns of integers or floats; '
          'uint8, int64 and uint64 keys. Sorting of the pairs of a task: 12 '
          'and 40 rows of which two have arbitrary keys, and 930 rows (1300 '
          'in the thorough tier) of which one has an arbitrary small key, '
          'with a memory of half the rows to twice the rows')
OUTSIDE = ('more rows or chunks; sorting buffers so small that a chunk gets '
           'no read buffer (refused by an assertion of the code)')
STUBS = ('h5py (in-memory stand-in), numpy (symbolic stand-in; argsort is '
         'modelled as a stable sort)')
ASSUMPTIONS = ['buffers hold at least one row',
               'rows with equal keys may come out in any order']


def sorting(ctx, max_n, max_buf, max_out, companions, dtype, cols=1,
            min_n=1, sym=None, min_buf=1, part=0):
    hh = ctx.load('ABXpy.h5tools.h5_handler')
    n = min_n + ctx.choose('n', max_n - min_n + 1)
    buf = min_buf + ctx.choose('buf', min(max_buf, n) - min_buf + 1)
    out = 1 + ctx.choose('out', max_out)
    nc = -(-n // buf)
    # the code's own precondition: a read buffer of at least one row per chunk
    if int(round(buf / nc)) < 1:
        ctx.assume(False)
    lo, hi = {'uint8': (0, 255), 'int64': (-2 ** 63, 2 ** 63 - 1),
              'uint64': (0, 2 ** 64 - 1)}[dtype]
    size = 1 if dtype == 'uint8' else 8
    keys = [ctx.int('k%d' % i, lo, hi) if sym is None or i in sym else
            10 * ((i * 5 + 3) % (n - n % 2)) for i in range(n)]
    f = ctx.path('s.h5')
    with ctx.h5py.File(f, 'w') as fh:
        g = fh.create_group('g')
        g.create_dataset('k', data=ctx.np.array(
            [[k] for k in keys], dtype=getattr(ctx.np, dtype)))
        for q in range(companions):
            # the companion identifies its row
            # and needs the type it has
            g.create_dataset('c%d' % q, data=ctx.np.array(
                [[i * 1000 + q + 10 ** 9 * j + part for j in range(cols)]
                 for i in range(n)],
                dtype=ctx.np.float64 if part else ctx.np.int64))
    line = size + companions * cols * 8
    h = hh.H5Handler(f, '/g/', 'k', ['/g/'] * companions,
                     ['c%d' % q for q in range(companions)])
    tmp = ctx.path('tmp')
    import os
    os.mkdir(tmp)
    h.sort(buffer_size=buf * line / 1000., o_buffer_size=out * line / 1000.,
           tmpdir=tmp)
    ctx.check(os.listdir(tmp) == [], 'temporary files were left behind')
    with ctx.h5py.File(f, 'r') as fh:
        ctx.check(sorted(fh['g'].keys()) == sorted(
            ['k'] + ['c%d' % q for q in range(companions)]),
            'datasets were added or lost')
        got = fh['g/k'][...]
        ctx.check(tuple(got.shape) == (n, 1), 'number of keys changed')
        ctx.check(ctx.And([got[i, 0] <= got[i + 1, 0] for i in range(n - 1)]),
                  'keys are not in increasing order')
        if companions == 0:
            # same multiset
            for v in range(n):
                ctx.check(
                    ctx.Sum([ctx.b2i(got[i, 0] == keys[v]) for i in range(n)])
                    == ctx.Sum([ctx.b2i(keys[i] == keys[v])
                                for i in range(n)]),
                    'a key was lost, duplicated or altered')
            ctx.observe('keys', got)
        for q in range(companions):
            cq = fh['g/c%d' % q][...]
            src = [ctx.value(cq[i, 0]) for i in range(n)]
            rows = [(int(s) - q) // 1000 for s in src]
            ctx.check(sorted(rows) == list(range(n)),
                      'companion rows were lost or duplicated')
            if sorted(rows) != list(range(n)):
                return
            ctx.check(ctx.And([cq[i, j] == rows[i] * 1000 + q + 10 ** 9 * j + part
                               for i in range(n) for j in range(cols)]),
                      'companion row was torn')
            ctx.check(ctx.And([got[i, 0] == keys[rows[i]] for i in range(n)]),
                      'companion row is not next to its key')
        ctx.observe('sorted', got)


def pairs(ctx, ns, memory, sym, top=2 ** 40):
    """the pairs of a task, with enough memory for a share of them"""
    task = ctx.load('ABXpy.task')
    n = ns[ctx.choose('n', len(ns))]
    # arbitrary keys, among a few others when there are many
    keys = [ctx.int('k%d' % i, 0, top) if i in sym else
            (i * 389 + 7) % (n - n // 3) for i in range(n)]
    f = ctx.path('s.h5')
    with ctx.h5py.File(f, 'w') as fh:
        fh.create_group('pairs').create_dataset('0', data=ctx.np.array(
            [[k] for k in keys], dtype=ctx.np.int64))
    tmp = ctx.path('tmp')
    import os
    os.mkdir(tmp)
    # in megabytes, for n rows of 8 bytes
    task.sort_pairs(f, 0, memory=memory * n * 8e-6, tmpdir=tmp)
    ctx.check(os.listdir(tmp) == [], 'temporary files were left behind')
    with ctx.h5py.File(f, 'r') as fh:
        got = fh['pairs/0'][...]
    ctx.check(tuple(got.shape) == (n, 1), 'number of keys changed')
    got = [got[i, 0] for i in range(n)]
    ctx.check(ctx.And([a <= b for a, b in zip(got, got[1:])]),
              'keys are not in increasing order')
    ctx.check(ctx.Sum(got) == ctx.Sum(keys), 'a key was lost or altered')
    fixed = [k for i, k in enumerate(keys) if i not in sym]
    for v in sorted(set(fixed))[::max(n // 20, 1)] + [keys[i] for i in sym]:
        ctx.check(ctx.Sum([ctx.b2i(g == v) for g in got]) ==
                  ctx.Sum([ctx.b2i(k == v) for k in keys]),
                  'a key was lost, duplicated or altered')
    ctx.observe('sorted', got)


def c(n, buf, out, comp, dtype, cols=1, min_n=1, sym=None, min_buf=1,
      part=0):
    return dict(max_n=n, max_buf=buf, max_out=out, companions=comp,
                dtype=dtype, cols=cols, min_n=min_n, sym=sym, min_buf=min_buf,
                part=part)


HARNESSES = [
    Harness('sorting', sorting,
            quick=[c(5, 5, 1, 0, 'int64'), c(4, 4, 2, 1, 'uint8', 2),
                   c(4, 4, 2, 2, 'uint64', part=.25), c(5, 3, 2, 1, 'int64', 1, 5),
                   c(8, 6, 2, 2, 'int64', 1, 7, (0, 6), 4),
                   c(12, 7, 2, 1, 'int64', 2, 11, (3, 8), 4)],
            thorough=[c(6, 6, 2, 0, 'int64'), c(5, 5, 2, 1, 'uint8', 2),
                      c(5, 5, 3, 2, 'uint64', part=.25), c(6, 4, 1, 1, 'int64', 1, 6),
                      c(9, 7, 3, 2, 'int64', 1, 7, (0, 3, 6), 4),
                      c(14, 9, 3, 3, 'uint8', 1, 10, (3, 8), 4),
                      c(18, 9, 3, 1, 'int64', 2, 16, (3, 11, 14), 5)]),
    Harness('pairs', pairs, path_timeout=200,
            quick=[dict(ns=[12, 40], memory=2, sym=(0, 5)),
                   dict(ns=[930], memory=.5, sym=(40,), top=1)],
            thorough=[dict(ns=[12, 40], memory=2, sym=(0, 5)),
                      dict(ns=[930], memory=.5, sym=(40,), top=3),
                      dict(ns=[1300], memory=.042, sym=(700,), top=2)]),
]
