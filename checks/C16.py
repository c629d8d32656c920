"""Buffered writing to HDF5 datasets loses, reorders and alters nothing."""
from abxsym.runner import Harness

LEVEL = 'model_checking'
BOUNDS = ('up to 3 writes of 0-4 rows each (symbolic batch sizes), 1-2 '
          'columns, buffers of 1-4 rows, int64/uint8/float64 items with '
          'unconstrained values, fixed and growing datasets, 1-2 datasets in '
          'one file, overwriting or fresh, over datasets of the same or another '
          'type and shape, '
          'buffers flushed or not between the writes')
OUTSIDE = ('more writes or rows than stated; the HDF5 library itself '
           '(in-memory stand-in with its clipping and broadcasting rules); '
           'buffers smaller than one row')
STUBS = 'h5py (in-memory stand-in), numpy (symbolic stand-in)'
ASSUMPTIONS = ['buffers hold at least one row']

ITEM = {'int64': 8, 'uint8': 1, 'float64': 8}


def rows_of(ctx, tag, n, cols, dtype):
    out = []
    for i in range(n):
        r = []
        for j in range(cols):
            nm = '%s_%d_%d' % (tag, i, j)
            if dtype == 'float64':
                r.append(ctx.real(nm, -1000, 1000))
            elif dtype == 'uint8':
                r.append(ctx.int(nm, 0, 255))
            else:
                r.append(ctx.int(nm, -2 ** 63, 2 ** 63 - 1))
        out.append(r)
    return out


def as_array(ctx, rows, cols, dtype):
    dt = getattr(ctx.np, dtype)
    if not rows:
        return ctx.np.zeros((0, cols), dtype=dt)
    return ctx.np.array(rows, dtype=dt)


def same_rows(ctx, got, want, cols, what):
    ctx.check(tuple(got.shape) == (len(want), cols),
              '%s: shape %s, %d rows were written' % (what, tuple(got.shape),
                                                      len(want)))
    if tuple(got.shape) != (len(want), cols):
        return
    ctx.check(ctx.And([got[i, j] == want[i][j] for i in range(len(want))
                       for j in range(cols)]),
              '%s: rows differ from what was written' % what)


def roundtrip(ctx, dtype, cols, fixed, max_writes, max_rows, max_buf,
              two=False, overwrite=False, flush=False):
    np2h5 = ctx.load('ABXpy.h5tools.np2h5')
    nw = ctx.choose('n_writes', max_writes + 1)
    sizes = [ctx.choose('size%d' % i, max_rows + 1) for i in range(nw)]
    buf = 1 + ctx.choose('buf', max_buf)
    total = sum(sizes)
    batches = [rows_of(ctx, 'w%d' % i, s, cols, dtype)
               for i, s in enumerate(sizes)]
    want = [r for b in batches for r in b]
    if fixed and total == 0:
        ctx.assume(False)
    f = ctx.path('out.h5')
    dt = getattr(ctx.np, dtype)
    kb = buf * cols * ITEM[dtype] / 1000.
    if overwrite:
        with ctx.h5py.File(f, 'w') as fh:
            g = fh.create_group('g')
            g.create_dataset('d', (total, cols), dtype=dt)
    extra = [[ctx.int('x%d' % i, 0, 9)] for i in range(2)] if two else None
    with np2h5.NP2H5(f) as fh:
        n_rows = total if fixed else 0
        d = fh.add_dataset('g', 'd', n_rows=n_rows, n_columns=cols,
                           chunk_size=kb, buf_size=kb, item_type=dt,
                           overwrite=overwrite, fixed_size=fixed)
        if two:
            e = fh.add_dataset('g', 'e', n_rows=2, n_columns=1,
                               buf_size=0.016)
            e.write(as_array(ctx, extra[:1], 1, 'int64'))
        for i, b in enumerate(batches):
            d.write(as_array(ctx, b, cols, dtype))
            if flush and ctx.choose('flush%d' % i, 2):
                d.flush()
        if two:
            e.write(as_array(ctx, extra[1:], 1, 'int64'))
    with ctx.h5py.File(f, 'r') as fh:
        got = fh['g/d'][...]
        same_rows(ctx, got, want, cols, 'dataset')
        ctx.check(str(got.dtype) == dtype, 'dataset type changed')
        if two:
            same_rows(ctx, fh['g/e'][...], extra, 1, 'second dataset')
        ctx.observe('got', got)


def bookkeeping(ctx, max_rows, declared):
    """a fixed size dataset that was not filled exactly, an existing dataset,
    an error inside the with block: none passes silently"""
    np2h5 = ctx.load('ABXpy.h5tools.np2h5')
    n = ctx.choose('n', max_rows + 1)
    buf = 1 + ctx.choose('buf', 3)
    v = rows_of(ctx, 'w', n, 1, 'int64')
    f = ctx.path('out.h5')
    outcome = 'ok'
    kind = ctx.choose('kind', 3)
    try:
        if kind == 1:
            with ctx.h5py.File(f, 'w') as fh:
                fh.create_group('g').create_dataset('d', data=as_array(
                    ctx, [[7]], 1, 'int64'))
        with np2h5.NP2H5(f) as fh:
            d = fh.add_dataset('g', 'd', n_rows=declared, n_columns=1,
                               buf_size=buf * 8 / 1000.)
            d.write(as_array(ctx, v, 1, 'int64'))
            if kind == 2:
                raise KeyError('from the caller')
    except Warning:
        outcome = 'incomplete'
    except KeyError as e:
        outcome = 'caller' if 'from the caller' in str(e) else 'key'
    except Exception as e:
        outcome = type(e).__name__
    ctx.observe('outcome', outcome)
    if kind == 1:
        ctx.check(outcome not in ('ok', 'incomplete'),
                  'an existing dataset was accepted')
        with ctx.h5py.File(f, 'r') as fh:
            got = fh['g/d'][...]
            ctx.check(tuple(got.shape) == (1, 1) and bool(got[0, 0] == 7),
                      'an existing dataset was modified')
    elif kind == 2 and n <= declared:
        ctx.check(outcome == 'caller', 'the error of the caller was replaced '
                  'by ' + outcome)
    elif kind == 2:
        ctx.check(outcome != 'ok', 'error swallowed')
    elif n == declared:
        ctx.check(outcome == 'ok', 'complete dataset reported ' + outcome)
    else:
        ctx.check(outcome != 'ok', '%d rows in a dataset declared with %d '
                  'passed silently' % (n, declared))


def overwriting(ctx):
    """an existing dataset that cannot hold the rows is refused"""
    np2h5 = ctx.load('ABXpy.h5tools.np2h5')
    kinds = ['int64', 'uint8', 'float64', 'int8', 'uint64']
    old = kinds[ctx.choose('old', len(kinds))]
    new = kinds[ctx.choose('new', 3)]
    n = 1 + ctx.choose('n', 3)
    cols = 1 + ctx.choose('cols', 2)
    v = rows_of(ctx, 'w', 2, 1, new)
    f = ctx.path('out.h5')
    with ctx.h5py.File(f, 'w') as fh:
        fh.create_group('g').create_dataset('d', data=as_array(
            ctx, [[7] * cols] * n, cols, old))
    try:
        with np2h5.NP2H5(f) as fh:
            d = fh.add_dataset('g', 'd', n_rows=2, n_columns=1, buf_size=.008,
                               item_type=getattr(ctx.np, new), overwrite=True)
            d.write(as_array(ctx, v, 1, new))
        ok = True
    except Exception:
        ok = False
    ctx.check(ok or (old, n, cols) != (new, 2, 1), 'overwriting is refused')
    with ctx.h5py.File(f, 'r') as fh:
        got = fh['g/d'][...]
    if ok:
        same_rows(ctx, got, v, 1, 'dataset')
    else:
        ctx.check(tuple(got.shape) == (n, cols) and bool(
            (got == 7).all()), 'a dataset that is refused was changed')
    ctx.observe('ok', ok)


def c(dtype, cols, fixed, w, r, b, **k):
    return dict(dtype=dtype, cols=cols, fixed=fixed, max_writes=w, max_rows=r,
                max_buf=b, **k)


HARNESSES = [
    Harness('roundtrip', roundtrip,
            quick=[c('int64', 1, True, 3, 3, 3), c('int64', 2, False, 3, 3, 3),
                   c('float64', 1, False, 2, 4, 4),
                   c('uint8', 2, True, 2, 4, 4),
                   c('int64', 1, True, 2, 3, 3, two=True),
                   c('int64', 2, True, 2, 4, 3, overwrite=True),
                   c('int64', 1, False, 3, 2, 3, flush=True),
                   c('int64', 1, True, 3, 2, 3, flush=True)],
            thorough=[c('int64', 1, True, 4, 4, 5),
                      c('int64', 2, False, 4, 4, 5),
                      c('float64', 2, False, 3, 6, 6),
                      c('uint8', 3, True, 3, 6, 6),
                      c('int64', 1, False, 3, 4, 4, two=True),
                      c('int64', 2, True, 4, 4, 4, overwrite=True),
                      c('int64', 1, False, 2, 12, 9),
                      c('int64', 2, False, 4, 3, 3, flush=True),
                      c('uint8', 1, True, 4, 3, 3, flush=True)]),
    Harness('overwriting', overwriting, quick=[dict()]),
    Harness('bookkeeping', bookkeeping,
            quick=[dict(max_rows=4, declared=2), dict(max_rows=4, declared=3)],
            thorough=[dict(max_rows=7, declared=d) for d in (1, 2, 3, 4, 5)]),
]
