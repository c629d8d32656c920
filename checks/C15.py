"""The table of results has exact counts and means."""
from abxsym.runner import Harness
from checks.taskspec import Items, fixed_labels, generate

LEVEL = 'model_checking'
BOUNDS = ('one by value with 3 triplets (4 in the thorough tier), 1 to 3 '
          'regressors of 2 or 3 levels and arbitrary scores; three by values '
          'with 1 to 7 triplets; groups of up to 270 triplets of which 4 have '
          'arbitrary scores; regressors of 2 to 65536 levels, up to 5 of '
          'them, on both sides of the limits of the integer types and of '
          'floats; tasks of 5 to 7 items (2 arbitrary labels) generated by '
          'the code itself with default and explicit regressors, with '
          'arbitrary scores')
OUTSIDE = ('more triplets; labels with tabs or newlines; rounding of the '
           'means beyond 1e-9')
STUBS = ('h5py is an in-memory model; the text of a symbolic value is a token '
         'for that value')
ASSUMPTIONS = []
BUDGET = {'quick': 150, 'thorough': 1800}


def task_file(ctx, blocks, names, levels, dtype, shared=True):
    """blocks: [(by, rows of indices)]"""
    np, h5py = ctx.np, ctx.h5py
    p = ctx.path('task.abx')
    text = h5py.special_dtype(vlen=str)
    with h5py.File(p, 'w') as fh:
        fh.create_dataset('bys', (len(blocks),), dtype=text)
        fh['bys'][:] = [b[0] for b in blocks]
        ix, pos = [], 0
        for by, rows in blocks:
            ix.append([pos, pos + len(rows)])
            pos += len(rows)
        fh.create_group('triplets').create_dataset(
            'by_index', data=np.array(ix, dtype=np.int64))
        r = fh.create_group('regressors')
        for by, rows in blocks:
            g = r.create_group(by)
            g.create_dataset('indexed_datasets', (len(names),), dtype=text)
            g['indexed_datasets'][:] = names
            g.create_dataset('indexed_data', data=np.array(rows, dtype=dtype))
            h = g.create_group('indexes')
            for n in names:
                h.create_dataset(n, data=np.array(levels[n]))
    return p


def score_file(ctx, vals):
    p = ctx.path('out.score')
    with ctx.h5py.File(p, 'w') as fh:
        fh.create_dataset('scores', data=ctx.np.array(
            [[v] for v in vals], dtype=ctx.np.int8))
    return p


def scores(ctx, n, fixed=None, fill=None):
    """arbitrary scores, except when there are many"""
    return [ctx.int('s%d' % i, -1, 1) if fixed is None or i in fixed else
            (i * 5 + i // 3) % 3 - 1 if fill is None else fill
            for i in range(n)]


def results(ctx, task, score):
    m = ctx.load('ABXpy.analyze')
    out = ctx.path('out.csv')
    ctx.symbolic_text()
    m.analyze(task, score, out)
    return ctx.table(out)


def judge(ctx, table, names, want):
    """want: [(labels, by, score)] for each triplet"""
    ctx.check(len(table) > 0 and table[0] == names + ['by', 'score', 'n'],
              'the header is %s' % (table[:1],))
    ctx.check(table[-1] == [''], 'the last line is not complete')
    rows = table[1:-1]
    k = len(names)
    ctx.check(all(len(r) == k + 3 for r in rows), 'rows of the wrong length')
    if not all(len(r) == k + 3 for r in rows):
        return
    bys = sorted(set(b for l, b, s in want))
    ctx.check(all(str(r[k]) in bys for r in rows), 'unknown by values')

    def same(r, labels, by):
        if str(r[k]) != str(by):
            return False
        return ctx.And([u == v for u, v in zip(r, labels)])
    bad = []
    for i, r in enumerate(rows):
        for q in rows[:i]:
            bad.append(same(r, q[:k], q[k]))
    ctx.check(ctx.Not(ctx.Or(bad)), 'two rows for the same labels')
    bad = []
    for labels, by, s in want:
        bad.append(ctx.Not(ctx.Or([same(r, labels, by) for r in rows])))
    ctx.check(ctx.Not(ctx.Or(bad)), 'the triplets of some labels have no row')
    cs, ms = [], []
    for r in rows:
        here = [(ctx.b2i(same(r, labels, by)), s) for labels, by, s in want]
        n = ctx.Sum([b for b, s in here])
        cs.append(r[k + 2] == n)
        cs.append(n > 0)
        total = ctx.Sum([ctx.If(b == 1, s, 0) for b, s in here])
        # mean = (total / n + 1) / 2
        e = r[k + 1] * n * 2 - (total + n)
        ms.append(ctx.And(e <= 1e-9, e >= -1e-9))
    ctx.check(ctx.And(cs), 'a row has a wrong number of triplets')
    ctx.check(ctx.And(ms), 'a row has a wrong mean')
    ctx.observe('table', [list(r) for r in rows])


def at(ctx, values, i):
    r = values[-1]
    for k in range(len(values) - 2, -1, -1):
        r = ctx.If(i == k, values[k], r)
    return r


LEVELS = [[70, 40, 90], [5, 8, 2], [11, 10, 12]]


def small(ctx, n, dims, blocks=1):
    names = ['on_1', 'zz', 'ac'][:len(dims)]
    levels = {m: LEVELS[j][:dims[j]] for j, m in enumerate(names)}
    rows = [[ctx.int('i%d_%d' % (i, j), 0, dims[j] - 1)
             for j in range(len(dims))] for i in range(n)]
    s = scores(ctx, n)
    bs = [('b', rows)] if blocks == 1 else [('b', rows[:1]), ('a', rows[1:])]
    by = ['b'] * n if blocks == 1 else ['b'] + ['a'] * (n - 1)
    t = results(ctx, task_file(ctx, bs, names, levels, ctx.np.uint8),
                score_file(ctx, s))
    judge(ctx, t, names, [([at(ctx, levels[m], v) for m, v in zip(names, r)],
                           b, x) for r, b, x in zip(rows, by, s)])


def several(ctx, sizes, dims, fill=None):
    """many triplets"""
    names = ['on_1', 'zz', 'ac'][:len(dims)]
    levels = {m: LEVELS[j][:dims[j]] for j, m in enumerate(names)}
    bs, want = [], []
    n = sum(sizes)
    s = scores(ctx, n, [0, 2, n // 2, n - 1], fill)
    v = 1
    for b, k in enumerate(sizes):
        rows = []
        for i in range(k):
            r = []
            for d in dims:
                v = (v * 25 + 7) % 1009
                r.append(v // 7 % d)
            rows.append(r)
            want.append(([levels[m][u] for m, u in zip(names, r)],
                         'by%d' % (9 - b), s[len(want)]))
        bs.append(('by%d' % (9 - b), rows))
    t = results(ctx, task_file(ctx, bs, names, levels, ctx.np.uint8),
                score_file(ctx, s))
    judge(ctx, t, names, want)


def limits(ctx, dims, n=4):
    """numbers of combinations at the limits of the integer types"""
    from abxsym import core
    np = ctx.np
    dims = dims[ctx.choose('dims', len(dims))]
    names = ['r%d' % j for j in range(len(dims))]
    levels = {m: list(range(1000, 1000 + d)) for m, d in zip(names, dims)}
    big = max(dims)
    dtype = np.uint8 if big < 256 else np.uint16 if big < 65536 else np.uint32
    rows = [[d - 1 for d in dims], [0 for d in dims],
            [d - 1 for d in dims[:-1]] + [dims[-1] - 2],
            [max(dims[0] - 2, 0)] + [d - 1 for d in dims[1:]],
            [d - 1 for d in dims], [d // 2 for d in dims]]
    k = ctx.choose('first', n)
    rows = rows[k:] + rows[:k]
    s = scores(ctx, len(rows))
    total = 1
    for d in dims:
        total *= d
    try:
        t = results(ctx, task_file(ctx, [('b', rows)], names, levels, dtype),
                    score_file(ctx, s))
    except (AssertionError, ValueError, OverflowError):
        ctx.check(total >= 2 ** 64 - 1, 'labels with %d combinations are '
                  'refused' % total)
        return
    judge(ctx, t, names, [([levels[m][u] for m, u in zip(names, r)], 'b', x)
                          for r, x in zip(rows, s)])


REGS = [(None, []), (['d_X'], [('d_X', 'd', 'x')]),
        (['d_A', 'd_B'], [('d_A', 'd', 'a'), ('d_B', 'd', 'b')])]


def whole(ctx, regs, on, ac, by, d):
    n = len(on)
    it = Items(ctx, n, fixed_labels(ctx, {'on': on, 'ac': ac, 'by': by,
                                          'd': d}))
    given, expect = REGS[ctx.choose('regs', regs)]
    r = generate(ctx, it, 'on', ['ac'], ['by'], regressors=given,
                 want_regs=True)
    for p in r.problems:
        ctx.fail(p)
    if r.problems or not r.rows:
        return
    expect = expect + [('on_1', 'on', 'a'), ('on_2', 'on', 'b'),
                       ('ac_1', 'ac', 'a'), ('ac_2', 'ac', 'x')]
    with ctx.h5py.File(r.out, 'r') as fh:
        names = [v if isinstance(v, str) else v.decode() for v in
                 fh['regressors'][r.bys[0]]['indexed_datasets'][...]]
    ctx.check(sorted(names) == sorted(e[0] for e in expect),
              'the regressors are %s' % names)
    expect = [[e for e in expect if e[0] == m][0] for m in names]
    s = scores(ctx, len(r.rows), None if len(r.rows) < 5 else
               range(0, len(r.rows), 3))
    t = results(ctx, r.out, score_file(ctx, s))
    judge(ctx, t, names, [([it.cols[c][dict(zip('abx', abx))[w]]
                            for m, c, w in expect], b, x)
                          for abx, b, x in zip(r.triplets, r.by_of, s)])


HARNESSES = [
    Harness('small', small,
            quick=[dict(n=3, dims=[2, 2]), dict(n=3, dims=[3]),
                   dict(n=3, dims=[2, 2], blocks=2)],
            thorough=[dict(n=4, dims=[2, 2]), dict(n=4, dims=[3]),
                      dict(n=3, dims=[2, 2, 2]), dict(n=3, dims=[3, 2]),
                      dict(n=4, dims=[2, 2], blocks=2)]),
    Harness('several', several,
            quick=[dict(sizes=[1, 7, 4], dims=[2, 2]),
                   dict(sizes=[9, 12], dims=[3, 2, 2]),
                   dict(sizes=[3, 140], dims=[1], fill=1),
                   dict(sizes=[270], dims=[1, 1], fill=-1)],
            thorough=[dict(sizes=[1, 7, 4], dims=[2, 2]),
                      dict(sizes=[30, 1, 50], dims=[3, 3, 3]),
                      dict(sizes=[600, 1], dims=[2], fill=1),
                      dict(sizes=[270], dims=[1, 1], fill=-1)]),
    Harness('limits', limits,
            quick=[dict(dims=[[255], [256], [257], [15, 17], [16, 16],
                              [16, 17], [255, 257], [256, 256], [257, 256],
                              [65535], [65536], [65537], [65537, 65536],
                              [65536] * 2, [65535] * 3, [65536, 65536, 4096],
                              [30000, 65536, 65537, 3]]),
                   dict(dims=[[65535] * 4, [65536] * 4, [65537] * 4], n=1)],
            thorough=[dict(dims=[[255], [256], [257], [15, 17], [16, 16],
                                 [16, 17], [255, 257], [256, 256], [257, 256],
                                 [65535], [65536], [65537], [65537, 65536],
                                 [65536] * 2, [65535] * 3,
                                 [65536, 65536, 4096],
                                 [65536, 65536, 2, 65536],
                                 [65535, 65535, 65536, 65535],
                                 [30000, 65536, 65537, 3], [2] * 63,
                                 [3] * 40, [2] * 65, [256] * 8, [16] * 16,
                                 [255] * 8])]),
    Harness('whole', whole,
            quick=[dict(regs=3, on=[0, 1, 0, 0, None], ac=[0, 0, 1, 1, None],
                        by=[0, 0, 0, 0, 0], d=[0, 1, 1, 0, 1]),
                   dict(regs=2, on=[0, 0, 1, 1, 0, 0, None],
                        ac=[0, 0, 0, 0, 1, 1, 1],
                        by=[0, 1, 0, 1, 0, 1, 1], d=[0, 0, 0, 1, 1, 0, 1])],
            thorough=[dict(regs=3, on=[0, 1, 0, None, None],
                           ac=[0, 0, 1, None, None], by=[0, 0, 0, 0, 0],
                           d=[0, 1, 1, None, 1]),
                      dict(regs=2, on=[0, 0, 1, 1, 0, 0, None, None],
                           ac=[0, 0, 0, 0, 1, 1, 1, None],
                           by=[0, 1, 0, 1, 0, 1, 1, 0],
                           d=[0, 0, 0, 1, 1, 0, 1, None])]),
]
