"""The jobs of the distance computation cover every pair exactly once."""
from abxsym.runner import Harness

LEVEL = 'model_checking'
BOUNDS = ('3 by values (4 in the thorough tier) of any sizes adding up to 1 to '
          '6, 100, 1001 or 300000 pairs (also 2 to 12, 10**6 in the thorough '
          'tier), 1 to 5 cpus (7); 6 to 12 by values of given sizes, one of '
          'them arbitrary; blocks limited to 10**6 bytes in some runs')
OUTSIDE = ('more cpus; more by values of arbitrary sizes; how balanced the '
           'jobs are')
STUBS = ('h5py is an in-memory model; numpy is a symbolic stand-in with the '
         'casting rules of the real one')
ASSUMPTIONS = ['the pairs of a by value are consecutive rows, as the task '
               'writes them']
BUDGET = {'quick': 150, 'thorough': 1800}


def whole(v):
    import numpy as np
    from abxsym import core
    if isinstance(v, core.SNum):
        return v.k == 'i'
    return isinstance(v, (int, np.integer)) and not isinstance(v, bool)


def pair_file(ctx, names, sizes, total):
    np, h5py = ctx.np, ctx.h5py
    p = ctx.path('task.abx')
    with h5py.File(p, 'w') as fh:
        fh.create_dataset('bys', (len(names),),
                          dtype=h5py.special_dtype(vlen=str))
        fh['bys'][:] = names
        g = fh.create_group('unique_pairs')
        g.create_dataset('data', shape=(total, 1), dtype=np.int64)
        pos = 0
        for n, s in zip(names, sizes):
            g.attrs[n] = (10, pos, pos + s)
            pos = pos + s
    return p


def partition(ctx, names, sizes, total, n_cpu, buf):
    m = ctx.load('ABXpy.distances.distances')
    p = pair_file(ctx, names, sizes, total)
    d = ctx.path('out.distance')
    kw = {} if buf is None else {'buffer_max_size': buf}
    jobs = m.create_distance_jobs(p, d, n_cpu, **kw)
    parts = {n: [] for n in names}
    out = []
    # a single cpu only runs the first job
    for j, job in enumerate(jobs[:1] if n_cpu == 1 else jobs):
        n = len(job['by'])
        ctx.check(len(job['start']) == n and len(job['stop']) == n,
                  'a job has %d blocks, %d starts and %d stops' % (
                      n, len(job['start']), len(job['stop'])))
        for b, s, e in zip(job['by'], job['start'], job['stop']):
            b = b.decode() if isinstance(b, bytes) else str(b)
            ctx.check(whole(s) and whole(e), 'a range of job %d is not whole '
                      'numbers' % j)
            ctx.check(b in parts, 'unknown by value in job %d' % j)
            if b in parts:
                parts[b].append((s, e))
            out.append((j, b, s, e))
    for n, size in zip(names, sizes):
        ps = parts[n]
        ctx.check(ctx.And([ctx.And(s >= 0, s <= e, e <= size)
                           for s, e in ps]),
                  'a range is not inside its by value')
        ctx.check(ctx.And([ctx.Or(ps[i][1] <= ps[k][0], ps[k][1] <= ps[i][0])
                           for i in range(len(ps)) for k in range(i)]),
                  'a pair is in two jobs')
        ctx.check(ctx.Sum([e - s for s, e in ps]) == size,
                  'a pair is in no job')
    with ctx.h5py.File(d, 'r') as fh:
        ctx.check(tuple(fh['distances/data'].shape) == (total, 1),
                  'the distances do not have one row per pair')
        ctx.check(not bool(fh.attrs['done']),
                  'marked as done before it is computed')
    ctx.observe('jobs', out)


def jobs(ctx, totals, nby, cpus, buf=None):
    total = totals[ctx.choose('total', len(totals))]
    n_cpu = cpus[ctx.choose('n_cpu', len(cpus))]
    # (not in the order of the names)
    names = ['b%d' % (nby - i) for i in range(nby)]
    sizes = [ctx.int('s%d' % i, 0, total) for i in range(nby)]
    ctx.assume(ctx.Sum(sizes) == total)
    partition(ctx, names, sizes, total, n_cpu, buf)


def many(ctx, sizes, cpus, buf=None):
    """many blocks, the sizes of two of them being arbitrary"""
    total = sum(sizes)
    n_cpu = cpus[ctx.choose('n_cpu', len(cpus))]
    sizes = list(sizes)
    i, j = 1, len(sizes) - 2
    both = sizes[i] + sizes[j]
    sizes[i] = ctx.int('s', 0, both)
    sizes[j] = both - sizes[i]
    partition(ctx, ['b%d' % (i * 7 % 13) for i in range(len(sizes))], sizes,
              total, n_cpu, buf)


HARNESSES = [
    Harness('jobs', jobs,
            quick=[dict(totals=[1, 2, 3, 4, 5, 6], nby=2, cpus=[1, 2, 3, 4, 5]),
                   dict(totals=[5, 100, 1001], nby=3, cpus=[1, 2, 3]),
                   dict(totals=[300000], nby=2, cpus=[1, 2], buf=1)],
            thorough=[dict(totals=list(range(1, 13)), nby=3,
                           cpus=[1, 2, 3, 4, 5, 6, 7]),
                      dict(totals=[100, 1001], nby=4, cpus=[1, 2, 3, 4]),
                      dict(totals=[300000, 10 ** 6], nby=2,
                           cpus=[1, 2, 3], buf=1)]),
    Harness('many', many,
            quick=[dict(sizes=[3, 1, 4, 1, 5, 9, 2, 6], cpus=[2, 3, 4, 8]),
                   dict(sizes=[1, 20, 0, 30, 1, 1], cpus=[1, 3, 5])],
            thorough=[dict(sizes=[3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8],
                           cpus=[2, 3, 4, 5, 8, 16]),
                      dict(sizes=[1, 20, 0, 30, 1, 1], cpus=[1, 3, 5, 7])]),
]
