"""No count, index or key is silently truncated."""
from abxsym.runner import Harness
from checks.taskspec import *

LEVEL = 'model_checking'
BOUNDS = ('choice of an integer type: every value up to 2**64 + 8, signed or '
          'not, as a Python integer or as any numpy integer type; tasks with '
          '16, 17, 127 to 130 and 255 to 258 items in a block, label columns '
          'with as many levels, 120 to 300 triplets per block, of which a few '
          'labels are arbitrary and most are filtered out or not; scores of triplets on items at both ends of '
          'blocks of 15 to 70000 items, with arbitrary distances; 7 to 9 '
          'regressors (20 in the thorough tier) with 260 levels each')
OUTSIDE = ('tasks with more items (only their scores are decided); the keys '
           'of analysed label combinations and of fused datasets (C15, C24)')
STUBS = ('h5py and pandas.HDFStore are in-memory models; numpy is a symbolic '
         'stand-in with the casting rules of the real one')
ASSUMPTIONS = []
BUDGET = {'quick': 150, 'thorough': 1800}

TOP = {'int8': 127, 'int16': 2 ** 15 - 1, 'int32': 2 ** 31 - 1,
       'int64': 2 ** 63 - 1, 'uint8': 255, 'uint16': 2 ** 16 - 1,
       'uint32': 2 ** 32 - 1, 'uint64': 2 ** 64 - 1}


def types(ctx, dt=None):
    fit = ctx.load('ABXpy.misc.type_fitting').fit_integer_type
    hi = TOP[dt] if dt else 2 ** 64 + 8
    n = ctx.int('n', 0, hi, dt)
    v = int(n) if not ctx.symbolic else n
    signed = ctx.choose('signed', 2) == 1
    try:
        t = fit(n, is_signed=signed)
    except ValueError:
        t = None
    limit = 2 ** 63 if signed else 2 ** 64
    if t is None:
        ctx.check(v >= limit, 'a value that fits in 64 bits is refused')
        ctx.observe('type', None)
        return
    name = ctx.np.dtype(t).name
    ctx.check(name in TOP and name.startswith('u') != signed,
              'type %s, signed=%s' % (name, signed))
    if name in TOP:
        ctx.check(v <= TOP[name], 'type %s cannot hold the value' % name)
    ctx.observe('type', name)


def many_items(ctx, ns, across=True, regs=False, by=False, gaps=0):
    # by: 1, the larger block is the last one; 2, the first one
    """the items that can be in triplets come last, so that their indices are
    the largest ones"""
    n = ns[ctx.choose('n', len(ns))]
    m = 5
    fill = n - m
    on = [0, 1, 0, 1, None]
    ac = [0, 0, 1, 1, None]
    cols = {'on': [ctx.const_label(9)] * fill +
            fixed_labels(ctx, {'on': on})['on']}
    if across:
        cols['ac'] = [ctx.const_label(9)] * fill + \
            fixed_labels(ctx, {'ac': ac})['ac']
    else:
        # without across column the filler takes part: only its B role is
        # possible when it has a single item per label
        cols['on'] = [ctx.const_label(100 + i) for i in range(fill)] + \
            cols['on'][fill:]
    if regs:
        cols['d'] = list(range(n))
    if by:
        # a second, small block
        cols['by'] = [2 - by] * n + [by - 1] * 4
        cols['on'] += [ctx.const_label(v) for v in (0, 1, 0, 1)]
        cols['ac'] += [ctx.const_label(v) for v in (0, 0, 1, 1)]
        if regs:
            cols['d'] += list(range(4))
    filters = None
    if gaps:
        # a filter leaves few items, with large indices; `gaps` of them are
        # not in triplets
        cols['e'] = [0] * (fill - gaps) + [1] * (m + gaps)
        filters = ['[v == 1 for v in e]']
    it = Items(ctx, len(cols['on']), cols)
    names = {'d_A': ('d', 'a'), 'd_B': ('d', 'b'), 'd_X': ('d', 'x')}
    r = generate(ctx, it, 'on', ['ac'] if across else None,
                 ['by'] if by else None, filters,
                 regressors=sorted(names) if regs else None, want_regs=regs)
    among = list(range(fill, it.n))
    if across:
        check_triplets(ctx, it, r, 'on', ['ac'], ['by'] if by else None,
                       among=among)
    else:
        for p in r.problems:
            ctx.fail(p)
        s = set(r.triplets)
        ctx.check(len(s) == len(r.triplets), 'a triplet is listed twice')
        want = []
        for a in among:
            for x in among:
                same = ctx.And(a != x, cols['on'][a] == cols['on'][x])
                got = sorted(t[1] for t in s if (t[0], t[2]) == (a, x))
                ctx.check(ctx.Iff(same, bool(got)) if got else ctx.Not(
                    ctx.And(same, True)), 'triplets of (%d, %d)' % (a, x))
                if got:
                    for b in range(it.n):
                        want.append(ctx.Iff(b in got, ctx.Not(
                            cols['on'][a] == cols['on'][b])))
        ctx.check(ctx.And(want), 'a triplet is missing or not valid')
    check_pairs(ctx, r)
    if regs:
        names = dict(names)
        names['on_1'], names['on_2'] = ('on', 'a'), ('on', 'b')
        names['ac_1'], names['ac_2'] = ('ac', 'a'), ('ac', 'x')
        check_regressors(ctx, it, r, names)
    ctx.observe('rows', sorted(map(tuple, r.rows))[:10])


def many_triplets(ctx, na, nb, nx, by=1):
    """blocks with about 128 or 256 triplets"""
    on, ac = [], []
    for k in range(by):
        on += [0] * na + [1] * nb + [0] * nx
        ac += [0] * na + [0] * nb + [1] * nx
    on[-1] = None
    cols = fixed_labels(ctx, {'on': on, 'ac': ac})
    n = na + nb + nx
    if by > 1:
        cols['by'] = [i // n for i in range(n * by)]
    it = Items(ctx, n * by, cols)
    r = generate(ctx, it, 'on', ['ac'], ['by'] if by > 1 else None)
    check_triplets(ctx, it, r, 'on', ['ac'], ['by'] if by > 1 else None)
    check_pairs(ctx, r)
    ctx.observe('n', [r.n_rows, r.index])


def big_scores(ctx, bases):
    """scores when the items of a block have large indices"""
    score = ctx.load('ABXpy.score')
    base = bases[ctx.choose('base', len(bases))]
    idx = [0, base - 1, base // 2]
    trip = [(a, b, x) for a in idx for b in idx for x in idx
            if len({a, b, x}) == 3]
    keys = sorted({p + base * t[2] for t in trip for p in t[:2]})
    d = [ctx.real('d%d' % i, 0, 10) for i in range(len(keys))]
    fit = ctx.load('ABXpy.misc.type_fitting').fit_integer_type
    tf, df, sf = ctx.path('t.abx'), ctx.path('d.dist'), ctx.path('s.score')
    with ctx.h5py.File(tf, 'w') as fh:
        fh.create_dataset('bys', (1,),
                          dtype=ctx.h5py.special_dtype(vlen=str))
        fh['bys'][:] = ['0']
        g = fh.create_group('triplets')
        g.create_dataset('data', data=ctx.np.array(trip, dtype=fit(base - 1)))
        g.create_dataset('by_index', data=ctx.np.array(
            [[0, len(trip)]], dtype=ctx.np.int8))
        g = fh.create_group('unique_pairs')
        g.create_dataset('data', data=ctx.np.array(
            [[k] for k in keys], dtype=ctx.np.int64))
        g.attrs['0'] = (base, 0, len(keys))
    with ctx.h5py.File(df, 'w') as fh:
        fh.create_group('distances').create_dataset(
            'data', data=ctx.np.array([[v] for v in d],
                                      dtype=ctx.np.float64))
    score.score(tf, df, sf)
    with ctx.h5py.File(sf, 'r') as fh:
        got = fh['scores'][...]
    where = {k: v for k, v in zip(keys, d)}
    ok = []
    for i, (a, b, x) in enumerate(trip):
        da, db = where[a + base * x], where[b + base * x]
        ok.append(ctx.And(ctx.Iff(got[i, 0] == 1, da < db),
                          ctx.Iff(got[i, 0] == -1, da > db),
                          ctx.Iff(got[i, 0] == 0, da == db)))
    ctx.check(ctx.And(ok), 'the score of a triplet is not the one of its pairs')
    ctx.observe('scores', got)


def wide_keys(ctx, lo, hi, n=260):
    """combinations of regressors that may not fit in 64 bits: an error, or
    the groups are still told apart"""
    k = lo + ctx.choose('k', hi - lo + 1)
    nB = 6
    on = [ctx.const_label(9)] * (n - nB - 2) + [0, 0] + [1] * nB
    ac = [ctx.const_label(9)] * (n - nB - 2) + [0, 1] + [0] * nB
    cols = {'on': on, 'ac': ac}
    # the B items differ on the first column only, or on the last only
    first = ctx.choose('first', 2)
    for j in range(k):
        vary = j == (0 if first else k - 1)
        cols['d%d' % j] = list(range(n - nB)) + [
            n - nB + (i if vary else nB - 1) for i in range(nB)]
    it = Items(ctx, n, cols)
    ctx.stub_rng()
    try:
        r = generate(ctx, it, 'on', ['ac'], None, threshold=1, seed=0,
                     regressors=['d%d_B' % j for j in range(k)])
    except Exception as e:
        ctx.check(k >= 7, '%s with %d regressors' % (type(e).__name__, k))
        ctx.observe('outcome', 'error')
        return
    check_triplets(ctx, it, r, 'on', ['ac'], None,
                   among=list(range(n - nB - 2, n)))
    ctx.observe('outcome', sorted(r.triplets))


HARNESSES = [
    Harness('wide_keys', wide_keys, quick=[dict(lo=7, hi=9)],
            thorough=[dict(lo=1, hi=20)]),
    Harness('types', types,
            quick=[dict()] + [dict(dt=t) for t in sorted(TOP)]),
    Harness('many_items', many_items,
            quick=[dict(ns=[127, 128, 129, 130]), dict(ns=[255, 256, 257, 258]),
                   dict(ns=[16, 17], across=False),
                   dict(ns=[256, 257, 258], gaps=1),
                   dict(ns=[20, 257], by=2),
                   dict(ns=[128, 256, 257], regs=True, by=1)],
            thorough=[dict(ns=[126, 127, 128, 129, 130, 131], by=1),
                      dict(ns=[254, 255, 256, 257, 258, 259], by=1),
                      dict(ns=[15, 16, 17, 18, 127, 128, 129], across=False),
                      dict(ns=[127, 128, 129, 255, 256, 257, 258], regs=True,
                           by=1),
                      dict(ns=[20, 130, 258], by=2, regs=True),
                      dict(ns=[128, 129, 256, 257, 258], gaps=2, regs=True)],
            path_timeout=200),
    Harness('many_triplets', many_triplets,
            quick=[dict(na=1, nb=8, nx=17), dict(na=4, nb=8, nx=9),
                   dict(na=5, nb=5, nx=6, by=2)],
            thorough=[dict(na=1, nb=8, nx=17), dict(na=4, nb=8, nx=9),
                      dict(na=7, nb=7, nx=6), dict(na=5, nb=5, nx=6, by=2),
                      dict(na=5, nb=5, nx=6, by=3)], path_timeout=200),
    Harness('big_scores', big_scores,
            quick=[dict(bases=[15, 16, 17, 127, 128, 129, 255, 256, 257, 65535,
                               65536, 65537, 70000])]),
]
