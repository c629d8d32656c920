"""The statistics of a task agree with its triplets."""
import io
import warnings
from abxsym.runner import Harness
from checks.taskspec import *
from checks.C01 import ARR as SHAPES

LEVEL = 'model_checking'
BOUNDS = ('3 or 4 items with every assignment of labels, or 6 to 9 items in '
          'larger blocks of which one to three have arbitrary labels; 0 to 3 '
          'across columns, 0 to 2 by columns; no filter, generic, by, '
          'on/across, singleton and triplet filters')
OUTSIDE = ('more items; numbers of pairs with several across columns or with '
           'filters, numbers of levels with filters (documented as '
           'approximate or unsupported); approximate mode')
STUBS = ('h5py and pandas.HDFStore are in-memory models; pandas itself runs '
         'for real on the symbolic labels')
ASSUMPTIONS = ['labels are compared only by equality and order']
BUDGET = {'quick': 150, 'thorough': 2400}

FILTERS = {
    'generic': ('[v == 1 for v in d]', lambda C, ctx, a, b, x: ctx.And(
        [C['d'][q] == 1 for q in (a, b, x)])),
    'A': ('[v == 1 for v in d_A]', lambda C, ctx, a, b, x: C['d'][a] == 1),
    'B': ('[v == 1 for v in d_B]', lambda C, ctx, a, b, x: C['d'][b] == 1),
    'X': ('[v == 0 for v in d_X]', lambda C, ctx, a, b, x: C['d'][x] == 0),
    'ABX': ('[u != v for u, v in zip(d_A, d_X)]',
            lambda C, ctx, a, b, x: ctx.Not(C['d'][a] == C['d'][x])),
    'on': ('[v == 1 for v in on_A]', lambda C, ctx, a, b, x: C['on'][a] == 1),
}


def distinct(ctx, conds, same):
    """number of classes of `same` among the indices where conds holds"""
    tot = []
    for i in range(len(conds)):
        if conds[i] is False:
            continue
        earlier = [ctx.And(conds[j], same(i, j)) for j in range(i)
                   if conds[j] is not False]
        tot.append(ctx.b2i(ctx.And(conds[i], ctx.Not(ctx.Or(earlier)))))
    return ctx.Sum(tot)


def check_stats(ctx, it, on, across, by, filters=()):
    task = ctx.load('ABXpy.task')
    f = it.write()
    C = it.cols
    names = [FILTERS[k][0] for k in filters]
    t = task.Task(f, on, across or None, by or None, names or None)
    stats, by_stats = t.stats, t.by_stats
    key = lambda i: tuple(C[c][i] for c in by)
    groups = {}
    for i in range(it.n):
        groups.setdefault(key(i), []).append(i)
    total, blocks, n_by = [], [], []
    per = {}
    for k, items in sorted(groups.items()):
        kept = {i: ctx.And([C['d'][i] == 1 for g in filters
                            if g == 'generic']) for i in items}
        tri = [(a, b, x) for a in items for b in items for x in items]
        ok = []
        for a, b, x in tri:
            v = valid(ctx, it, on, across, by, a, b, x)
            if v is not False:
                for g in filters:
                    v = ctx.And(v, FILTERS[g][1](C, ctx, a, b, x))
            ok.append(v)
        e = {'nb_triplets': ctx.Sum([ctx.b2i(v) for v in ok])}
        total.append(e['nb_triplets'])

        def levels(cols):
            return distinct(ctx, [kept[i] for i in items], lambda i, j: ctx.And(
                [C[c][items[i]] == C[c][items[j]] for c in cols]))
        e['nb_items'] = ctx.Sum([ctx.b2i(kept[i]) for i in items])
        e['nb_on_levels'] = levels([on])
        if across:
            e['nb_across_levels'] = levels(across)
            e['nb_on_across_levels'] = levels([on] + across)
        else:
            e['nb_across_levels'] = e['nb_on_across_levels'] = e['nb_items']
        blocks.append(e['nb_on_across_levels'])
        n_by.append(ctx.b2i(ctx.Or([kept[i] for i in items])))
        if not filters and len(across) <= 1:
            on_p, ac_p = [], []
            for a in items:
                for q in items:
                    same = C[on][a] == C[on][q]
                    if across:
                        c = across[0]
                        on_p.append(ctx.And(same, ctx.Not(C[c][a] == C[c][q])))
                        ac_p.append(ctx.And(ctx.Not(same), C[c][a] == C[c][q]))
                    else:
                        on_p.append(ctx.And(same, a != q))
                        ac_p.append(ctx.Not(same))
            e['nb_on_pairs'] = ctx.Sum([ctx.b2i(v) for v in on_p])
            e['nb_across_pairs'] = ctx.Sum([ctx.b2i(v) for v in ac_p])
        if not filters and across:
            e['nb_levels'] = distinct(ctx, ok, lambda i, j: ctx.And(
                [C[on][tri[i][0]] == C[on][tri[j][0]],
                 C[on][tri[i][1]] == C[on][tri[j][1]]] +
                [C[c][tri[i][q]] == C[c][tri[j][q]] for c in across
                 for q in (0, 2)]))
        per[k] = e
    ctx.check(ctx.Sum(total) == stats['nb_triplets'],
              'number of triplets announced: %s' % stats['nb_triplets'])
    ctx.check(ctx.Sum(n_by) == stats['nb_by_levels'],
              'number of by levels announced: %s' % stats['nb_by_levels'])
    ctx.check(ctx.Sum(blocks) == stats['nb_blocks'],
              'number of blocks announced: %s' % stats['nb_blocks'])
    out = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t.print_stats_to_stream(out, True)
    printed = parse(out.getvalue())
    lines = {}
    for k, e in per.items():
        bk = (k[0] if len(k) == 1 else k) if by else 0
        if bk not in by_stats:
            ctx.check(e['nb_items'] == 0, 'no statistics for by value %s'
                      % (bk,))
            continue
        p = printed.get(str(bk), {})
        lines[str(bk)] = p
        for nm, v in e.items():
            if nm in by_stats[bk]:
                ctx.check(v == by_stats[bk][nm], '%s announced for by value %s:'
                          ' %s' % (nm, bk, by_stats[bk][nm]))
            if nm != 'nb_items':
                ctx.check(nm in p, '%s is not printed' % nm)
                if nm in p:
                    ctx.check(v == p[nm], '%s printed for by value %s: %d' % (
                        nm, bk, p[nm]))
    if not filters and across:
        ctx.check(ctx.Sum([e['nb_levels'] for e in per.values()]) ==
                  t.stats['nb_levels'], 'number of levels announced: %s'
                  % t.stats['nb_levels'])
    ctx.observe('stats', [int(ctx.value(stats[k])) for k in
                          ('nb_triplets', 'nb_by_levels', 'nb_blocks')])
    ctx.observe('printed', lines)
    # and what is really generated
    outf = ctx.path('out.abx')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t.generate_triplets(output=outf, tmpdir=ctx.dir)
    n = 0
    if os.path.exists(outf):
        with ctx.h5py.File(outf, 'r') as fh:
            n = fh['triplets/data'].shape[0]
    ctx.check(n == stats['nb_triplets'], '%d triplets generated, %s announced'
              % (n, stats['nb_triplets']))


def parse(text):
    out, cur = {}, None
    for l in text.splitlines():
        if l.startswith('### by level: '):
            cur = out.setdefault(l[len('### by level: '):-4], {})
        elif cur is not None and ': ' in l:
            k, v = l.split(': ')
            cur[k] = int(v)
    return out


def stats(ctx, n, k, across, by=False, filters=(), kd=2):
    cols = {'on': labels(ctx, 'on', n, k)}
    ac = ['ac%d' % j for j in range(across)]
    for c in ac:
        cols[c] = labels(ctx, c + '_', n, 2)
    if by:
        cols['by'] = concrete_labels(ctx, 'by', n, 2)
    if filters:
        cols['d'] = labels(ctx, 'd', n, kd)
    check_stats(ctx, Items(ctx, n, cols), 'on', ac, ['by'] if by else [],
                filters)


def shapes(ctx, arr, filters=()):
    cols = fixed_labels(ctx, SHAPES[arr])
    n = len(cols['on'])
    if filters:
        cols['d'] = labels(ctx, 'd', n, 2) if n <= 7 else \
            [i % 2 for i in range(n - 3)] + [ctx.choose('d%d' % i, 2)
                                              for i in range(n - 3, n)]
    ac = sorted(c for c in cols if c.startswith('ac'))
    by = sorted(c for c in cols if c.startswith('by'))
    check_stats(ctx, Items(ctx, n, cols), 'on', ac, by, filters)


HARNESSES = [
    Harness('stats', stats,
            quick=[dict(n=4, k=3, across=0), dict(n=4, k=2, across=1),
                   dict(n=3, k=2, across=2), dict(n=4, k=2, across=0, by=True),
                   dict(n=3, k=2, across=0, filters=('generic',)),
                   dict(n=3, k=2, across=0, filters=('A', 'X')),
                   dict(n=3, k=2, across=0, filters=('ABX', 'on'))],
            thorough=[dict(n=4, k=4, across=1), dict(n=4, k=2, across=2),
                      dict(n=5, k=2, across=1), dict(n=4, k=2, across=1,
                                                     by=True),
                      dict(n=4, k=2, across=0, by=True, filters=('generic',)),
                      dict(n=4, k=2, across=1, filters=('A', 'B', 'X')),
                      dict(n=4, k=2, across=0, filters=('ABX', 'on'))]),
    Harness('shapes', shapes,
            quick=[dict(arr=a) for a in sorted(SHAPES)] +
            [dict(arr='wide', filters=('B',)), dict(arr='by', filters=('X',)),
             dict(arr='by', filters=('generic',))],
            thorough=[dict(arr=a, filters=f) for a in sorted(SHAPES)
                      for f in ((), ('generic',), ('A', 'B'), ('ABX', 'on'))]),
]
