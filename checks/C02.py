"""Filters keep exactly the triplets that satisfy them, wherever they are
applied."""
from abxsym.runner import Harness
from checks.taskspec import *

LEVEL = 'model_checking'
BOUNDS = ('one or two filters out of 36 (computed or plain columns; every '
          'extension; every stage: by, generic, on/across/by, A, B, X and '
          'triplets); 3 items with any labels, or 5-6 items in fixed on/across/'
          'by arrangements whose filtered column takes any value; 14 sets of '
          'filters applied at the same point, on two columns where half of '
          'the values are arbitrary')
OUTSIDE = ('more items; filters read from lookup tables (which cannot be '
           'loaded under Python 3)')
STUBS = ('h5py and pandas.HDFStore are in-memory models; filter expressions '
         'run for real on symbolic values')
ASSUMPTIONS = ['filters are pure functions that return one truth value per '
               'item']
BUDGET = {'quick': 200, 'thorough': 2400}


def table(items, ctx):
    C = items.cols
    has = set(C)
    eq1 = lambda col, who: lambda a, b, x: C[col][dict(a=a, b=b, x=x)[who]] == 1

    def two(c1, w1, c2, w2, op):
        def f(a, b, x):
            d = dict(a=a, b=b, x=x)
            e = C[c1][d[w1]] == C[c2][d[w2]]
            return e if op == '==' else ctx.Not(e)
        return f
    t = [
        ('[v == 1 for v in d_A]', eq1('d', 'a')),
        ('[v == 1 for v in d_B]', eq1('d', 'b')),
        ('[v == 1 for v in d_X]', eq1('d', 'x')),
        ('[v == 1 for v in d]', lambda a, b, x: ctx.And(
            C['d'][a] == 1, C['d'][b] == 1, C['d'][x] == 1)),
        ('[u == v for u, v in zip(d_A, d_X)]', two('d', 'a', 'd', 'x', '==')),
        ('[u != v for u, v in zip(d_A, d_B)]', two('d', 'a', 'd', 'b', '!=')),
        ('[u == v for u, v in zip(d_B, d_X)]', two('d', 'b', 'd', 'x', '==')),
        ('[v == 1 for v in on_A]', eq1('on', 'a')),
        ('[v == 1 for v in on_X]', eq1('on', 'x')),
        ('[v == 1 for v in on_AX]', eq1('on', 'a')),
        ('[v == 1 for v in on_1]', eq1('on', 'a')),
        ('[v == 1 for v in on_2]', eq1('on', 'b')),
        ('[v == 1 for v in on_B]', eq1('on', 'b')),
        ('[v == 1 for v in on]', lambda a, b, x: ctx.And(
            C['on'][a] == 1, C['on'][b] == 1, C['on'][x] == 1)),
        ('[u == v for u, v in zip(on_A, d_B)]', two('on', 'a', 'd', 'b', '==')),
        ('[u == v for u, v in zip(on_1, d_X)]', two('on', 'a', 'd', 'x', '==')),
        ('[u == v for u, v in zip(on_2, d_A)]', two('on', 'b', 'd', 'a', '==')),
        ('[u == v for u, v in zip(on_B, d_B)]', two('on', 'b', 'd', 'b', '==')),
        ('d_A', lambda a, b, x: ctx.Not(C['d'][a] == 0)),
        ('d', lambda a, b, x: ctx.Not(ctx.Or(
            C['d'][a] == 0, C['d'][b] == 0, C['d'][x] == 0))),
        ('d_X', lambda a, b, x: ctx.Not(C['d'][x] == 0)),
        ('on_2', lambda a, b, x: ctx.Not(C['on'][b] == 0)),
    ]
    if 'ac' in has:
        t += [
            ('[v == 1 for v in ac_A]', eq1('ac', 'a')),
            ('[v == 1 for v in ac_B]', eq1('ac', 'b')),
            ('[v == 1 for v in ac_AB]', eq1('ac', 'a')),
            ('[v == 1 for v in ac_1]', eq1('ac', 'a')),
            ('[v == 1 for v in ac_2]', eq1('ac', 'x')),
            ('[v == 1 for v in ac_X]', eq1('ac', 'x')),
            ('[u == v for u, v in zip(ac_2, on_2)]',
             two('ac', 'x', 'on', 'b', '==')),
            ('[u != v for u, v in zip(ac_1, d_A)]',
             two('ac', 'a', 'd', 'a', '!=')),
        ]
    if 'by' in has:
        t += [
            ('[v == 1 for v in by]', eq1('by', 'a')),
            ('[v == 1 for v in by_A]', eq1('by', 'a')),
            ('[v == 1 for v in by_AX]', eq1('by', 'x')),
            ('[v == 0 for v in by_AB]', lambda a, b, x: C['by'][b] == 0),
            ('[u == v for u, v in zip(by, d)]', lambda a, b, x: ctx.And(
                *[C['by'][i] == C['d'][i] for i in (a, b, x)])),
            ('[u == v for u, v in zip(by_B, d_X)]',
             two('by', 'b', 'd', 'x', '==')),
        ]
    return t


ARR = {
    # the first item of the first block goes when it is filtered out
    'across': dict(on=[0, 1, 0, 1, 0, 1], ac=[0, 0, 1, 1, 0, 1]),
    'plain': dict(on=[0, 1, 1, 0, 2]),
    'by': dict(on=[0, 1, 0, 1, 0, 1], by=[1, 1, 1, 0, 0, 0]),
    'acby': dict(on=[0, 1, 0, 1, 0, 1], ac=[0, 0, 1, 1, 1, 0],
                 by=[1, 1, 1, 0, 0, 0]),
    'abx': dict(on=[1, 0, 1, 0, 1], ac=[1, 1, 0, 1, 0]),
}


def run(ctx, it, fs, across, by):
    exprs = [f[0] for f in fs]
    r = generate(ctx, it, 'on', ['ac'] if across else None,
                 ['by'] if by else None, filters=exprs)
    check_triplets(ctx, it, r, 'on', ['ac'] if across else None,
                   ['by'] if by else None,
                   extra=lambda a, b, x: ctx.And(*[f[1](a, b, x)
                                                   for f in fs]))
    if r.exists and not r.problems:
        check_pairs(ctx, r)
    ctx.observe('triplets', sorted(r.triplets))
    ctx.observe('filters', exprs)


def arranged(ctx, arr, nfilters=1, kd=2, only=None):
    cols = {k: list(v) for k, v in ARR[arr].items()}
    n = len(cols['on'])
    cols['d'] = labels(ctx, 'd', n, kd)
    it = Items(ctx, n, cols)
    t = table(it, ctx)
    if only is not None:
        t = [t[i] for i in only]
    fs = []
    lo = 0
    for q in range(nfilters):
        lo += ctx.choose('f%d' % q, len(t) - lo)
        fs.append(t[lo])
    run(ctx, it, fs, 'ac' in cols, 'by' in cols)


def free(ctx, n, k, across, by, only=None):
    cols = {'on': labels(ctx, 'on', n, k)}
    if across:
        cols['ac'] = labels(ctx, 'ac', n, 2)
    if by:
        cols['by'] = concrete_labels(ctx, 'by', n, 2)
    cols['d'] = labels(ctx, 'd', n, 2)
    it = Items(ctx, n, cols)
    t = table(it, ctx)
    if only is not None:
        t = [t[i] for i in only]
    f = t[ctx.choose('f0', len(t))]
    run(ctx, it, [f], across, by)


def scripts(ctx, arr, n):
    """filters of several lines, with functions of their own"""
    cols = {k: list(v) for k, v in ARR[arr].items()}
    cols['d'] = labels(ctx, 'd', len(cols['on']), 2)
    it = Items(ctx, len(cols['on']), cols)
    D = cols['d']
    t = [('k = 1\n[any(v == q for q in (k, 7)) for v in d_X]',
          lambda a, b, x: D[x] == 1),
         ('list(map(lambda i: d_A[i] == d_B[i], range(len(d_A))))',
          lambda a, b, x: D[a] == D[b]),
         ('import operator\nimport math as m\n'
          'list(map(lambda u: operator.eq(u, m.floor(1.5)), d_B))',
          lambda a, b, x: D[b] == 1),
         ('def f(u):\n    return u != k\nk = 0\n[f(u) for u in d_A]',
          lambda a, b, x: ctx.Not(D[a] == 0))]
    run(ctx, it, [t[ctx.choose('f', n)]], 'ac' in cols, False)


N = None
SHAPES = {
    'across': dict(on=[0, 1, 2, 0, 1], ac=[0, 0, 0, 1, 1],
                   d=[0, 1, N, N, 0], e=[0, N, 1, 0, N]),
    'by': dict(on=[0, 1, 0, 0, 1, 0, 1, 0], by=[0, 0, 0, 1, 1, 2, 2, 2],
               d=[0, N, 1, 1, 0, 1, 0, N], e=[0, 1, N, 0, 1, 0, N, 1]),
}


def pairs_of(C, ctx):
    """filters applied at the same point, with columns of their own"""
    def eq(w, va=1, ve=1):
        return lambda a, b, x: ctx.And(
            C['d'][dict(a=a, b=b, x=x)[w]] == va,
            C['e'][dict(a=a, b=b, x=x)[w]] == ve)
    t = [(['[v == 1 for v in %s_%s]' % (c, w) for c in 'de'], eq(w.lower()))
         for w in 'ABX']
    t += [
        (['[v == 1 for v in d]', '[v == 1 for v in e]'],
         lambda a, b, x: ctx.And(*[C[c][i] == 1 for c in 'de'
                                   for i in (a, b, x)])),
        (['[v != 0 for v in on_1]', '[v != 1 for v in on_A]'],
         lambda a, b, x: ctx.And(C['on'][a] != 0, C['on'][a] != 1)),
        (['[u != v for u, v in zip(d_A, d_B)]',
          '[u == v for u, v in zip(e_B, e_X)]'],
         lambda a, b, x: ctx.And(ctx.Not(C['d'][a] == C['d'][b]),
                                 C['e'][b] == C['e'][x])),
        (['[u == v for u, v in zip(d_X, d_A)]',
          '[u != v for u, v in zip(d_B, e_A)]',
          '[v == 1 for v in e_B]'],
         lambda a, b, x: ctx.And(C['d'][a] == C['d'][x], C['e'][b] == 1,
                                 ctx.Not(C['d'][b] == C['e'][a]))),
        # a script that needs many columns
        (['[p == q or u != v or w == z for p, q, u, v, w, z in '
          'zip(d_A, d_B, e_A, e_X, d_X, e_B)]'],
         lambda a, b, x: ctx.Or(C['d'][a] == C['d'][b],
                                ctx.Not(C['e'][a] == C['e'][x]),
                                C['d'][x] == C['e'][b])),
        # what a script does with its columns does not reach the others
        (['e_A.reverse()\n[True for v in e_A]', '[v == 1 for v in e_A]'],
         lambda a, b, x: C['e'][a] == 1),
        (['d_B[:] = [7] * len(d_B)\nd_X.reverse()\n[v == 7 for v in d_B]',
          '[u == v for u, v in zip(d_B, d_X)]'],
         lambda a, b, x: C['d'][b] == C['d'][x]),
    ]
    if 'by' in C:
        t += [(['[v != %d for v in by]' % i for i in q],
               lambda a, b, x, q=q: all(C['by'][a] != i for i in q))
              for q in ((0, 1), (1, 0), (2, 0))]
        t += [(['[v != 1 for v in by_A]', '[u == v for u, v in zip(by, d)]'],
               lambda a, b, x: ctx.And(C['by'][a] != 1, *[
                   C['by'][i] == C['d'][i] for i in (a, b, x)]))]
    return t


def same_point(ctx, arr):
    cols = fixed_labels(ctx, SHAPES[arr])
    it = Items(ctx, len(cols['on']), cols)
    t = pairs_of(cols, ctx)
    exprs, keep = t[ctx.choose('f', len(t))]
    run(ctx, it, [(e, keep) for e in exprs], 'ac' in cols, 'by' in cols)


REJECTED = ['[v == 1 for v in d_AX]', '[v == 1 for v in d_AB]',
            '[v == 1 for v in d_1]', '[v == 1 for v in d_2]',
            '[v == 1 for v in on_AB]', '[v == 1 for v in ac_AX]',
            '[u == v for u, v in zip(d, d_A)]']


def rejected(ctx):
    cols = {'on': [0, 1, 0], 'ac': [0, 0, 1], 'd': [1, 1, 1]}
    it = Items(ctx, 3, cols)
    f = REJECTED[ctx.choose('f', len(REJECTED))]
    try:
        generate(ctx, it, 'on', ['ac'], None, filters=[f])
    except ValueError:
        ctx.check(True, 'rejected')
        return
    ctx.fail('meaningless filter %s accepted' % f)


HARNESSES = [
    Harness('arranged', arranged,
            quick=[dict(arr='across'), dict(arr='plain'), dict(arr='acby'),
                   dict(arr='abx', nfilters=2, only=[0, 1, 2, 3, 4, 6, 14, 18])],
            thorough=[dict(arr='across', nfilters=2), dict(arr='by'),
                      dict(arr='abx', kd=3), dict(arr='plain', nfilters=2),
                      dict(arr='acby', nfilters=2)]),
    Harness('free', free,
            quick=[dict(n=3, k=2, across=True, by=False)],
            thorough=[dict(n=4, k=2, across=True, by=False,
                           only=[0, 1, 2, 3, 4, 11, 13, 16, 22, 27]),
                      dict(n=4, k=2, across=False, by=True),
                      dict(n=3, k=3, across=True, by=True)]),
    Harness('same_point', same_point, quick=[dict(arr='across'),
                                             dict(arr='by')]),
    Harness('scripts', scripts, quick=[dict(arr='abx', n=4)],
            thorough=[dict(arr='abx', n=4), dict(arr='plain', n=4)]),
    Harness('rejected', rejected, quick=[dict()], thorough=[dict()]),
]
