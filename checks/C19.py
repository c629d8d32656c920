"""Items, labels and locations stay together when a database is loaded."""
import os

from abxsym.runner import Harness
from checks.taskspec import Items, check_regressors, check_triplets, generate

LEVEL = 'model_checking'
BOUNDS = ('3 items (4 in the thorough tier) with arbitrary labels in two '
          'columns, up to two of which miss a label; auxiliary tables with '
          'arbitrary labels and contents, on one or two columns and nested '
          'in another one, where a label or a value may be missing; tasks '
          'of 4 items on, across or by an auxiliary column; files with any '
          'mix of separators and blank lines')
OUTSIDE = ('more items; labels that pandas reads as numbers or missing values '
           '(NA, null, 01); auxiliary tables that list a label twice')
STUBS = ('item and auxiliary files with symbolic labels are tables given to '
         'the code when it asks pandas to read them')
ASSUMPTIONS = ['the labels of an auxiliary table are distinct']
BUDGET = {'quick': 150, 'thorough': 1800}


def load(ctx, path):
    m = ctx.load('ABXpy.database.database')
    ctx.symbolic_text()
    db, tree, feat = m.load(path, features_info=True)
    return db, tree, feat


def judge(ctx, db, feat, columns, kept, locations, values):
    """kept: numbers of the items left, values[column]: their labels"""
    ctx.check(list(db.columns) == columns, 'columns %s' % list(db.columns))
    ctx.check(list(feat.columns) == ['file', 'onset', 'offset'],
              'columns of the locations %s' % list(feat.columns))
    ctx.check(len(db) == len(kept) and len(feat) == len(kept),
              '%d items and %d locations, %d were complete' % (
                  len(db), len(feat), len(kept)))
    if list(db.columns) != columns or len(db) != len(kept) or \
            len(feat) != len(kept):
        return
    got = [list(feat.iloc[i]) for i in range(len(kept))]
    ctx.check(got == [locations[i] for i in kept],
              'the locations are %s' % got)
    # they are looked up by label as well
    ctx.check(list(db.index) == list(range(len(kept))) == list(feat.index),
              'items are numbered %s and locations %s' % (
                  list(db.index), list(feat.index)))
    bad = []
    for c in columns:
        for k, i in enumerate(kept):
            bad.append(ctx.Not(db[c].iloc[k] == values[c][i]))
    ctx.check(ctx.Not(ctx.Or(bad)), 'a label is not the one of its item')
    ctx.observe('n', len(kept))


def where(n):
    return [['f%d' % (i % 2), 0.5 * i, 0.5 * i + 0.25] for i in range(n)]


def incomplete(ctx, n, most):
    """missing labels"""
    on = [ctx.label('on%d' % i, 0, 2) for i in range(n)]
    ac = [ctx.label('ac%d' % i, 0, 2) for i in range(n)]
    loc = where(n)
    kept, lost = [], 0
    for i in range(n):
        k = ctx.choose('m%d' % i, 4) if lost < most else 0
        if k & 1:
            on[i] = None
        if k & 2:
            ac[i] = None
        if k:
            lost += 1
        else:
            kept.append(i)
    p = ctx.write_items('data.item', ['on', 'ac'],
                        [loc[i] + [on[i], ac[i]] for i in range(n)])
    db, tree, feat = load(ctx, p)
    judge(ctx, db, feat, ['on', 'ac'], kept, loc, {'on': on, 'ac': ac})
    r = ctx.path('data-removed.item')
    ctx.check(os.path.exists(r) == (lost > 0), 'list of the removed items: %s'
              % os.path.exists(r))


def lookup(ctx, label, keys, vals):
    """number of the line of the table for a label, or None"""
    for k, v in zip(keys, vals):
        if ctx.decide(label == k):
            return v
    return None


def auxiliary(ctx, n, keys, nested=False, hole=True, twice=False,
              first='sex'):
    """columns from auxiliary tables"""
    on = [ctx.label('on%d' % i, 0, 1) for i in range(n)]
    spk = [ctx.label('spk%d' % i, 0, len(keys)) for i in range(n)]
    loc = where(n)
    p = ctx.write_items('data.item', ['on', 'spk'],
                        [loc[i] + [on[i], spk[i]] for i in range(n)])
    sex = [ctx.label('sex%d' % i, 0, 2) for i in range(len(keys))]
    age = [30 + i for i in range(len(keys))]
    if hole:
        h = ctx.choose('hole', len(keys) + 1)
        if h < len(keys):
            sex[h] = None
    # the nested table is on the first or the second column
    order = [1, 2] if first == 'sex' else [2, 1]
    ctx.write_table('data.spk', [['spk', 'sex', 'age'][k] for k in [0] + order],
                    [[r[k] for k in [0] + order] for r in (
                        [ctx.const_label(k), s, a]
                        for k, s, a in zip(keys, sex, age))])
    vals = {'on': on, 'spk': spk, 'sex': [], 'age': [], 'grp': [], 'sty': []}
    cols = ['on', 'spk', 'sex', 'age']
    if nested:
        grp = [ctx.label('grp%d' % i, 0, 1) for i in range(2)]
        ctx.write_table('data.sex', ['sex', 'grp'], [
            [ctx.const_label(2), grp[0]], [ctx.const_label(0), grp[1]]])
        cols = ['on', 'spk', 'sex', 'grp', 'age']
    if twice:
        sty = [ctx.label('sty%d' % i, 0, 1) for i in range(2)]
        ctx.write_table('data.on', ['on', 'sty'], [
            [ctx.const_label(1), sty[0]], [ctx.const_label(0), sty[1]]])
        cols = cols + ['sty']
    kept = []
    for i in range(n):
        row = lookup(ctx, spk[i], keys, range(len(keys)))
        s = None if row is None else sex[row]
        vals['sex'].append(s)
        vals['age'].append(None if row is None else age[row])
        ok = s is not None
        if nested:
            g = lookup(ctx, s, [2, 0], grp) if ok else None
            vals['grp'].append(g)
            ok = ok and g is not None
        if twice:
            vals['sty'].append(lookup(ctx, on[i], [1, 0], sty))
        if ok:
            kept.append(i)
    db, tree, feat = load(ctx, p)
    # the order of the columns is not part of the property
    ctx.check(sorted(db.columns) == sorted(cols), 'columns %s' %
              list(db.columns))
    judge(ctx, db, feat, list(db.columns), kept, loc, vals)


def whole(ctx, roles):
    """tasks on auxiliary columns"""
    n = 5
    on, ac, by = roles[ctx.choose('roles', len(roles))]
    lab = [0, 1, 0, 1, 1]
    spk = [ctx.label('spk%d' % i, 0, 2) for i in range(2)] + \
        [ctx.const_label(v) for v in (0, 1, 2)]
    # '#sex' is not a name of the item file
    sex = [ctx.choose('sex%d' % i, 2) for i in range(3)]
    of = []
    for i in range(n):
        of.append(lookup(ctx, spk[i], [2, 0, 1], sex))
    ctx.write_table('data.spk', ['spk', 'sex'], [
        [ctx.const_label(k), v] for k, v in zip([2, 0, 1], sex)])
    it = Items(ctx, n, {'lab': lab, 'spk': spk})
    r = generate(ctx, it, on, [ac] if ac else None, [by] if by else None,
                 regressors=['sex_B'], want_regs=True)
    it.cols['sex'] = of
    if not r.exists:
        return
    check_triplets(ctx, it, r, on, [ac] if ac else None, [by] if by else None)
    e = {'sex_B': ('sex', 'b'), on + '_1': (on, 'a'), on + '_2': (on, 'b')}
    if ac:
        e[ac + '_1'], e[ac + '_2'] = (ac, 'a'), (ac, 'x')
    check_regressors(ctx, it, r, e)
    ctx.observe('n', len(r.triplets))


SEPS = [' ', '\t', '  \t ']
ENDS = ['\n', ' \n', '\n\n', '\n  \t\n']


def layout(ctx, n=3):
    """files with any separators and blank lines"""
    cols = ['#file', 'onset', 'offset', '#on', 'ac']
    loc = where(n)
    lab = [['u%d' % i, 'v%d' % i] for i in range(n)]
    out = ''
    for i, r in enumerate([cols] + [a + b for a, b in zip(loc, lab)]):
        s = SEPS[ctx.choose('sep%d' % i, 3)]
        e = ENDS[ctx.choose('end%d' % i, 2 if i == 0 else 4)] if i in (
            0, 1, n) else '\n'
        if i == n and ctx.choose('last', 2):
            e = ''
        # blanks at the end of the header would be a column
        out += s.join(str(v) for v in r) + ('\n' if i == 0 else e)
    p = ctx.path('data.item')
    with open(p, 'w') as f:
        f.write(out)
    ext = ctx.choose('ext', 2)
    db, tree, feat = load(ctx, p if ext else p[:-5])
    judge(ctx, db, feat, ['on', 'ac'], list(range(n)), loc,
          {'on': [v[0] for v in lab], 'ac': [v[1] for v in lab]})


HARNESSES = [
    Harness('incomplete', incomplete, quick=[dict(n=3, most=2)],
            thorough=[dict(n=4, most=3)]),
    Harness('auxiliary', auxiliary,
            quick=[dict(n=2, keys=[1, 0]), dict(n=3, keys=[1, 0], hole=False),
                   dict(n=2, keys=[0, 1], nested=True, hole=False),
                   dict(n=2, keys=[0, 1], nested=True, hole=False,
                        first='age'),
                   dict(n=2, keys=[0, 1], hole=False, twice=True)],
            thorough=[dict(n=3, keys=[1, 0]), dict(n=3, keys=[2, 0, 1]),
                      dict(n=3, keys=[0, 1], nested=True),
                      dict(n=3, keys=[0, 1], twice=True)]),
    Harness('whole', whole,
            quick=[dict(roles=[('lab', 'sex', None), ('lab', None, 'sex'),
                               ('sex', None, None)])],
            thorough=[dict(roles=[('lab', 'sex', None), ('lab', None, 'sex'),
                                  ('sex', None, None), ('sex', 'lab', None),
                                  ('sex', None, 'lab')])]),
    Harness('layout', layout, quick=[dict()]),
]
